CONSTANTS MaxInt = 2 MaxFrac = 3 Alphabet = {"0", "1", "4", "5", "9"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Close Symmetric Stable Emit
