CONSTANTS MaxInt = 2 MaxFrac = 4 Alphabet = {"0", "1", "2", "4", "5", "6", "9"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Close Symmetric Stable Emit
