CONSTANTS MaxLen = 5
          Alphabet = {"W", "B", "V", "C", "D", "X", "A", "H"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Refusal Lenient Together Again Views Emit
