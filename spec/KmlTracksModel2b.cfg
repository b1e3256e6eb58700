CONSTANTS MaxLen = 9
          Alphabet = {"W", "C", "A"}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Refusal Lenient Together Again Views Emit
