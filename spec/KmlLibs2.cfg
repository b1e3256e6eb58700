CONSTANTS MaxObjects = 3
          MaxSteps = 8
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NoDifference Kept
