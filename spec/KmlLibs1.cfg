CONSTANTS MaxObjects = 2
          MaxSteps = 7
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NoDifference Kept
