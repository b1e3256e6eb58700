CONSTANTS Near = 2
          Away = 3
          MaxSteps = 14
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Steady Kept
