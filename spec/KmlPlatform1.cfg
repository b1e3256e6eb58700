CONSTANTS Near = 1
          Away = 1
          MaxSteps = 6
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Steady Kept
PROPERTIES Apart
