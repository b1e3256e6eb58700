CONSTANTS Near = 2
          Away = 2
          MaxSteps = 7
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Steady Kept
PROPERTIES Apart
