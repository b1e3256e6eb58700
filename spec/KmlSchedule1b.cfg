CONSTANTS NWorkers = 3
          NSteps = 2
          JobSets = "same"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS AsAlone Owned
