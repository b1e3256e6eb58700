CONSTANTS NWorkers = 2
          NSteps = 5
          JobSets = "all"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS AsAlone Owned
