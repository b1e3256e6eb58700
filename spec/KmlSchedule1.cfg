CONSTANTS NWorkers = 2
          NSteps = 4
          JobSets = "all"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS AsAlone Owned
