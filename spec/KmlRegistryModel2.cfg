CONSTANTS MaxSteps = 7
          MaxRegs = 5
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Exactly Ordered InOrder Layers
PROPERTIES Local AtOnce
