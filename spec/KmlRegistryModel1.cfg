CONSTANTS MaxSteps = 5
          MaxRegs = 4
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Exactly Ordered InOrder Layers
PROPERTIES Local AtOnce
