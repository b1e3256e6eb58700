CONSTANT MaxSteps = 4
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Walk Narrow Split States Emit
