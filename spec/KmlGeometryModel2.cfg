CONSTANT MaxSteps = 6
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Trip DocTrip Placed Emit
