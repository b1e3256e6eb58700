CONSTANT MaxSet = 2
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK Conforms InOrderAnyhow Emit
