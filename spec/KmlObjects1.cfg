CONSTANT MaxSet = 1
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK RoundTrip SameMeaning SaysItself MoreWords NothingInvented Emit
