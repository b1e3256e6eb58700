CONSTANTS Members = {"m1", "m2", "m3"}
          MaxLen = 2
          MaxList = 2
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Exact
PROPERTIES Framed ListFramed
