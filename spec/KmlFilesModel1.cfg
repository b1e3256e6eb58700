CONSTANTS MaxSteps = 6
          Depth = 1
          FNames = {"f1", "f2"}
          FZips = {"z1"}
          Checks = FALSE
          Strictness = {TRUE, FALSE}
          Vals = {"no"}
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Latest NotIn ReadAll OneVerdict
PROPERTIES Looks
