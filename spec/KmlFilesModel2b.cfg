CONSTANTS MaxSteps = 9
          Depth = 2
          FNames = {"f1"}
          FZips = {}
          Checks = TRUE
          Strictness = {TRUE, FALSE}
          Vals = {"yes", "no", ""}
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Latest NotIn ReadAll OneVerdict
PROPERTIES Looks
