CONSTANTS MaxSteps = 6
          Keep = 1
          Held = 1
          Kinds = {"Point", "Placemark", "Schema"}
          Every = 5
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NoLoop Recovers Says
PROPERTIES Harmless
