CONSTANTS MaxSteps = 7
          Keep = 2
          Held = 2
          Kinds = {"Point", "Placemark", "Schema"}
          Every = 60
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NoLoop Recovers Says
PROPERTIES Harmless
