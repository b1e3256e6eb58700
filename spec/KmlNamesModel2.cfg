CONSTANTS MaxSteps = 6
          Uris = {"http://www.opengis.net/kml/2.2", "http://earth.google.com/kml/2.1", "http://earth.google.com/kml/2.0"}
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Agrees
PROPERTIES Stays Kept Mine
