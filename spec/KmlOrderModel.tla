--------------------------- MODULE KmlOrderModel ---------------------------
(***************************************************************************)
(* The specified writer against the content models of the KML schema, on   *)
(* all objects of KmlObjects.                                              *)
(***************************************************************************)
EXTENDS KmlObjects, KmlOrder

\* Icons of icon styles are written with all defaults of links when verbose.
Conforms ==
  InShape(obj) => /\ WrongOrder(Doc(obj, "terse"), FALSE) = {}
                  /\ WrongOrder(Doc(obj, "normal"), FALSE) = {}
                  /\ WrongOrder(Doc(obj, "verbose"), TRUE) = {}
InOrderAnyhow == obj.cls # "Contributor" /\ ~(obj.cls \in {"Style", "KML", "ExtendedData"}) =>
                   \A v \in {"terse", "normal", "verbose"} : WrongOrder(Doc(obj, v), TRUE) = {}
=============================================================================
