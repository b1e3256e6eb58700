------------------------------- MODULE Export -------------------------------
(* Writes the schema of the specification as JSON for the drivers.          *)
EXTENDS KmlSchema, Json, IOUtils, TLC
ASSUME JsonSerialize(IOEnv.OUT, [classes |-> Schema, enums |-> Enums])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
