---------------------------- MODULE ExportSchema ----------------------------
(* Writes the type tables as JSON for the generators of the harness.        *)
EXTENDS Asn1, Json, IOUtils
VARIABLE x
Init == x = 0 /\ JsonSerialize(IOEnv.OUT, [n \in TyNames |-> TyOf[n]])
Next == FALSE /\ x' = x
=============================================================================
