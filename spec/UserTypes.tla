----------------------------- MODULE UserTypes -----------------------------
(* Types a user of the library might declare: every tagging form, optional  *)
(* and default member shapes, nested choices, governed members.  The family *)
(* (harness/usertypes.py) is part of the input of a run, as the events are: *)
(* the same descriptors are declared with the library's class syntax.       *)
EXTENDS Types, Json, IOUtils
S_user == IF "TYPES_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.TYPES_FILE)
          ELSE [user_None |-> PrimT("null")]
=============================================================================
