-------------------------------- MODULE TrRead --------------------------------
(* P03: what reads of a value loaded from arbitrary octets may come to.       *)
(* The state of a loaded value, as far as this property goes, is what each    *)
(* read of each of its parts has come to so far: the first outcome is free    *)
(* within the contract, every later one is determined.                        *)
(* An event is one history: a load and the reads that followed, each with     *)
(* e = "" (a value) or the exception, and d, a digest of the value.  What a    *)
(* dump shows is P01's: a value in indefinite form (an octet 128) may become  *)
(* DER by it, and what was read of it (local times, unused bits) with it.     *)
EXTENDS Tlv, TraceBase, Integers, Sequences, FiniteSets, SequencesExt

Outcomes == {"", "ValueError"}

(* what loading octets b may come to                                          *)
LoadBad(e) ==
    LET p == Parse(e.b)
        whole == p.ok /\ (e.strict => p.end = Len(e.b) + 1)
    IN IF e.bytes = FALSE THEN IF e.load = "TypeError" THEN "ok" ELSE "load of something else than bytes"
       ELSE IF e.load \notin Outcomes THEN "load: " \o e.load
       ELSE IF ~whole /\ e.load = "" /\ ~e.lazy THEN "malformed or truncated octets loaded"
       ELSE "ok"

Key(s) == <<s.h, s.r>>
Step(e, st, s) ==
    IF st.bad # "ok" THEN st
    ELSE IF s.e \notin Outcomes THEN [st EXCEPT !.bad = s.r \o ": " \o s.e]
    ELSE IF s.r = "dump" /\ Contains(e.b, 128) THEN [st EXCEPT !.seen = <<>>]
    ELSE IF Key(s) \in DOMAIN st.seen
         THEN IF st.seen[Key(s)] = <<s.e, s.d>> \/ (s.r = "dump" /\ st.seen[Key(s)][1] = s.e) THEN st ELSE [st EXCEPT !.bad = s.r \o ": another outcome when read again"]
    ELSE [st EXCEPT !.seen = (Key(s) :> <<s.e, s.d>>) @@ @]

VRead(e) == LET l == LoadBad(e) IN
            IF l # "ok" THEN l ELSE FoldLeft(LAMBDA st, s : Step(e, st, s), [bad |-> "ok", seen |-> <<>>], e.steps).bad

Verdict(e) == CASE e.op = "read" -> VRead(e)
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
