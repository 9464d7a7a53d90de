------------------------------- MODULE TrAlgo -------------------------------
(* Verdicts for recorded algorithm identifiers (P24).                         *)
(* enc: [a: algorithm, got: attribute -> result]; sig likewise; null: [o, par:*)
(* what the parameters are in the encoding, given: by the caller]; p1363      *)
EXTENDS Algo, TraceBase
Fits(want, got) == IF want.k = "open" THEN got.k # "err" \/ got.e = "ValueError"
                   ELSE IF want.k = "err" THEN got.k = "err" /\ got.e = "ValueError" ELSE want = got
VAttrs(want, got) ==
    LET bad == {x \in DOMAIN want : ~Fits(want[x], got[x])} IN
    IF bad = {} THEN "ok" ELSE CHOOSE x \in bad : TRUE
VNull(e) == IF e.par = (IF e.given # "absent" THEN e.given ELSE IF e.o \in NullFor THEN "null" ELSE "absent") THEN "ok" ELSE "parameters that have to be NULL"
VP1363(e) == IF Fits(P1363(Trim(e.r), Trim(e.s), e.w), e.got) THEN "ok" ELSE "fixed-width form of a signature"
VFrom(e) == IF FromP1363(e.d) = [r |-> Trim(e.r), s |-> Trim(e.s)] THEN "ok" ELSE "signature from the fixed-width form"
Verdict(e) == CASE e.op = "enc" -> VAttrs(Enc(e.a), e.got)
                [] e.op = "sig" -> VAttrs(Sig(e.a), e.got)
                [] e.op = "null" -> VNull(e)
                [] e.op = "p1363" -> VP1363(e)
                [] e.op = "from" -> VFrom(e)
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
