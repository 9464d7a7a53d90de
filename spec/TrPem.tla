-------------------------------- MODULE TrPem --------------------------------
(* Verdicts for recorded pem.armor / detect / unarmor calls (P19).            *)
EXTENDS Pem, TraceBase

Blocks(bs) == [i \in 1..Len(bs) |-> [name |-> bs[i].name, hs |-> bs[i].hs, der |-> bs[i].der]]
(* o: [k, e, bs]: what was delivered, and then the exception, if any          *)
VUnarmor(e) ==
    LET m == Unarmor(e.t) o == e.out IN
    IF e.detect # Detect(e.t) THEN "detect"
    ELSE IF m.open THEN "ok"
    ELSE IF e.multiple THEN IF Blocks(o.bs) # m.out THEN "blocks"
                            ELSE IF Refused(m) THEN IF o.e = "ValueError" THEN "ok" ELSE "input without a readable block not refused"
                            ELSE IF o.e = "" THEN "ok" ELSE "readable input refused"
    ELSE IF m.out = <<>> THEN IF o.e = "ValueError" THEN "ok" ELSE "input without a readable block not refused"
         ELSE IF o.e # "" THEN "readable input refused"
         ELSE IF Blocks(o.bs) # <<m.out[1]>> THEN "first block" ELSE "ok"

VArmor(e) ==
    IF ~Writable(e.name, e.hs) THEN "generated block can not be written"
    ELSE IF e.out.e # "" THEN "armor raises"
    ELSE LET m == Unarmor(e.out.t) IN
         IF m.err \/ m.open \/ m.out # <<[name |-> Upper(e.name), hs |-> e.hs, der |-> e.der]>> THEN "armored block reads differently"
         ELSE IF ~Detect(e.out.t) THEN "armored block not detected"
         ELSE IF \E l \in 1..Len(Lines(e.out.t)) : e.hs = <<>> /\ Len(e.name) < 40 /\ Len(Lines(e.out.t)[l]) > 64 THEN "lines longer than 64 characters"
         ELSE "ok"

VType(e) == IF e.out.e = "TypeError" THEN "ok" ELSE "argument of the wrong type not refused"

Verdict(e) == CASE e.op = "unarmor" -> VUnarmor(e)
                [] e.op = "armor" -> VArmor(e)
                [] e.op = "type" -> VType(e)
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
