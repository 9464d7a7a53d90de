------------------------------- MODULE TrAsn1 -------------------------------
(* Conformance of the structure layer: constructing (make) and loading      *)
(* (load) values of every type of the tables.                               *)
EXTENDS Asn1, TraceBase

(* make: value e.v of type e.t was given to the library through several     *)
(* routes; each e.outs[j] is what dump() returned                           *)
VMake(e) ==
    LET want == EncT(e.t, e.im, e.ex, e.v)
        nat == NatOf(e.t, e.v)
        bad == {j \in 1..Len(e.outs) : e.outs[j].k # "ok" \/ e.outs[j].der # want}
    IN IF bad # {} THEN
          LET o == e.outs[CHOOSE j \in bad : \A q \in bad : j <= q] IN
          IF o.k # "ok" THEN o.how \o ": refused" ELSE o.how \o ": not the DER encoding"
       ELSE IF e.nat.k # "ok" THEN "native of the built value raises"
       ELSE IF ~NatEq(nat, e.nat.v) THEN "native of the built value"
       ELSE IF e.back.k # "ok" THEN "its own encoding is refused"
       ELSE IF ~NatEq(NatOf(e.t, DecP(e.t, e.im, e.ex, want).v), e.back.v) THEN "native after loading its encoding"
       ELSE IF ~DecP(e.t, e.im, e.ex, want).ok THEN "specification cannot decode its own encoding"
       ELSE IF e.force.k # "ok" \/ e.force.der # want THEN "forced dump of the loaded DER"
       ELSE "ok"

(* load: octets e.b given to load() of type e.t                             *)
VLoad(e) ==
    LET d == DecP(e.t, e.im, e.ex, e.b)
        n == NatOf(e.t, d.v)
    IN IF ~d.ok THEN
          IF d.why \in Tolerated THEN (IF e.nat.k = "ok" \/ e.nat.e = "ValueError" THEN "ok" ELSE "wrong exception for: " \o d.why)
          ELSE IF e.nat.k = "ok" THEN "accepted: " \o d.why
          ELSE IF e.nat.e # "ValueError" THEN "wrong exception for: " \o d.why
          ELSE "ok"
       ELSE IF e.nat.k # "ok" THEN (IF Unknown(n) /\ e.nat.e = "ValueError" THEN "ok" ELSE "valid encoding refused")
       ELSE IF ~NatEq(n, e.nat.v) THEN "native"
       ELSE IF e.dump.k # "ok" THEN "dump raises"
       ELSE IF e.force.k # "ok" THEN (IF RawTolerated(d.v) /\ e.force.e = "ValueError" THEN "ok" ELSE "forced dump raises")
       ELSE IF e.force.der # EncT(e.t, e.im, e.ex, d.v) /\ ~RawTolerated(d.v) THEN "forced dump is not the DER encoding"
       ELSE IF e.dump.der # e.b /\ ~Loose(e.t, e.im, e.ex, e.b) THEN "dump is not the input"
       ELSE IF e.dump.der # e.b /\ e.dump.der # e.force.der THEN "dump of an indefinite-length value"
       ELSE IF e.again.k # "ok" \/ ~NatEq(n, e.again.v) THEN "native after forced dump"
       ELSE "ok"

(* a value built with tags (e.im, e.ex), then given (e.im2, e.ex2) or none   *)
VRetag(e) ==
    LET is(o, want) == o.k = "ok" /\ o.der = want
        new == EncT(e.t, e.im2, e.ex2, e.v)
    IN IF ~is(e.re, new) THEN "retagged"
       ELSE IF ~is(e.un, EncT(e.t, <<>>, <<>>, e.v)) THEN "untagged"
       ELSE IF ~is(e.orig, EncT(e.t, e.im, e.ex, e.v)) THEN "original changed by retag or untag"
       ELSE IF ~is(e.twice, new) THEN "retagged, untagged and retagged"
       ELSE IF e.back.k # "ok" \/ ~NatEq(NatOf(e.t, e.v), e.back.v) THEN "native after retag"
       ELSE "ok"

(* the views of a choice: e.made = ways of building alternative e.v.n;      *)
(* name, chosen, native and dump of each, and of what their encoding loads  *)
(* as; e.refused = constructions that name no alternative                   *)
VChoice(e) ==
    LET ty == TyOf[e.t]
        want == EncT(e.t, <<>>, e.ex, e.v)
        nat == NatOf(e.t, e.v)
        alt == ty.f[AltIx(ty, e.v.n)]
        one(m) == IF m.k # "ok" THEN m.how \o ": refused"
                  ELSE IF m.name # e.v.n THEN m.how \o ": name"
                  ELSE IF m.dump.k # "ok" \/ m.dump.der # want THEN m.how \o ": dump"
                  ELSE IF m.nat.k # "ok" \/ ~NatEq(nat, m.nat.v) THEN m.how \o ": native"
                  ELSE IF m.chosen.k # "ok" \/ ~NatEq(NatOf(alt.t, e.v.v), m.chosen.v) THEN m.how \o ": native of the chosen value"
                  ELSE IF m.cdump.k # "ok" \/ m.cdump.der # EncT(alt.t, alt.im, alt.ex, e.v.v) THEN m.how \o ": dump of the chosen value"
                  ELSE IF m.after.k # "ok" \/ m.after.der # want THEN m.how \o ": dump after reading"
                  ELSE "ok"
        bad == SelectSeq([j \in 1..Len(e.made) |-> one(e.made[j])], LAMBDA x : x # "ok")
        ref == SelectSeq(e.refused, LAMBDA x : x.k = "ok" \/ ~(x.e \in {"ValueError", "TypeError"}))
    IN IF bad # <<>> THEN bad[1] ELSE IF ref # <<>> THEN ref[1].how \o ": not refused" ELSE "ok"

Verdict2(e) == CASE e.op = "retag" -> VRetag(e)
                [] e.op = "choice" -> VChoice(e)
                [] e.op = "make" -> VMake(e)
                [] e.op = "load" -> VLoad(e)
                [] OTHER -> "unexpected event"
(* cat: values vs of types ts one after the other; the first m of them loaded  *)
(* with some octets after them; value i replaced by w in one of two copies.    *)
CatEnc(ts, vs, m) == Concat([j \in 1..m |-> Enc(ts[j], vs[j])])
VCat(e) ==
    LET n == Len(e.ts) IN
    IF e.made.k # "ok" \/ e.made.der # CatEnc(e.ts, e.vs, n) THEN "values one after the other"
    ELSE IF e.strict /\ e.extra # <<>> THEN (IF e.out.k = "err" /\ e.out.e = "ValueError" THEN "ok" ELSE "octets after the last value")
    ELSE IF e.out.k # "ok" \/ e.out.der # CatEnc(e.ts, e.vs, e.m) THEN "loaded values one after the other"
    ELSE IF e.len # n THEN "number of values"
    ELSE IF Len(e.nat) # e.m \/ \E j \in 1..e.m : ~NatEq(NatOf(e.ts[j], e.vs[j]), e.nat[j]) THEN "native of a value among others"
    ELSE IF e.m < n THEN "ok"
    ELSE IF e.edited.k # "ok" \/ e.edited.der # CatEnc(e.ts, [e.vs EXCEPT ![e.i + 1] = e.w], n) THEN "value replaced"
    ELSE IF e.other.k # "ok" \/ e.other.der # CatEnc(e.ts, e.vs, n) THEN "copy of values one after the other"
    ELSE IF \E j \in DOMAIN e.bad : e.bad[j] # "err" THEN "place outside" ELSE "ok"
Verdict(e) == CASE e.op = "cat" -> VCat(e) [] OTHER -> Verdict2(e)
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
