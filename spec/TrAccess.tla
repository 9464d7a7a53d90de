------------------------------ MODULE TrAccess ------------------------------
(* Verdicts for recorded attributes (P23).                                    *)
(* read: a value v of type t, its encoding, and what each attribute of the    *)
(* loaded encoding came to each time it was read; sha: digests of octets, by  *)
(* the recorder.  broken: the same for octets that may not be readable.       *)
EXTENDS Access, TraceBase
Digest(e, of) == LET js == {j \in DOMAIN e.sha : e.sha[j].of = of} IN IF js = {} THEN <<>> ELSE <<e.sha[CHOOSE j \in js : TRUE]>>
Shown(d, how) == CASE how = "sha1" -> d.h1 [] how = "sha256" -> d.h256 [] how = "sha1 fingerprint" -> d.f1 [] OTHER -> d.f256
Fits(e, want, got) ==
    CASE want.k = "none" -> got.k = "none"
      [] want.k = "obj" -> got.k = "obj" /\ got.der = Enc(want.t, want.v)
      [] want.k = "nat" -> got.k = "nat" /\ NatEq(want.v, got.v)
      [] want.k = "objs" -> got.k = "objs" /\ got.l = [j \in DOMAIN want.l |-> Enc(want.t, want.l[j])]
      [] want.k = "names" -> got.k = "names" /\ {got.l[j] : j \in DOMAIN got.l} = want.ns
      [] want.k = "texts" -> (got.k = "texts" /\ [j \in DOMAIN got.l |-> Schemed(got.l[j])] = [j \in DOMAIN want.l |-> Schemed(want.l[j])]) \/ (got.k = "objs" /\ got.l = <<>> /\ want.l = <<>>)
      [] want.k = "text" -> got.k = "nat" /\ got.v.k = "str" /\ Schemed(got.v.c) = Schemed(want.t)
      [] want.k = "hash" -> Digest(e, want.of) # <<>> /\ got.k = "nat" /\ Shown(Digest(e, want.of)[1], want.how) \o want.tail = got.x
      [] want.k = "str" -> got.k = "nat" /\ got.v.k = "str" /\ got.v.s = want.s
      [] want.k = "err" -> got.k = "err" /\ got.e = "ValueError"
VRead(e) ==
    LET want == Attributes(e.t, e.v)
        bad == {a \in DOMAIN want : a \notin DOMAIN e.got \/ \E j \in DOMAIN e.got[a] : ~Fits(e, want[a], e.got[a][j])}
    IN IF e.der # Enc(e.t, e.v) THEN "encoding of the structure"
       ELSE IF bad # {} THEN CHOOSE a \in bad : TRUE
       ELSE IF e.dump # e.der THEN "reading attributes changes the structure" ELSE "ok"
(* whatever an attribute comes to, it comes to again                            *)
VBroken(e) ==
    LET bad == {a \in DOMAIN e.got : \E j \in DOMAIN e.got[a] : e.got[a][j] # e.got[a][1] \/ (e.got[a][j].k = "err" /\ e.got[a][j].e # "ValueError")}
    IN IF bad = {} THEN "ok" ELSE (CHOOSE a \in bad : TRUE) \o " of octets that can not be read"
Verdict(e) == CASE e.op = "read" -> VRead(e)
                [] e.op = "broken" -> VBroken(e)
                [] e.op = "plain" -> IF \A j \in DOMAIN e.got : e.got[j].k = "nat" /\ NatEq(VOct(e.o), e.got[j].v) THEN "ok" ELSE "decompressed"
                (* a stream that is cut short or altered has no contents       *)
                [] e.op = "cut" -> IF \A j \in DOMAIN e.got : e.got[j] = "err" THEN "ok" ELSE "contents of a damaged stream"
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
