------------------------------- MODULE TrKeys -------------------------------
(* Verdicts for recorded key containers (P25).                                *)
EXTENDS Keys, TraceBase
Fits(want, got) ==
    CASE want.k = "open" -> TRUE
      [] want.k = "number" -> got.k = "str"
      [] want.k = "err" -> got.k = "err" /\ got.e = "ValueError"
      [] want.k = "curve" -> got.k = "curve" /\ got.n = want.n /\ (want.v = NNone => got.v = NNone) /\ (want.v # NNone => NatEq(want.v, got.v))
      [] OTHER -> want = got
Told(want, got) == LET bad == {x \in DOMAIN want : ~Fits(want[x], got[x])} IN IF bad = {} THEN "ok" ELSE CHOOSE x \in bad : TRUE
Facts(e, v) == IF e.kind = "private" THEN Private(v) ELSE Public(v)
(* digests: of these octets, by the recorder                                  *)
Digests(e, v) == IF e.kind = "private" THEN "ok"
                 ELSE IF e.sha.of # PublicBits(v) THEN "octets of the public key"
                 ELSE IF e.sha.got1 # e.sha.want1 THEN "sha1" ELSE IF e.sha.got256 # e.sha.want256 THEN "sha256" ELSE "ok"
VInfo(e) == LET t == IF e.kind = "private" THEN "keys_PrivateKeyInfo" ELSE "keys_PublicKeyInfo"
                v == CASE e.op = "wrap" -> IF e.kind = "private" THEN WrapPrivate(e.alg, e.v) ELSE WrapPublic(e.alg, e.v)
                       [] OTHER -> e.v
            IN IF e.dump.k # "ok" THEN "container not made"
               ELSE IF e.dump.der # Enc(t, v) THEN "encoding of the container"
               ELSE IF Told(Facts(e, v), e.got) # "ok" THEN Told(Facts(e, v), e.got)
               ELSE IF Told(Facts(e, v), e.back) # "ok" THEN Told(Facts(e, v), e.back) \o " once parsed"
               ELSE IF e.op = "wrap" /\ e.src.k # "none" /\ (e.src.k # "ok" \/ e.src.der # e.orig) THEN "the key that was wrapped has changed"
               ELSE Digests(e, v)
VPoint(e) == IF e.dump # Point(e.x, e.y) THEN "octets of a point"
             ELSE IF e.got # [k |-> "point", x |-> Bare(e.x), y |-> Bare(e.y)] THEN "coordinates of a point" ELSE "ok"
VCoords(e) == IF Fits(Coords(e.p), e.got) THEN "ok" ELSE "coordinates of octets"
(* after each operation: the encodings of the key and of the container        *)
EcOk(s, r) ==
    /\ s.key # <<>> => /\ r.k.k = "ok"
                       /\ IF s.par # "" THEN r.k.der = Enc("keys_ECPrivateKey", EcValue(s))
                          ELSE LET d == Dec("keys_ECPrivateKey", r.k.der) IN d.ok /\ Bare(Get(d.v, "private_key").o) = s.key /\ Absent(Get(d.v, "parameters"))
    /\ s.in.par # "" => r.c.k = "ok" /\ r.c.der = Enc("keys_PrivateKeyInfo", EcInfo(s)) /\ r.bits = 8 * CurveSize[s.in.par]
VEc(e) == LET states == FoldLeft(LAMBDA acc, o : Append(acc, EcStep(Last(acc), o)), <<Ec0>>, e.ops)
              bad == {j \in 1..Len(e.ops) : ~EcOk(states[j + 1], e.outs[j])}
          IN IF bad = {} THEN "ok" ELSE "an EC key after " \o e.ops[CHOOSE j \in bad : \A q \in bad : j <= q].op
Verdict(e) == CASE e.op \in {"wrap", "info"} -> VInfo(e)
                [] e.op = "point" -> VPoint(e)
                [] e.op = "coords" -> VCoords(e)
                [] e.op = "ec" -> VEc(e)
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
