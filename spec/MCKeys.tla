------------------------------- MODULE MCKeys -------------------------------
(* Every history of an EC key and its container up to a length: the key and   *)
(* its parameters set, removed, wrapped, put into a container by hand, edited *)
(* there, copied and read back.  Histories are written out and replayed.      *)
EXTENDS Keys, Json, IOUtils
CONSTANTS MaxLen, CurveNames
VARIABLES eck, past
vars == <<eck, past>>
Ns == {<<5>>, <<128>> \o Rep(0, 12) \o <<1>>}
Ops == [op : {"key"}, n : Ns] \cup [op : {"par"}, c : CurveNames] \cup [op : {"nopar", "wrap", "copy", "reload", "creload", "ccopy", "force"}]
       \cup [op : {"put", "cpar"}, c : CurveNames] \cup [op : {"ckey", "inner"}, n : Ns]
Can(s_, h, o) == CASE o.op = "key" -> s_.key = <<>> \/ (s_.par # "" /\ o.n # s_.key)
            [] o.op = "par" -> o.c # s_.par
            [] o.op = "nopar" -> s_.par # "" /\ s_.key # <<>>
            [] o.op = "wrap" -> s_.key # <<>> /\ s_.par # "" /\ s_.in.par = ""
            [] o.op = "put" -> s_.key # <<>> /\ s_.in.par = ""
            [] o.op \in {"copy", "reload"} -> s_.key # <<>> /\ (h = <<>> \/ Last(h).op \notin {"copy", "reload"})
            [] o.op = "cpar" -> s_.in.par # "" /\ o.c # s_.in.par
            [] o.op \in {"ckey", "inner"} -> s_.in.par # "" /\ o.n # s_.in.key
            [] o.op \in {"creload", "ccopy", "force"} -> s_.in.par # "" /\ Last(h).op \notin {"creload", "ccopy", "force"}
            [] OTHER -> FALSE
Init == eck = Ec0 /\ past = <<>>
Next == Len(past) < MaxLen /\ \E o \in Ops : Can(eck, past, o) /\ eck' = EcStep(eck, o) /\ past' = Append(past, o)
Spec == Init /\ [][Next]_vars
(* the private key is as wide as its curve, wherever it is                    *)
Wide(der, c) == LET d == Dec("keys_ECPrivateKey", der) IN d.ok /\ Len(Get(d.v, "private_key").o) = CurveSize[c] /\ Get(d.v, "private_key").k = "oct"
Fixed == eck.key # <<>> /\ eck.par # "" => Wide(Enc("keys_ECPrivateKey", EcValue(eck)), eck.par)
FixedIn == eck.in.par # "" =>
    LET d == Dec("keys_PrivateKeyInfo", Enc("keys_PrivateKeyInfo", EcInfo(eck))) IN
    /\ d.ok /\ Len(Get(Get(d.v, "private_key"), "private_key").o) = CurveSize[eck.in.par]
    /\ Private(EcInfo(eck)) = Private(d.v) /\ Bare(Get(Get(d.v, "private_key"), "private_key").o) = eck.in.key
(* wrapping and the container agree *)
Agree == eck.key # <<>> /\ eck.par # "" => Enc("keys_PrivateKeyInfo", WrapPrivate("ec", EcValue(eck))) = Enc("keys_PrivateKeyInfo", EcInfo([eck EXCEPT !.in = [key |-> eck.key, par |-> eck.par]]))
RECURSIVE Grow(_)
Grow(n) == IF n = 0 THEN {<<Ec0, <<>>>>}
           ELSE LET g == Grow(n - 1) IN UNION {{<<EcStep(x[1], o), Append(x[2], o)>> : o \in {q \in Ops : Can(x[1], x[2], q)}} : x \in g}
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq({x[2] : x \in Grow(MaxLen)}))
=============================================================================
