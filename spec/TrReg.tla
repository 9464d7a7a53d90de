------------------------------- MODULE TrReg -------------------------------
(* Verdicts for the registries (P27): names of object identifiers, integer    *)
(* values, enumerations and named bits, in both directions.                   *)
EXTENDS Asn1, TraceBase
Oids(t, s) == {OidPairs[t][j][1] : j \in {x \in DOMAIN OidPairs[t] : OidPairs[t][x][2] = s}}
OidKnown(t, c) == c \in DOMAIN OidNameOf[t]
Tlv1(tag, c) == Wrap(0, 0, T(tag), c)
NamesOf(t) == {OidPairs[t][j][2] : j \in DOMAIN OidPairs[t]}
OidIn(b) == IF Len(b) > 2 /\ b[1] = 6 THEN SubSeq(b, 3, Len(b)) ELSE <<>>

(* oid: number a through map, load + native, cls(dotted); then the resulting  *)
(* name back through unmap and cls(name)                                      *)
VOidNum(e) ==
    LET c == OidC(ArcsOf(e.a))
        txt == OidText(c)
        known == OidKnown(e.t, c)
        want == IF known THEN OidNameOf[e.t][c] ELSE txt
        names == {e.map, e.load, e.made}
    IN IF e.der # Tlv1(6, c) THEN "encoding of the number"
       ELSE IF known /\ names # {want} THEN "number does not have its standard name"
       ELSE IF Cardinality(names) # 1 THEN "map, native and constructor disagree"
       ELSE IF e.dotted # txt THEN "dotted form"
       ELSE IF e.unmap_num # txt THEN "unmap changes a number"
       ELSE IF e.map = txt THEN "ok"
       ELSE IF ~known /\ e.map \in NamesOf(e.t) THEN "number has the name of another"
       ELSE IF known /\ (OidIn(e.nder) \notin Oids(e.t, want) \/ e.unmap \notin {OidText(x) : x \in Oids(e.t, want)}) THEN "name does not stand for its number"
       ELSE IF e.nnative # e.map THEN "name does not come back"
       ELSE IF ~known /\ (e.nder # e.der \/ e.unmap # txt) THEN "name does not stand for its number"
       ELSE "ok"

(* name: every registered name, used as one                                   *)
VOidName(e) ==
    IF e.unmap \notin {OidText(x) : x \in Oids(e.t, e.s)} THEN "registered name has another number, or is refused"
    ELSE IF OidIn(e.der) \notin Oids(e.t, e.s) THEN "registered name is encoded as another number, or refused"
    ELSE IF e.native # e.s \/ e.back # e.s THEN "registered name does not come back"
    ELSE "ok"

(* refuse: a name nobody registered                                           *)
VRefuse(e) == IF \E j \in DOMAIN e.outs : e.outs[j] # "ValueError" THEN "unknown name is not refused" ELSE "ok"

(* num: small number n of an integer or enumerated type                       *)
VNumber(e) ==
    LET ty == TyOf[e.t]
        s == NumName(ty.m, e.n)
        v == VNum(IntOf(e.n))
        der == EncT(e.t, <<>>, <<>>, v)
        other == {e.load, e.made}
    IN IF s # "" THEN IF other # {s} THEN "number does not have its standard name"
                      ELSE IF e.der # der \/ e.nder # der THEN "name does not stand for its number"
                      ELSE "ok"
       ELSE IF e.num /\ other = {"number"} THEN IF e.der # der THEN "encoding of the number" ELSE "ok"
       ELSE IF ty.k = "enum" /\ other = {"ValueError"} THEN "ok"
       ELSE IF ~e.num /\ Cardinality(other) = 1 /\ other \cap ({"ValueError"} \cup {ty.m[j][2] : j \in DOMAIN ty.m}) = {} /\ e.nder = der THEN "ok"   \* registered by the library only
       ELSE "unknown number is not itself"

(* bits: a set of positions of a named bit list; names in e.names, positions  *)
(* without one in e.nums                                                      *)
VBitset(e) ==
    LET ty == TyOf[e.t]
        on == Range(e.on)
        nm == {j \in on : NumName(ty.m, j) # ""}
        top == IF on = {} THEN -1 ELSE Max(on)
        bits == [j \in 1..(top + 1) |-> IF (j - 1) \in on THEN 1 ELSE 0]
        der == Tlv1(3, BitC(bits))
        extra == on \ nm
    IN IF e.load.k # "ok" THEN "named bits are refused"
       ELSE IF {NumName(ty.m, j) : j \in nm} \ Range(e.load.names) # {} THEN "bit does not have its standard name"
       ELSE IF Range(e.load.names) \cap {ty.m[j][2] : j \in DOMAIN ty.m} # {NumName(ty.m, j) : j \in nm} THEN "bit has the name of another"
       ELSE IF \E n \in Range(e.load.nums) : n \notin extra THEN "bit that is not there"
       ELSE IF Len(e.load.names) + Len(e.load.nums) # Cardinality(on) THEN "a bit is lost or invented"
       ELSE IF e.tup # e.load THEN "bits given as a tuple read differently"
       ELSE IF e.der # der THEN "name does not stand for its bit"
       ELSE "ok"

Verdict(e) == CASE e.op = "oid" -> VOidNum(e)
                [] e.op = "name" -> VOidName(e)
                [] e.op = "refuse" -> VRefuse(e)
                [] e.op = "num" -> VNumber(e)
                [] e.op = "bits" -> VBitset(e)
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
