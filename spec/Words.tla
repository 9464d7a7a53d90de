-------------------------------- MODULE Words --------------------------------
(* A distinguished name in words, and a name built from attributes (P28).     *)
(* A name is a value of x509_Name; texts are sequences of characters.         *)
EXTENDS Asn1, NameLabels
Char(n) == 48 + n
RECURSIVE JoinT(_, _)
JoinT(ts, sep) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o JoinT(Tail(ts), sep)
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
DigitsOf(d) == IF d = <<>> THEN <<48>> ELSE [j \in DOMAIN d |-> Char(d[j])]
DottedT(arcs) == JoinT([j \in DOMAIN arcs |-> DigitsOf(arcs[j])], <<46>>)
Attrs(n) == Concat([j \in 1..Len(n.v.l) |-> n.v.l[j].l])
NameOfType(t) == NatOf("x509_NameType", t).s
(* the type of an attribute in words; a type without a name is its number      *)
LabelT(a) == LET t == Get(a, "type") IN IF NameOfType(t) \in DOMAIN LabelOf THEN LabelOf[NameOfType(t)] ELSE DottedT(t.a)
TypeFor(ty) == Tab(TyOf["x509_NameTypeAndValue"].g.tab, ty)
ValueT(a) == LET x == Get(a, "value") IN CASE x.k = "typed" -> x.v.c [] x.k = "raw" -> NatAny(x.o).c [] OTHER -> NatOf(TypeFor(NameOfType(Get(a, "type"))), x).c
(* values by type, types by first appearance                                   *)
ByType(n) ==
    LET add(acc, a) == LET js == {j \in DOMAIN acc : acc[j].n = LabelT(a)} IN
            IF js = {} THEN Append(acc, [n |-> LabelT(a), l |-> <<ValueT(a)>>]) ELSE [acc EXCEPT ![CHOOSE j \in js : TRUE].l = Append(@, ValueT(a))]
    IN FoldLeft(add, <<>>, Attrs(n))
Comma == <<44, 32>>
Part(g) == g.n \o <<58, 32>> \o JoinT(Rev(g.l), Comma)
(* most specific first: a name that ends with the country is written that way  *)
InWords(n) ==
    LET as == Attrs(n)
        gs == ByType(n)
        ps == [j \in DOMAIN gs |-> Part(gs[j])]
        split == \E j \in DOMAIN ps : 44 \in {ps[j][i] : i \in DOMAIN ps[j]}
        up == as # <<>> /\ LabelT(as[Len(as)]) = LabelOf["country_name"]
    IN JoinT(IF up THEN ps ELSE Rev(ps), IF split THEN <<59, 32>> ELSE Comma)

(* ------------------------------------------- names from attributes ---- *)
(* d: [ty, k: text | value, t | v], no type twice; printable: wish for        *)
(* PrintableString.  Country, serial number and qualifier are always that.    *)
Printed == {"dn_qualifier", "country_name", "serial_number"}
Place(ty) == CHOOSE j \in DOMAIN Order : Order[j] = ty
ValueFor(x, printable) ==
    IF x.k = "value" THEN x.v
    ELSE IF TypeFor(x.ty) # "x509_DirectoryString" THEN VStr(x.t)
    ELSE [k |-> "ch", n |-> IF printable \/ x.ty \in Printed THEN "printable_string" ELSE "utf8_string", v |-> VStr(x.t)]
Sorted(d) == LET ps == SortSeq([j \in DOMAIN d |-> d[j]], LAMBDA x, y : Place(x.ty) < Place(y.ty)) IN ps
Built(d, printable) == LET s == Sorted(d) IN
    [k |-> "ch", n |-> "", v |-> VList([j \in DOMAIN s |-> VList(<<VMap(<<P("type", VName(s[j].ty)), P("value", ValueFor(s[j], printable))>>)>>)])]
=============================================================================
