------------------------------- MODULE MCWords -------------------------------
(* Every name of up to Most attributes over a few types and texts, in one      *)
(* relative name each: what the words of a name keep of it, that a name built  *)
(* from attributes has just these, whatever their order.                      *)
EXTENDS Words, Json, IOUtils
CONSTANTS Most
VARIABLES name, attrs
Types_ == {"country_name", "common_name", "organizational_unit_name", "email_address", ""}
Texts_ == {<<97>>, <<98, 44, 32, 99>>, <<>>}
Free == [k |-> "oid", a |-> <<<<1>>, <<2>>, <<3>>>>]
TypeV(t) == IF t = "" THEN Free ELSE VName(t)
ValV(t, c) == IF t = "" THEN [k |-> "typed", n |-> "core_UTF8String", v |-> VStr(c)]
              ELSE IF t = "email_address" THEN VStr(c) ELSE [k |-> "ch", n |-> "utf8_string", v |-> VStr(c)]
One(t, c) == VMap(<<P("type", TypeV(t)), P("value", ValV(t, c))>>)
Of(s) == [k |-> "ch", n |-> "", v |-> VList([j \in DOMAIN s |-> VList(<<One(s[j][1], s[j][2])>>)])]
Pairs == Types_ \X Texts_
Init == name = <<>> /\ attrs = {}
Next == \/ /\ Len(name) < Most /\ attrs = {}
           /\ \E p \in Pairs : name' = Append(name, p) /\ UNCHANGED attrs
        \/ /\ name = <<>> /\ Cardinality(attrs) < Most
           /\ \E t \in Types_ \ {""} : (\A x \in attrs : x.ty # t) /\ \E c \in {<<97>>, <<98, 44, 32, 99>>} : attrs' = attrs \cup {[ty |-> t, k |-> "text", t |-> c]}
           /\ UNCHANGED name
Spec == Init /\ [][Next]_<<name, attrs>>
N_ == Of(name)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
(* all of every value and every type once, and nothing else                    *)
Whole == LET as == Attrs(N_)
             gs == ByType(N_)
             seps == Len(gs) - (IF gs = <<>> THEN 0 ELSE 1) + Len(as) - Len(gs)
         IN Len(InWords(N_)) = Sum([j \in DOMAIN as |-> Len(ValueT(as[j]))]) + Sum([j \in DOMAIN gs |-> Len(gs[j].n) + 2]) + 2 * seps
(* a name read from octets says the same                                       *)
Same == (\A j \in DOMAIN name : name[j][1] # "") => LET d == Dec("x509_Name", Enc("x509_Name", N_)) IN d.ok /\ InWords(d.v) = InWords(N_)
Seqs(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Made == \A s, q \in Seqs(attrs) : Built(s, FALSE) = Built(q, FALSE)
Exact == \A s \in Seqs(attrs) : LET as == Attrs(Built(s, FALSE)) IN
             Len(as) = Len(s) /\ \A x \in attrs : \E j \in DOMAIN as : Get(as[j], "type") = VName(x.ty) /\ ValueT(as[j]) = x.t
(* the words of a built name end where they begin the other way round          *)
Names_ == UNION {[1..n -> Pairs] : n \in 0..2}
ASSUME JsonSerialize(IOEnv.OUT, [names |-> SetToSeq({Of(s) : s \in Names_})])
ASSUME Len(Order) = Cardinality(DOMAIN LabelOf) /\ \A a, b \in DOMAIN LabelOf : a # b => LabelOf[a] # LabelOf[b]
=============================================================================
