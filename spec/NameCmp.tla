------------------------------ MODULE NameCmp ------------------------------
(* Comparison of distinguished names: RFC 5280 section 7.1 with the string    *)
(* preparation of RFC 4518 (map, normalize to NFKC, prohibit, insignificant   *)
(* spaces).  Text is a sequence of code points.                               *)
(*   Name  == <<RDN, ...>>    RDN == <<attribute, ...>> (no type twice)       *)
(*   attribute == [ty: object identifier, k: "text" | "octets", t: <<...>>]   *)
EXTENDS NameTables, SequencesExt, FiniteSetsExt
Fold_ == ToFun(FoldTable)
Decomp_ == ToFun(DecompTable)
Comp_ == ToFun(CompTable)
Class_ == ToFun(ClassTable)
Known(t) == \A i \in DOMAIN t : t[i] \in Dropped \cup Spaces \cup DOMAIN Fold_ \cup Closure

(* 2.2 Map *)
MapChar(c) == IF c \in Dropped THEN <<>> ELSE IF c \in Spaces THEN <<32>> ELSE IF c \in DOMAIN Fold_ THEN Fold_[c] ELSE <<c>>
Map(t) == FlattenSeq([i \in DOMAIN t |-> MapChar(t[i])])

(* 2.3 Normalize: NFKC *)
Class(c) == IF c \in DOMAIN Class_ THEN Class_[c][1] ELSE 0
Decompose(t) == FlattenSeq([i \in DOMAIN t |-> IF t[i] \in DOMAIN Decomp_ THEN Decomp_[t[i]] ELSE <<t[i]>>])
(* insertion of c in the run of marks at the end of s, by combining class     *)
RECURSIVE Insert(_, _)
Insert(s, c) == IF s = <<>> \/ Class(c) = 0 \/ Class(Last(s)) <= Class(c) THEN Append(s, c)
                ELSE Append(Insert(Front(s), c), Last(s))
Ordered(t) == FoldLeft(LAMBDA s, c : Insert(s, c), <<>>, t)
(* a: [o: output, st: index of the last starter in o, last: class of the      *)
(* last character kept after it]                                              *)
Compose(t) == FoldLeft(LAMBDA a, c :
    LET blocked == Len(a.o) > a.st /\ a.last >= Class(c) IN
    IF a.st > 0 /\ ~blocked /\ <<a.o[a.st], c>> \in DOMAIN Comp_
    THEN [a EXCEPT !.o[a.st] = Comp_[<<a.o[a.st], c>>]]
    ELSE [o |-> Append(a.o, c), st |-> IF Class(c) = 0 THEN Len(a.o) + 1 ELSE a.st, last |-> Class(c)],
    [o |-> <<>>, st |-> 0, last |-> 0], t).o
Normalize(t) == Compose(Ordered(Decompose(t)))

(* 2.4 Prohibit *)
Forbidden(t) == \E i \in DOMAIN t : t[i] \in Prohibited
(* 2.5 Bidirectional characters are ignored; RFC 3454 section 6 would refuse  *)
(* these (the library does), so texts like them are left open                 *)
Mixed(t) == /\ \E i \in DOMAIN t : t[i] \in RandAL
            /\ \/ \E i \in DOMAIN t : t[i] \in LCat
               \/ Head(t) \notin RandAL \/ Last(t) \notin RandAL
(* 2.6.1 Insignificant spaces: a space followed by a combining mark is none   *)
Gap(t, i) == t[i] = 32 /\ ~(i < Len(t) /\ t[i + 1] \in Marks)
Squeeze(t) ==
    LET keep == FoldLeft(LAMBDA s, i : IF ~Gap(t, i) THEN Append(s, <<t[i]>>)
                                       ELSE IF s = <<>> \/ Last(s) = <<32, 32>> THEN s ELSE Append(s, <<32, 32>>), <<>>, [i \in 1..Len(t) |-> i])
        core == IF keep # <<>> /\ Last(keep) = <<32, 32>> THEN Front(keep) ELSE keep
    IN <<32>> \o FlattenSeq(core) \o <<32>>

Prepare(t) == LET n == Normalize(Map(t)) IN
              [k |-> IF Forbidden(n) THEN "refused" ELSE IF Mixed(n) THEN "open" ELSE "ok", v |-> Squeeze(n)]

(* Comparison *)
Value(a) == IF a.k = "octets" THEN <<"octets", a.t>> ELSE <<"text", Prepare(a.t).v>>
Kind(a) == IF a.k = "octets" THEN "ok" ELSE Prepare(a.t).k
RdnKey(r) == {<<r[i].ty, Value(r[i])>> : i \in DOMAIN r}
Key(n) == [i \in DOMAIN n |-> RdnKey(n[i])]
Attrs(n) == UNION {{n[i][j] : j \in DOMAIN n[i]} : i \in DOMAIN n}
Sane(n) == \A i \in DOMAIN n : Cardinality({n[i][j].ty : j \in DOMAIN n[i]}) = Len(n[i])
NameKind(n) == LET ks == {Kind(a) : a \in Attrs(n)} IN IF "refused" \in ks THEN "refused" ELSE IF "open" \in ks THEN "open" ELSE "ok"
Same(a, b) == Key(a) = Key(b)
=============================================================================
