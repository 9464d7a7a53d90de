------------------------------- MODULE Setup -------------------------------
(* Types related by inheritance.  A class either has a definition of its own *)
(* (names and numbers) or takes that of its parent; what it does is given by *)
(* that definition alone.                                                    *)
(* family: [parent: class -> class or 0, own: class -> definition or <<>>]   *)
(* definition: sequence of [n: number, s: name]                              *)
(* question: [c: class, u: "num" | "name", s: name, n: number]               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
RECURSIVE Def(_, _)
Def(f, c) == IF f.own[c] # <<>> THEN f.own[c] ELSE Def(f, f.parent[c])
RECURSIVE Line(_, _)
Line(f, c) == IF c = 0 THEN <<>> ELSE <<c>> \o Line(f, f.parent[c])
NumIn(d, s) == LET m == {i \in DOMAIN d : d[i].s = s} IN IF m = {} THEN "none" ELSE d[CHOOSE i \in m : TRUE].n
NameIn(d, n) == LET m == {i \in DOMAIN d : d[i].n = n} IN IF m = {} THEN "none" ELSE d[CHOOSE i \in m : TRUE].s
In(d, q) == IF q.u = "num" THEN <<NumIn(d, q.s)>> ELSE <<NameIn(d, q.n)>>
Answer(f, q) == In(Def(f, q.c), q)

(* the families used: class 2 below 1, class 3 below 2, class 4 below 1.     *)
(* "a" is a different number in each definition, 10 a different name         *)
Parent == <<0, 1, 2, 1>>
NameOf == <<"w", "x", "y", "z">>
D(c) == <<[n |-> c, s |-> "a"], [n |-> 10, s |-> NameOf[c]]>>
Families == {[parent |-> Parent, own |-> [c \in 1..4 |-> IF c = 1 \/ c \in own THEN D(c) ELSE <<>>]] : own \in SUBSET (2..4)}
Questions == {[c |-> c, u |-> "num", s |-> s, n |-> 0] : c \in 1..4, s \in {"a", "w"}} \cup {[c |-> c, u |-> "name", s |-> "", n |-> 10] : c \in 1..4}
=============================================================================
