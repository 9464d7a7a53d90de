------------------------------ MODULE MCSetup ------------------------------
(* Lazily built class tables under threads: how the library arranges that    *)
(* Setup!Answer holds.  The first use of a class builds its table while a    *)
(* lock is held; "map" tables are published complete and shared by classes   *)
(* with the same definition, "fields" tables are filled in place.  A class   *)
(* counts as set up only after its table is complete.  Each thread asks a    *)
(* sequence of questions; one thread gives all sequential histories.         *)
EXTENDS Setup, Json, IOUtils, TLC
CONSTANTS Threads, Len1, Len2, Kinds, ExportLen
VARIABLES fam, kind, todo, pc, i, tab, up, lock, wrong
vars == <<fam, kind, todo, pc, i, tab, up, lock, wrong>>
None == <<[n |-> -1, s |-> "no table"]>>
Seqs(n) == UNION {[1..k -> Questions] : k \in 1..n}
Init == /\ fam \in Families /\ kind \in Kinds
        /\ todo \in {[t \in 1..Threads |-> IF t = 1 THEN a ELSE b] : a \in Seqs(Len1), b \in Seqs(Len2)}
        /\ pc = [t \in 1..Threads |-> "check"] /\ i = [t \in 1..Threads |-> 0]
        /\ tab = [c \in 1..4 |-> None] /\ up = {} /\ lock = 0 /\ wrong = FALSE
Q(t) == Head(todo[t])
C(t) == Q(t).c
Go(t, where) == pc' = [pc EXCEPT ![t] = where]
Check(t) == /\ pc[t] = "check" /\ todo[t] # <<>>
            /\ Go(t, IF C(t) \in up THEN "use" ELSE "lock")
            /\ UNCHANGED <<fam, kind, todo, i, tab, up, lock, wrong>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t
           /\ Go(t, IF C(t) \in up THEN "unlock" ELSE "build")
           /\ UNCHANGED <<fam, kind, todo, i, tab, up, wrong>>
(* nearest table in line; nearest definition in line                         *)
With(c) == LET l == Line(fam, c) s == {k \in DOMAIN l : tab[l[k]] # None} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : \A x \in s : k <= x
OwnAt(c) == LET l == Line(fam, c) s == {k \in DOMAIN l : fam.own[l[k]] # <<>>} IN CHOOSE k \in s : \A x \in s : k <= x
Build(t) == /\ pc[t] = "build"
            /\ IF kind = "map"
               THEN /\ tab' = IF With(C(t)) # 0 /\ With(C(t)) <= OwnAt(C(t)) THEN tab ELSE [tab EXCEPT ![C(t)] = Def(fam, C(t))]
                    /\ Go(t, "flag") /\ i' = i
               ELSE /\ tab' = [tab EXCEPT ![C(t)] = IF i[t] = 0 THEN <<>> ELSE Append(@, Def(fam, C(t))[i[t]])]
                    /\ IF i[t] = Len(Def(fam, C(t))) THEN Go(t, "flag") /\ i' = [i EXCEPT ![t] = 0] ELSE pc' = pc /\ i' = [i EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<fam, kind, todo, up, lock, wrong>>
Flag(t) == /\ pc[t] = "flag" /\ up' = up \cup {C(t)} /\ Go(t, "unlock")
           /\ UNCHANGED <<fam, kind, todo, i, tab, lock, wrong>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock = t /\ lock' = 0 /\ Go(t, "use")
             /\ UNCHANGED <<fam, kind, todo, i, tab, up, wrong>>
Use(t) == /\ pc[t] = "use"
          /\ wrong' = (wrong \/ With(C(t)) = 0 \/ In(tab[Line(fam, C(t))[With(C(t))]], Q(t)) # Answer(fam, Q(t)))
          /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ Go(t, "check")
          /\ UNCHANGED <<fam, kind, i, tab, up, lock>>
Over == /\ \A t \in 1..Threads : todo[t] = <<>>
        /\ UNCHANGED vars
Next == (\E t \in 1..Threads : Check(t) \/ Lock(t) \/ Build(t) \/ Flag(t) \/ Unlock(t) \/ Use(t)) \/ Over
Spec == Init /\ [][Next]_vars
Right == ~wrong
(* a class that counts as set up has its whole table                         *)
Whole == \A c \in up : With(c) # 0 /\ tab[Line(fam, c)[With(c)]] = Def(fam, c)
Alone == \A t, u \in 1..Threads : t # u => ~(pc[t] \in {"build", "flag", "unlock"} /\ pc[u] \in {"build", "flag", "unlock"})
ASSUME JsonSerialize(IOEnv.OUT, [families |-> SetToSeq(Families), questions |-> SetToSeq(Questions),
                                 histories |-> SetToSeq([1..ExportLen -> Questions]), pairs |-> SetToSeq(Questions \X Questions)])
=============================================================================
