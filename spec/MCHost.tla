------------------------------- MODULE MCHost -------------------------------
(* Certificates that list up to MaxNames names, asked about one host: every   *)
(* pattern over a small set of labels against every host over another.  The   *)
(* patterns and hosts are written out and replayed.                           *)
EXTENDS Hosts, Json, IOUtils, TLC
CONSTANTS MaxNames, Wide
Firsts == {<<97>>, <<97, 98>>, <<98>>, <<42>>, <<97, 42>>, <<42, 98>>, <<97, 42, 98>>, <<42, 42>>, <<65>>} \cup
          (IF Wide THEN {<<120, 110, 45, 45, 52, 99, 97>>, <<97, 43>>, <<46>>} ELSE {})
Rest == {<<97>>, <<42>>}
HFirst == {<<97>>, <<97, 98>>, <<98>>, <<97, 97, 98>>, <<66>>, <<42>>, <<233>>, <<98, 97>>}
HRest == {<<97>>, <<98>>}
Build(F, R) == {<<f>> : f \in F} \cup {<<f, r>> : f \in F, r \in R} \cup {<<f, r, s>> : f \in F, r, s \in R}
Patterns == {JoinWith(ls, <<46>>) : ls \in Build(Firsts, Rest)}
HostSet == {JoinWith(ls, <<46>>) : ls \in Build(HFirst, HRest)}
VARIABLES names, host
vars == <<names, host>>
C(ns) == [san |-> [i \in DOMAIN ns |-> [k |-> "dns", o |-> ns[i]]], cns |-> <<>>]
Init == names = <<>> /\ host \in HostSet
Next == Len(names) < MaxNames /\ (\E p \in Patterns : names' = Append(names, p)) /\ UNCHANGED host
Spec == Init /\ [][Next]_vars
V(ns) == IsValid(C(ns), host)
(* each name counts for itself: more names never take a host away             *)
EachAlone == (V(names) = "yes") <=> \E i \in DOMAIN names : V(<<names[i]>>) = "yes"
(* a host without wildcards that is listed is valid, in any case of letters   *)
Listed == host \in Range(names) \/ LowerT(host) \in Range(names) => V(names) = "yes"
CaseBlind == IsAscii(host) => IsValid(C(names), LowerT(host)) = V(names)
(* a host is covered by names with as many labels only, the same but for the  *)
(* first, and without wildcards by itself alone                               *)
Structure == \A i \in DOMAIN names :
    LET l == SplitAt(names[i], {46}) h == SplitAt(HostAscii(host).t, {46}) IN
    V(<<names[i]>>) = "yes" => /\ Len(l) = Len(h)
                               /\ \A j \in 2..Len(l) : LowerT(l[j]) = LowerT(h[j])
                               /\ (42 \notin Range(l[1]) => LowerT(l[1]) = LowerT(h[1]))
ASSUME JsonSerialize(IOEnv.OUT, [patterns |-> SetToSeq(Patterns), hosts |-> SetToSeq(HostSet)])
=============================================================================
