------------------------------- MODULE TrName -------------------------------
(* Verdicts for recorded comparisons of names (P20).                          *)
(* compare: [names, eq, ne, h]: eq[i][j] and ne[i][j] are "T", "F" or the     *)
(* exception's name; h[i] is the class of the hashable form (its number), or  *)
(* 0 with he[i] the exception's name                                          *)
EXTENDS NameCmp, TraceBase
Bool(b) == IF b THEN "T" ELSE "F"
VPair(e, i, j) ==
    LET a == e.names[i] b == e.names[j]
        ka == NameKind(a) kb == NameKind(b)
        got == e.eq[i][j] gotn == e.ne[i][j]
        same == Same(a, b)
    IN  IF ka = "ok" /\ kb = "ok"
        THEN IF got \notin {"T", "F"} THEN "comparison raises"
             ELSE IF got # Bool(same) THEN IF same THEN "equal names compare unequal" ELSE "unequal names compare equal"
             ELSE IF gotn # Bool(~same) THEN "!= is not the opposite of =="
             ELSE IF e.h[i] = 0 \/ e.h[j] = 0 THEN "hashable raises"
             ELSE IF (e.h[i] = e.h[j]) # same THEN IF same THEN "equal names have different hashable forms" ELSE "unequal names share a hashable form"
             ELSE "ok"
        ELSE IF "refused" \in {ka, kb}
        THEN IF got = "T" THEN "names with prohibited characters compare equal"
             ELSE IF got \notin {"F", "ValueError"} THEN "comparison raises something else"
             ELSE IF i # j /\ got # e.eq[j][i] THEN "comparison is not symmetric"
             ELSE IF ka = "refused" /\ (e.h[i] # 0 \/ e.he[i] # "ValueError") THEN "prohibited characters are not refused"
             ELSE "ok"
        ELSE IF got \notin {"T", "F", "ValueError"} THEN "comparison raises something else"
             ELSE IF got \in {"T", "F"} /\ got # Bool(same) THEN "names compare wrongly"
             ELSE IF e.h[i] # 0 /\ e.h[j] # 0 /\ (e.h[i] = e.h[j]) # same THEN "hashable forms disagree"
             ELSE "ok"
Firsts(s, d) == IF s = {} THEN d ELSE CHOOSE v \in s : TRUE
VCompare(e) ==
    IF ~(\A n \in Range(e.names) : Sane(n) /\ \A a \in Attrs(n) : a.k = "text" => Known(a.t)) THEN "generated name outside the model"
    ELSE Firsts({VPair(e, i, j) : i, j \in DOMAIN e.names} \ {"ok"}, "ok")
(* against something that is not a name of that kind                          *)
VForeign(e) == IF e.out = <<"F", "T">> THEN "ok" ELSE "equal to something that is not a name"
Verdict(e) == CASE e.op = "compare" -> VCompare(e)
                [] e.op = "foreign" -> VForeign(e)
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
