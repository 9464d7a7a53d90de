------------------------------ MODULE TrSetup ------------------------------
(* Verdicts for recorded uses of related types: one after another (P17) or   *)
(* by threads (P18).                                                         *)
(* family: [kind, own, runs]: runs of questions [c, u, s, n] with the answer *)
(* base: [ans]: what each question about a library type gives when nothing   *)
(* was used before; history: [b: number of the base event, q: questions,     *)
(* got: answers]                                                             *)
EXTENDS Setup, TraceBase
(* what a type says about a number or name outside its definition            *)
Unknown(kind, u) == IF u = "num" \/ kind \notin {"int", "oid", "bits", "governed", "list"} THEN "ValueError" ELSE "none"
Expect(e, q) == LET d == Def([parent |-> Parent, own |-> e.own], q.c)
                    hits == {i \in DOMAIN d : IF q.u = "num" THEN d[i].s = q.s ELSE d[i].n = q.n}
                IN IF hits = {} THEN Unknown(e.kind, q.u)
                   ELSE LET x == d[CHOOSE i \in hits : TRUE] IN IF q.u = "num" THEN ToString(x.n) ELSE x.s
VFamily(e) == IF ~([parent |-> Parent, own |-> e.own] \in Families) THEN "family outside the model"
              ELSE IF \E i \in DOMAIN e.runs : \E j \in DOMAIN e.runs[i] : e.runs[i][j].got # Expect(e, e.runs[i][j])
              THEN IF e.threads THEN "a thread sees a type that is not ready" ELSE "what a type does depends on the types used before" ELSE "ok"
VHistory(e) == LET base == Trace[e.b] IN
               IF base.op # "base" THEN "no base"
               ELSE IF \E i \in DOMAIN e.q : e.got[i] # base.ans[e.q[i]]
               THEN IF e.threads THEN "a thread gets another result than alone" ELSE "the result depends on what was used before" ELSE "ok"
VOrder(e) == IF e.got = Trace[e.b].ans THEN "ok" ELSE "the result depends on the order of imports"
VBase(e) == IF \E i \in DOMAIN e.ans : e.ans[i] \in {"Hang", "died"} THEN "question that never ends" ELSE "ok"
Verdict(e) == CASE e.op = "family" -> VFamily(e)
                [] e.op = "base" -> VBase(e)
                [] e.op = "history" -> VHistory(e)
                [] e.op = "order" -> VOrder(e)
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
