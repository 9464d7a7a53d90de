----------------------------- MODULE TraceBase -----------------------------
(* Common part of the conformance state machines Tr*.tla: one step per      *)
(* recorded event.  Each Tr module defines a total operator Verdict(e) that *)
(* is "ok" or the name of the clause the event violates; every event is     *)
(* judged (a bad one does not hide the rest) and the number of events       *)
(* judged is reported at the end.                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE at     \* not a name bound anywhere below: TLC would take that for the variable
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Start == atoi(IOEnv.TRACE_START)
N == Len(Trace)
Init == at = Start
Report(k, v) == IF v = "ok" THEN TRUE ELSE PrintT(<<"@BAD", k, v>>)
Done(k) == IF k = N THEN PrintT(<<"@DONE", N>>) ELSE TRUE
=============================================================================
