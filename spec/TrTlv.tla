------------------------------- MODULE TrTlv -------------------------------
(* Verdicts for recorded parser.parse / peek / emit calls (P02).            *)
EXTENDS Tlv, TraceBase

VParse(e) ==
    LET r == Parse(e.b)
        n == Len(e.b)
        accept == r.ok /\ (e.strict => r.end = n + 1)
        o == e.out
    IN IF ~accept THEN
           IF o.k = "ok" THEN "malformed or truncated input accepted"
           ELSE IF o.e = "ValueError" THEN "ok" ELSE "wrong exception for malformed input"
       ELSE IF o.k # "ok" THEN "well-formed element refused"
       ELSE IF o.cls # r.cls THEN "class"
       ELSE IF o.con # r.con THEN "method"
       ELSE IF o.tag # r.tag THEN "tag number"
       ELSE IF o.h # HeaderOf(e.b, 1, r) THEN "header octets"
       ELSE IF o.c # ContentOf(e.b, r) THEN "content octets"
       ELSE IF o.t # TrailerOf(e.b, r) THEN "trailer octets"
       ELSE IF o.h \o o.c \o o.t # Take(e.b, r.end - 1) THEN "pieces do not reassemble"
       ELSE "ok"

VPeek(e) ==
    LET r == Parse(e.b) o == e.out IN
    IF ~r.ok THEN IF o.k = "ok" THEN "malformed or truncated input accepted"
                  ELSE IF o.e = "ValueError" THEN "ok" ELSE "wrong exception for malformed input"
    ELSE IF o.k # "ok" THEN "well-formed element refused"
    ELSE IF o.n # r.end - 1 THEN "length consumed" ELSE "ok"

(* emit: e.clen contents octets, o.h everything before them, o.same whether *)
(* the contents follow unchanged, o.back what parse() makes of the result   *)
VEmit(e) ==
    LET o == e.out IN
    IF ~e.valid THEN IF o.k = "err" /\ o.e = e.want THEN "ok" ELSE "invalid argument not refused"
    ELSE IF o.k # "ok" THEN "valid element refused"
    ELSE IF o.h # DerHeader(e.cls, e.con, e.tag, e.clen) THEN "header is not the DER header"
    ELSE IF ~o.same THEN "contents altered"
    ELSE IF ~o.back THEN "parse(emit(x)) is not x"
    ELSE "ok"

Verdict(e) == CASE e.op = "parse" -> VParse(e)
                [] e.op = "peek"  -> VPeek(e)
                [] e.op = "emit"  -> VEmit(e)
                [] e.op = "badarg" -> IF e.out.k = "err" /\ e.out.e = "TypeError" THEN "ok" ELSE "non-bytes argument not refused with TypeError"
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
