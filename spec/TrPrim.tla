------------------------------- MODULE TrPrim -------------------------------
(* Histories of primitive values (PrimHist) and the helpers around them:     *)
(* number conversion, name maps, dates.                                      *)
EXTENDS PrimHist, TraceBase

(* ------------------------------------------------ helpers -------------- *)
(* int_to_bytes(n, signed, width), width -1 = none                          *)
VI2B(e) ==
    LET c == IF e.signed THEN IntC(e.n) ELSE UIntC(e.n.m)
        fits == IF e.width < 0 THEN TRUE ELSE IF e.signed THEN Len(c) <= e.width ELSE Len(e.n.m) <= e.width
        want == IF e.width < 0 THEN c
                ELSE IF e.signed THEN PadLeft(c, IF e.n.neg THEN 255 ELSE 0, e.width) ELSE PadLeft(e.n.m, 0, e.width)
    IN IF (~e.signed /\ e.n.neg) \/ (~fits /\ ~(e.width = 0 /\ e.n.m = <<>>)) THEN IF Refused(e.out.k) THEN "ok" ELSE "int_to_bytes: unrepresentable value not refused"
       ELSE IF e.out.k # "ok" THEN "int_to_bytes: refused"
       ELSE IF e.out.o # (IF e.width = 0 THEN <<>> ELSE want) THEN "int_to_bytes" ELSE "ok"
VB2I(e) ==
    LET x == IF e.signed THEN IntVal(e.b) ELSE Num(FALSE, StripZ(e.b)) IN
    IF e.neg = x.neg /\ e.m = x.m THEN "ok" ELSE "int_from_bytes"

(* map() and unmap() of type e.t: e.n name, e.d dotted text                 *)
VMap1(e) ==
    LET ty == TyOf[e.t]
        c == IF e.dir = "map" THEN OidOfText(e.a.c) ELSE IF e.a.s \in DOMAIN OidContOf[e.t] THEN Acc(OidContOf[e.t][e.a.s]) ELSE OidOfText(e.a.c)
    IN IF ~c.ok THEN IF e.out.k = "ValueError" \/ (e.out.k = "ok" /\ e.out.c = e.a.c /\ (e.dir = "map" \/ \A j \in 1..Len(e.a.c) : IsDig(e.a.c[j]) \/ e.a.c[j] = 46)) THEN "ok" ELSE "unknown name not refused by " \o e.dir
       ELSE IF e.out.k # "ok" THEN e.dir \o " refused"
       ELSE IF e.dir = "map" THEN IF e.out.s = (IF c.c \in DOMAIN OidNameOf[e.t] THEN OidNameOf[e.t][c.c] ELSE OidText(c.c)) THEN "ok" ELSE "map()"
       ELSE IF e.out.s = OidText(c.c) THEN "ok" ELSE "unmap()"

(* ------------------------------------------------ date helpers --------- *)
(* arithmetic and comparison of two times (either may be of year 0)         *)
CmpInst(a, b) == LET x == Instant(a) y == Instant(b) IN
    IF x = y THEN 0 ELSE IF x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3]))) THEN -1 ELSE 1
VCmp(e) ==
    LET c == CmpInst(e.a, e.b)
        mixed == (e.a.off = NoTz) # (e.b.off = NoTz)
        x == Instant(e.a) y == Instant(e.b)
        us == x[3] - y[3]
        s == x[2] - y[2] - (IF us < 0 THEN 1 ELSE 0)
        d == x[1] - y[1] - (IF s < 0 THEN 1 ELSE 0)
        diff == <<d, (s + 86400) % 86400, (us + 1000000) % 1000000>>
        ord == <<c < 0, c <= 0, c > 0, c >= 0>>
    IN IF mixed THEN IF e.eq = FALSE /\ e.ne = TRUE /\ e.ord.k = "TypeError" THEN "ok" ELSE "comparison of aware and naive times"
       ELSE IF e.eq # (c = 0) \/ e.ne # (c # 0) THEN "equality of times"
       ELSE IF e.ord.k # "ok" \/ e.ord.v # ord THEN "order of times"
       ELSE IF e.diff.k # "ok" \/ e.diff.v # diff THEN "difference of times"
       ELSE "ok"
(* the same for dates, which have no difference                             *)
VDCmp(e) ==
    LET c == CmpInst(e.a, e.b) IN
    IF e.eq # (c = 0) \/ e.ne # (c # 0) THEN "equality of dates"
    ELSE IF e.ord.k # "ok" \/ e.ord.v # <<c < 0, c <= 0, c > 0, c >= 0>> THEN "order of dates" ELSE "ok"
VRepl(e) == IF ~CivilOk(e.b) THEN IF e.out.k = "ValueError" THEN "ok" ELSE "impossible date not refused"
            ELSE IF e.out.k # "ok" THEN "replace refused" ELSE IF e.out.v # e.b THEN "replace" ELSE "ok"
(* a + seconds and days                                                      *)
VAdd(e) ==
    LET x == Instant([e.a EXCEPT !.off = IF @ = NoTz THEN NoTz ELSE 0])       \* civil arithmetic, zone kept
        us == x[3] + e.us
        s == x[2] + e.s + us \div 1000000
        d == x[1] + e.d + s \div 86400
        c == CivilDays(d)
        want == TimeRec(c[1], c[2], c[3], ((s % 86400) \div 3600), ((s % 86400) \div 60) % 60, (s % 86400) % 60, us % 1000000, e.a.off)
    IN IF c[1] < 0 \/ c[1] > 9999 THEN IF Refused(e.out.k) THEN "ok" ELSE "sum outside the range not refused"
       ELSE IF e.out.k # "ok" THEN "sum refused"
       ELSE IF e.out.v # want THEN "sum of time and interval" ELSE "ok"
(* the year 0 text forms: ISO 8601                                          *)
OffText(off) == IF off = NoTz THEN <<>> ELSE LET a == IF off < 0 THEN -off ELSE off IN
                <<IF off < 0 THEN 45 ELSE 43>> \o D2(a \div 60) \o <<58>> \o D2(a % 60)
DateText(t) == D4(t.y) \o <<45>> \o D2(t.mo) \o <<45>> \o D2(t.d)
IsoText(t, sep) == DateText(t) \o <<sep>> \o D2(t.h) \o <<58>> \o D2(t.mi) \o <<58>> \o D2(t.s)
                   \o (IF t.us = 0 THEN <<>> ELSE <<46>> \o D6(t.us)) \o OffText(t.off)
VText(e) ==
    IF e.iso # IsoText(e.a, 84) THEN "isoformat"
    ELSE IF e.str # IsoText(e.a, 32) THEN "text of a time"
    ELSE IF e.strf # D4(e.a.y) \o D2(e.a.mo) \o D2(e.a.d) \o D2(e.a.h) \o D2(e.a.mi) \o D2(e.a.s) \o D6(e.a.us) THEN "strftime"
    ELSE IF e.date # DateText(e.a) THEN "text of a date"
    ELSE IF ~SameTime(e.a, e.utc) \/ (e.utc.off \notin {0, NoTz}) THEN "astimezone"
    ELSE "ok"

Verdict(e) == CASE e.op = "hist" -> VHist(e)
                [] e.op = "i2b" -> VI2B(e)
                [] e.op = "b2i" -> VB2I(e)
                [] e.op = "map" -> VMap1(e)
                [] e.op = "cmp" -> VCmp(e)
                [] e.op = "dcmp" -> VDCmp(e)
                [] e.op = "repl" -> VRepl(e)
                [] e.op = "add" -> VAdd(e)
                [] e.op = "text" -> VText(e)
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
