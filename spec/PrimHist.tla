------------------------------- MODULE PrimHist -------------------------------
(* Primitive values as state machines.  The state of a value is its DER     *)
(* contents octets c (for bit strings: count of unused bits, then octets),  *)
(* the unused bits it was read with, and the encoding it was read from (if  *)
(* it has not been set since).  An event is a history of calls on one       *)
(* object: every step is checked against the state the specification is in. *)
EXTENDS Asn1

Unset == [set |-> FALSE, c |-> <<>>, ub |-> <<>>, b |-> <<>>, loose |-> FALSE, w |-> 0]
Tlv1(tn, c) == WrapEx(TyOf[tn].ex, Wrap(BaseTag(TyOf[tn], <<>>)[1], 0, T(BaseTag(TyOf[tn], <<>>)[2]), c))
(* the value contents octets stand for                                      *)
ValOf(tn, c) == Dec(tn, Tlv1(tn, c))
ClearUnused(c) == IF c[1] = 0 \/ Len(c) = 1 THEN c ELSE [c EXCEPT ![Len(c)] = (@ \div Pow2[c[1]]) * Pow2[c[1]]]
LowBits(x, n) == [j \in 1..n |-> (x \div Pow2[n - j]) % 2]

(* reading an encoding: [ok, c, ub]                                         *)
InnerEl(tn, b) == FoldLeft(LAMBDA e, x : ParseAt(b, e.hend, e.cend - 1, 0), Parse(b), TyOf[tn].ex)
InnerC(tn, b) == LET e == InnerEl(tn, b) IN SubSeq(b, e.hend, e.cend - 1)
ReadEl(tn, b) ==
    LET e == InnerEl(tn, b)
        ty == TyOf[tn]
        cs == IF e.con = 0 THEN <<SubSeq(b, e.hend, e.cend - 1)>>
              ELSE Chunks(b, e.hend, e.cend - 1, {<<0, UnivTag[ty.k]>>, <<0, IF ty.k \in BitLike THEN 3 ELSE 4>>}, <<>>).cs
    IN IF ty.k \in BitLike THEN
          IF cs = <<>> THEN [c |-> <<0>>, ub |-> <<>>]
          ELSE LET l == cs[Len(cs)]
                   c == <<l[1]>> \o Concat([j \in 1..Len(cs) |-> Tail(cs[j])])
               IN [c |-> ClearUnused(c), ub |-> IF l[1] = 0 THEN <<>> ELSE LowBits(l[Len(l)], l[1])]
       ELSE [c |-> Concat(cs), ub |-> <<>>]

(* ------------------------------------------------ set() ---------------- *)
Ref == [ok |-> FALSE, c |-> <<>>]
Acc(c) == [ok |-> TRUE, c |-> c]
InMap(ty, s) == \E j \in 1..Len(ty.m) : ty.m[j][2] = s
(* dotted text: non-empty runs of digits between dots                       *)
RECURSIVE DotSplit(_, _, _)
DotSplit(s, cur, acc) == IF s = <<>> THEN Append(acc, cur)
                         ELSE IF s[1] = 46 THEN DotSplit(Tail(s), <<>>, Append(acc, cur)) ELSE DotSplit(Tail(s), Append(cur, s[1]), acc)
OidOfText(c) ==
    LET parts == DotSplit(c, <<>>, <<>>) IN
    IF \E j \in 1..Len(parts) : parts[j] = <<>> \/ \E q \in 1..Len(parts[j]) : ~IsDig(parts[j][q]) THEN Ref
    ELSE LET a == [j \in 1..Len(parts) |-> StripZ([q \in 1..Len(parts[j]) |-> parts[j][q] - 48])] IN
         IF OidValid(a) THEN Acc(OidC(a)) ELSE Ref
BitSize(ty) == 1 + (CHOOSE x \in {ty.m[j][1] : j \in 1..Len(ty.m)} : \A j \in 1..Len(ty.m) : ty.m[j][1] <= x)
SetOf1(tn, a, w) ==
    LET ty == TyOf[tn] IN
    CASE a.k = "odd" -> Ref
      [] ty.k = "bool" -> IF a.k = "bool" THEN Acc(IF a.b THEN <<255>> ELSE <<0>>) ELSE Ref
      [] ty.k = "int" -> IF a.k = "int" THEN Acc(IntC(a)) ELSE IF a.k = "str" /\ InMap(ty, a.s) THEN Acc(NumContents(ty, VName(a.s))) ELSE Ref
      [] ty.k = "enum" -> IF a.k = "int" THEN IF ty.m = <<>> THEN Acc(IntC(a)) ELSE IF Len(a.m) <= 3 /\ NumName(ty.m, SmallInt(a)) # "" THEN Acc(IntC(a)) ELSE Ref
                          ELSE IF a.k = "str" /\ InMap(ty, a.s) THEN Acc(NumContents(ty, VName(a.s))) ELSE Ref
      [] ty.k = "oid" -> IF a.k # "str" THEN Ref
                         ELSE IF a.s # "" /\ a.s \in DOMAIN OidContOf[tn] THEN Acc(OidContOf[tn][a.s]) ELSE OidOfText(a.c)
      [] ty.k = "bits" ->
            IF a.k = "bits" THEN
                IF \E j \in 1..Len(a.bits) : a.bits[j] \notin {0, 1} THEN Ref
                ELSE IF ty.m = <<>> THEN Acc(BitC(a.bits))
                ELSE IF Len(a.bits) > BitSize(ty) THEN Ref ELSE Acc(BitC(StripTrailZ(a.bits)))
            ELSE IF a.k = "bset" THEN
                IF ty.m = <<>> \/ (\E j \in 1..Len(a.ns) : ~InMap(ty, a.ns[j])) \/ (\E j \in 1..Len(a.ix) : a.ix[j] < 0) THEN Ref
                ELSE Acc(BitC(NamedBits(ty, a)))
            ELSE Ref
      [] ty.k \in {"obits", "pbits"} -> IF a.k = "oct" THEN Acc(<<0>> \o a.o) ELSE Ref
      [] ty.k \in {"octets", "pocts", "videotex"} -> IF a.k = "oct" THEN Acc(a.o) ELSE Ref
      [] ty.k = "ibits" -> IF a.k = "int" /\ ~a.neg THEN Acc(<<0>> \o IntC(a)) ELSE Ref
      [] ty.k = "iocts" -> IF a.k = "int" /\ ~a.neg THEN
                                LET c == UIntC(a.m) IN IF w = 0 THEN Acc(c) ELSE IF Len(StripZ(c)) > w THEN Ref ELSE Acc(PadLeft(StripZ(c), 0, w))
                           ELSE Ref
      [] ty.k = "utc" -> IF a.k = "time" THEN (IF a.t.off = NoTz \/ ~UtcInRange(a.t) THEN Ref ELSE Acc(UtcC(a.t)))
                         ELSE IF a.k = "str" THEN Acc(a.c) ELSE Ref
      [] ty.k = "gen" -> IF a.k = "time" THEN (IF a.t.off = NoTz \/ ~GenInRange(a.t) THEN Ref ELSE Acc(GenC(a.t)))
                         ELSE IF a.k = "str" THEN Acc(a.c) ELSE Ref
      [] ty.k \in StrKinds -> IF a.k = "str" THEN LET x == StrEnc(ty.k, a.c) IN IF x.ok THEN Acc(x.c) ELSE Ref ELSE Ref
      [] OTHER -> Ref

(* ------------------------------------------------ views ---------------- *)
(* o.nat, o.der and, where the type has them, o.by (bytes()), o.i (int()),  *)
(* o.ub (unused_bits), o.dot (dotted), o.txt (str())                        *)
SeeBad(tn, st, o) ==
    LET ty == TyOf[tn]
        d == ValOf(tn, st.c)
        der == EncT(tn, <<>>, <<>>, d.v)
        nat == NatOf(tn, d.v)
        by == IF ty.k \in BitLike THEN Tail(st.c) ELSE st.c
        is(x, want) == x.k = "ok" /\ x.v = want
        text(c) == o.txt.k = "ok" /\ NatEq(VStr(StrDec(IF ty.k \in {"utc", "gen"} THEN "visible" ELSE ty.k, c).c), o.txt.v)
    IN IF ~d.ok THEN IF o.nat.k = "err" /\ o.nat.e = "ValueError" THEN "ok" ELSE "native of invalid contents"
       ELSE IF o.nat.k # "ok" THEN IF Unknown(nat) /\ o.nat.e = "ValueError" THEN "ok" ELSE "native raises"
       ELSE IF ~NatEq(nat, o.nat.v) THEN "native"
       ELSE IF o.der.k # "ok" THEN "dump raises"
       \* a time is written as the text it was set from
       ELSE IF o.der.der # (IF st.b # <<>> THEN st.b ELSE IF ty.k \in {"utc", "gen"} THEN Tlv1(tn, st.c) ELSE der) /\ ~(st.loose /\ o.der.der = der) THEN "dump"
       ELSE IF "by" \in DOMAIN o /\ ~is(o.by, by) THEN "bytes()"
       ELSE IF "i" \in DOMAIN o /\ ~(o.i.k = "ok" /\ o.i.neg = IntVal(st.c).neg /\ o.i.m = IntVal(st.c).m) THEN "int()"
       ELSE IF "ub" \in DOMAIN o /\ ~is(o.ub, st.ub) /\ ~(st.loose /\ (is(o.ub, Rep(0, Len(st.ub))) \/ is(o.ub, Rep(0, InnerC(tn, der)[1])))) THEN "unused_bits"
       ELSE IF "dot" \in DOMAIN o /\ ~is(o.dot, OidText(st.c)) THEN "dotted"
       ELSE IF "txt" \in DOMAIN o /\ ~text(st.c) /\ ~(st.loose /\ text(InnerC(tn, der))) THEN "text"
       ELSE IF "tru" \in DOMAIN o /\ ~is(o.tru, st.c # <<0>>) THEN "truth value"
       ELSE "ok"

Refused(x) == x \in {"ValueError", "TypeError", "OverflowError"}
Fail(st, w) == [st EXCEPT !.bad = w]
After(st, c) == [st EXCEPT !.v = [@ EXCEPT !.set = TRUE, !.c = c, !.ub = IF Len(c) > 0 THEN Rep(0, MinOf(c[1], 7)) ELSE <<>>, !.b = <<>>, !.loose = FALSE]]
SetC(tn, st, c) == IF TyOf[tn].k \in BitLike THEN After(st, c) ELSE [st EXCEPT !.v = [@ EXCEPT !.set = TRUE, !.c = c, !.ub = <<>>, !.b = <<>>, !.loose = FALSE]]

BitsNow(st) == LET d == BitVal(st.v.c) IN d
StepOk(tn, st, s) ==
    LET ty == TyOf[tn] IN
    CASE s.s = "load" ->
            LET d == Dec(tn, s.b) IN
            IF ~d.ok THEN IF d.why \in Tolerated THEN [st EXCEPT !.stop = TRUE]
                          ELSE IF s.e = "ValueError" THEN [st EXCEPT !.stop = TRUE] ELSE Fail(st, "load of: " \o d.why)
            ELSE IF s.e # "" THEN IF Unknown(NatOf(tn, d.v)) THEN [st EXCEPT !.stop = TRUE] ELSE Fail(st, "load refused")
            ELSE LET r == ReadEl(tn, s.b) IN [st EXCEPT !.v = [@ EXCEPT !.set = TRUE, !.c = r.c, !.ub = r.ub, !.b = s.b, !.loose = Loose(tn, <<>>, <<>>, s.b)]]
      [] s.s = "set" ->
            LET r == SetOf1(tn, s.a, st.v.w) IN
            IF r.ok THEN IF s.e = "" THEN SetC(tn, st, r.c) ELSE Fail(st, "set refused")
            ELSE IF Refused(s.e) THEN st ELSE IF s.e = "" THEN Fail(st, "set not refused") ELSE Fail(st, "set raises the wrong exception")
      [] s.s = "width" ->
            LET z == StripZ(st.v.c) IN
            IF ~st.v.set THEN [st EXCEPT !.v = [@ EXCEPT !.w = s.n]]
            ELSE IF Len(st.v.c) = s.n THEN IF s.e = "" THEN [st EXCEPT !.v = [@ EXCEPT !.w = s.n]] ELSE Fail(st, "set_encoded_width refused")
            ELSE IF Len(z) > s.n THEN IF Refused(s.e) THEN st ELSE Fail(st, "too small a width not refused")
            ELSE IF s.e = "" THEN [st EXCEPT !.v = [@ EXCEPT !.w = s.n, !.c = PadLeft(z, 0, s.n), !.b = <<>>, !.loose = FALSE]] ELSE Fail(st, "set_encoded_width refused")
      [] s.s = "see" -> LET x == SeeBad(tn, st.v, s.o) IN IF x = "ok" THEN st ELSE Fail(st, x)
      [] s.s = "force" ->
            LET d == ValOf(tn, st.v.c)
                der == EncT(tn, <<>>, <<>>, d.v) IN
            IF ~d.ok THEN IF s.der.k = "err" /\ s.der.e = "ValueError" THEN st ELSE Fail(st, "forced dump of invalid contents")
            ELSE IF s.der.k = "ok" /\ s.der.der = der THEN
                 [st EXCEPT !.v = [@ EXCEPT !.b = <<>>, !.loose = FALSE, !.ub = IF ty.k \in BitLike THEN Rep(0, InnerC(tn, der)[1]) ELSE <<>>, !.c = InnerC(tn, der)]]
            ELSE Fail(st, "forced dump")
      [] s.s = "getbit" ->      \* s.name # "" or index s.ix
            LET i == IF s.name # "" THEN IF InMap(ty, s.name) THEN ty.m[NumIx(ty.m, s.name)][1] ELSE -1 ELSE s.ix
                bits == BitVal(st.v.c)
            IN IF i < 0 THEN IF s.e = "ValueError" THEN st ELSE Fail(st, "unknown bit name not refused")
               ELSE IF s.e # "" \/ s.v # (i < Len(bits) /\ bits[i + 1] = 1) THEN Fail(st, "bit read by index or name") ELSE st
      [] s.s = "setbit" ->
            LET i == IF s.name # "" THEN IF InMap(ty, s.name) THEN ty.m[NumIx(ty.m, s.name)][1] ELSE -1 ELSE s.ix
                bits == BitVal(st.v.c)
                new == [j \in 1..MaxOf(Len(bits), i + 1) |-> IF j = i + 1 THEN (IF s.v THEN 1 ELSE 0) ELSE IF j <= Len(bits) THEN bits[j] ELSE 0]
            IN IF i < 0 THEN IF s.e = "ValueError" THEN st ELSE Fail(st, "unknown bit name not refused")
               ELSE IF s.e # "" THEN Fail(st, "bit assignment refused")
               ELSE SetC(tn, st, BitC(IF ty.m # <<>> THEN StripTrailZ(new) ELSE new))
      [] s.s = "cast" ->
            IF UnivTag[TyOf[s.to].k] # UnivTag[ty.k] THEN IF s.e = "TypeError" THEN st ELSE Fail(st, "cast to a type of another tag not refused")
            ELSE IF s.e # "" THEN Fail(st, "cast refused")
            ELSE LET der == EncT(tn, <<>>, <<>>, ValOf(tn, st.v.c).v)
                     v == [st.v EXCEPT !.b = IF @ = <<>> THEN der ELSE @, !.loose = TRUE]
                     x == SeeBad(s.to, v, s.o) IN
                 IF x = "ok" THEN st
                 \* a value read in constructed form may have been re-encoded by a dump
                 ELSE IF st.v.loose /\ SeeBad(s.to, [v EXCEPT !.c = InnerC(tn, der), !.b = der, !.ub = IF ty.k \in BitLike THEN Rep(0, InnerC(tn, der)[1]) ELSE <<>>], s.o) = "ok" THEN st
                 ELSE Fail(st, "cast: " \o x)
      [] OTHER -> Fail(st, "unexpected step")

(* copies: the values there are (vs) and the one the calls go to (cur).     *)
(* A copy starts as what the copied value is and then lives on its own.     *)
Settled(st) == [st.vs EXCEPT ![st.cur] = st.v]
HStep(tn, st, s) ==
    CASE s.s = "copy" ->
            IF s.e = "" THEN [st EXCEPT !.vs = Append(Settled(st), st.v), !.cur = Len(st.vs) + 1]
            ELSE IF s.e = "ValueError" /\ ~ValOf(tn, st.v.c).ok THEN st ELSE Fail(st, "copy raises")
      [] s.s = "pick" -> [st EXCEPT !.vs = Settled(st), !.cur = s.n + 1, !.v = Settled(st)[s.n + 1]]
      [] OTHER -> StepOk(tn, st, s)
VHist(e) == LET r == FoldLeft(LAMBDA st, s : IF st.stop \/ st.bad # "ok" THEN st ELSE HStep(e.t, st, s),
                              [v |-> Unset, vs |-> <<Unset>>, cur |-> 1, bad |-> "ok", stop |-> FALSE], e.steps)
            IN r.bad

=============================================================================
