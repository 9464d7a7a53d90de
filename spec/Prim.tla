-------------------------------- MODULE Prim --------------------------------
(* Contents octets of the primitive types (X.690 clause 8), written from    *)
(* the standard: integers, object identifiers, bit strings, character       *)
(* strings and times, each in both directions.                              *)
EXTENDS Tlv, CharTables

(* ------------------------------------------------ INTEGER --------------- *)
(* a number is its sign and its base-256 magnitude without leading zeros    *)
Num(neg, m) == [neg |-> neg, m |-> m]
Zero == Num(FALSE, <<>>)
NatNum(n) == Num(FALSE, BE(n))
IntOf(n) == IF n < 0 THEN Num(TRUE, BE(-n)) ELSE NatNum(n)

UIntC(m) == IF m = <<>> THEN <<0>> ELSE m              \* unsigned, minimal
IntC(x) ==
    IF x.m = <<>> THEN <<0>>
    ELSE IF ~x.neg THEN IF x.m[1] >= 128 THEN <<0>> \o x.m ELSE x.m
    ELSE LET d == MagDec(x.m) IN
         IF d = <<>> THEN <<255>>
         ELSE LET inv == Invert(d) IN IF inv[1] < 128 THEN <<255>> \o inv ELSE inv
(* two's complement reading of any octets (also over-long ones)             *)
IntVal(c) ==
    IF c = <<>> THEN Zero
    ELSE IF c[1] < 128 THEN Num(FALSE, StripZ(c))
    ELSE Num(TRUE, MagInc(StripZ(Invert(c))))

(* fixed width two's complement / unsigned; <<>> with ok=FALSE if too small *)
PadLeft(c, x, w) == Rep(x, w - Len(c)) \o c

SmallInt(x) == IF Len(x.m) > 3 THEN 0 ELSE (IF x.neg THEN -ToNat(x.m, 256) ELSE ToNat(x.m, 256))

(* ------------------------------------------------ OBJECT IDENTIFIER ----- *)
(* arcs are decimal digit sequences (zero is <<>>)                          *)
B128(d) == LET x == Rebase(d, 10, 128) IN IF x = <<>> THEN <<0>> ELSE x
SubId(x) == [i \in 1..Len(x) |-> IF i < Len(x) THEN 128 + x[i] ELSE x[i]]
RECURSIVE AddSmallLE(_, _, _)
AddSmallLE(le, n, base) == IF n = 0 THEN le
    ELSE IF le = <<>> THEN <<n % base>> \o AddSmallLE(<<>>, n \div base, base)
    ELSE LET t == Head(le) + n IN <<t % base>> \o AddSmallLE(Tail(le), t \div base, base)
AddSmall(d, n, base) == Reverse(AddSmallLE(Reverse(d), n, base))
RECURSIVE SubSmallLE(_, _, _)
SubSmallLE(le, n, base) ==       \* le >= n
    IF n = 0 THEN le
    ELSE LET t == Head(le) - (n % base)
         IN IF t >= 0 THEN <<t>> \o SubSmallLE(Tail(le), n \div base, base)
            ELSE <<t + base>> \o SubSmallLE(Tail(le), n \div base + 1, base)
SubSmall(d, n, base) == StripZ(Reverse(SubSmallLE(Reverse(d), n, base)))

OidValid(a) == /\ Len(a) >= 2
               /\ CmpNum(a[1], <<2>>) <= 0
               /\ (a[1] # <<2>> => CmpNum(a[2], <<3, 9>>) <= 0)
OidC(a) == LET first == AddSmall(a[2], 40 * ToNat(a[1], 10), 10)
           IN Concat([i \in 1..(Len(a) - 1) |-> SubId(B128(IF i = 1 THEN first ELSE a[i + 1]))])

RECURSIVE SubIds(_, _, _, _)
SubIds(c, i, cur, acc) ==
    IF i > Len(c) THEN [ok |-> cur = <<>>, ids |-> acc]
    ELSE IF c[i] >= 128 THEN SubIds(c, i + 1, Append(cur, c[i] - 128), acc)
    ELSE SubIds(c, i + 1, <<>>, Append(acc, StripZ(Append(cur, c[i]))))
OidParts(c) == SubIds(c, 1, <<>>, <<>>)
(* X.690 8.19.2: the first octet of a subidentifier is not 80               *)
OidOk(c) == c # <<>> /\ OidParts(c).ok /\ \A j \in 1..Len(c) : c[j] = 128 => (j > 1 /\ c[j - 1] >= 128)
OidArcs(c) ==
    LET s == OidParts(c).ids
        f == s[1]
        a == IF CmpNum(f, T(40)) < 0 THEN 0 ELSE IF CmpNum(f, T(80)) < 0 THEN 1 ELSE 2
        rest == [i \in 1..(Len(s) - 1) |-> Rebase(s[i + 1], 128, 10)]
    IN <<FromNat(a, 10), Rebase(SubSmall(f, 40 * a, 128), 128, 10)>> \o rest
DecText(d) == IF d = <<>> THEN "0" ELSE FoldLeft(LAMBDA s, x : s \o ToString(x), "", d)
Dotted(arcs) == FoldLeft(LAMBDA s, x : IF s = "" THEN DecText(x) ELSE s \o "." \o DecText(x), "", arcs)
OidText(c) == Dotted(OidArcs(c))
(* arcs written in the specification as ordinary numbers                    *)
ArcsOf(ns) == [i \in 1..Len(ns) |-> FromNat(ns[i], 10)]

(* ------------------------------------------------ BIT STRING ------------ *)
BitC(bits) == LET n == Len(bits) IN
    <<(8 - (n % 8)) % 8>> \o BitsToBytes(bits)
BitOk(c) == c # <<>> /\ c[1] <= 7 /\ (Len(c) = 1 => c[1] = 0)
BitVal(c) == LET all == BitsOf(Tail(c)) IN Take(all, Len(all) - c[1])

(* ------------------------------------------------ character strings ----- *)
Utf8Of(cp) ==
    IF cp < 128 THEN <<cp>>
    ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
    ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
    ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
IsSurr(cp) == cp >= 55296 /\ cp <= 57343
Bad == [ok |-> FALSE, c |-> <<>>]
Good(c) == [ok |-> TRUE, c |-> c]
RECURSIVE Utf8At(_, _, _)
Utf8At(b, i, acc) ==
    IF i > Len(b) THEN Good(acc)
    ELSE LET x == b[i]
             k == IF x < 128 THEN 0 ELSE IF x < 194 THEN 9 ELSE IF x < 224 THEN 1 ELSE IF x < 240 THEN 2 ELSE IF x < 245 THEN 3 ELSE 9
         IN IF k = 9 \/ i + k > Len(b) THEN Bad
            ELSE IF \E j \in 1..k : b[i + j] \div 64 # 2 THEN Bad
            ELSE LET lead == IF k = 0 THEN x ELSE IF k = 1 THEN x - 192 ELSE IF k = 2 THEN x - 224 ELSE x - 240
                     cp == FoldLeft(LAMBDA a, j : a * 64 + (b[i + j] - 128), lead, [j \in 1..k |-> j])
                 IN IF IsSurr(cp) \/ cp > 1114111 \/ (k = 2 /\ cp < 2048) \/ (k = 3 /\ cp < 65536) THEN Bad
                    ELSE Utf8At(b, i + k + 1, Append(acc, cp))
Utf8Dec(b) == Utf8At(b, 1, <<>>)
Utf16Of(cp) == IF cp < 65536 THEN <<cp \div 256, cp % 256>>
               ELSE LET y == cp - 65536
                        h == 55296 + y \div 1024
                        l == 56320 + (y % 1024)
                    IN <<h \div 256, h % 256, l \div 256, l % 256>>
RECURSIVE Utf16At(_, _, _)
Utf16At(b, i, acc) ==
    IF i > Len(b) THEN Good(acc)
    ELSE IF i + 1 > Len(b) THEN Bad
    ELSE LET u == b[i] * 256 + b[i + 1] IN
         IF u >= 56320 /\ u <= 57343 THEN Bad
         ELSE IF u >= 55296 /\ u <= 56319 THEN
              IF i + 3 > Len(b) THEN Bad
              ELSE LET l == b[i + 2] * 256 + b[i + 3] IN
                   IF l < 56320 \/ l > 57343 THEN Bad
                   ELSE Utf16At(b, i + 4, Append(acc, 65536 + (u - 55296) * 1024 + (l - 56320)))
         ELSE Utf16At(b, i + 2, Append(acc, u))
Utf32Of(cp) == <<0, cp \div 65536, (cp \div 256) % 256, cp % 256>>
Utf32Dec(b) ==
    IF Len(b) % 4 # 0 THEN Bad
    ELSE LET g == [j \in 1..(Len(b) \div 4) |-> SubSeq(b, 4 * j - 3, 4 * j)]
             v(q) == q[2] * 65536 + q[3] * 256 + q[4]
         IN IF \E j \in 1..Len(g) : g[j][1] # 0 \/ v(g[j]) > 1114111 \/ IsSurr(v(g[j])) THEN Bad
            ELSE Good([j \in 1..Len(g) |-> v(g[j])])
TableDec(tab, b) == IF \E j \in 1..Len(b) : tab[b[j] + 1] < 0 THEN Bad ELSE Good([j \in 1..Len(b) |-> tab[b[j] + 1]])
TableInv(tab) == [cp \in {tab[i] : i \in 1..256} \ {-1} |-> (CHOOSE i \in 1..256 : tab[i] = cp) - 1]
TeletexInv == TableInv(TeletexTable)
Ascii == {"ia5", "dns", "uri", "email"}
Latin == {"numeric", "printable", "graphic", "visible", "general", "character", "objdesc"}
StrKinds == {"utf8", "bmp", "universal", "teletex", "nrteletex"} \cup Ascii \cup Latin
(* text (code points) -> octets                                             *)
StrEnc(k, cs) ==
    IF \E j \in 1..Len(cs) : IsSurr(cs[j]) THEN Bad
    ELSE CASE k = "utf8" -> Good(Concat([j \in 1..Len(cs) |-> Utf8Of(cs[j])]))
           [] k = "bmp" -> Good(Concat([j \in 1..Len(cs) |-> Utf16Of(cs[j])]))
           [] k = "universal" -> Good(Concat([j \in 1..Len(cs) |-> Utf32Of(cs[j])]))
           [] k \in {"teletex", "nrteletex"} -> IF \E j \in 1..Len(cs) : cs[j] \notin DOMAIN TeletexInv THEN Bad
                                               ELSE Good([j \in 1..Len(cs) |-> TeletexInv[cs[j]]])
           [] k \in Ascii -> IF \E j \in 1..Len(cs) : cs[j] > 127 THEN Bad ELSE Good(cs)
           [] OTHER -> IF \E j \in 1..Len(cs) : cs[j] > 255 THEN Bad ELSE Good(cs)
StrDec(k, b) ==
    CASE k = "utf8" -> Utf8Dec(b)
      [] k = "bmp" -> Utf16At(b, 1, <<>>)
      [] k = "universal" -> Utf32Dec(b)
      [] k = "teletex" -> TableDec(TeletexTable, b)
      [] k = "nrteletex" -> TableDec(Cp1252Table, b)
      [] k \in Ascii -> IF \E j \in 1..Len(b) : b[j] > 127 THEN Bad ELSE Good(b)
      [] OTHER -> Good(b)

(* ------------------------------------------------ times ----------------- *)
(* an instant or civil time: off is the offset in minutes, NoTz if absent   *)
NoTz == 99999
TimeRec(y, mo, d, h, mi, s, us, off) == [y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s, us |-> us, off |-> off]
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* days since 0000-03-01 of the proleptic Gregorian calendar                *)
Days(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        mm == IF m <= 2 THEN m + 9 ELSE m - 3
        y4 == yy + 400        \* keep the divisions on naturals
    IN 365 * y4 + (y4 \div 4) - (y4 \div 100) + (y4 \div 400) + (153 * mm + 2) \div 5 + d - 1 - 146097
CivilOk(t) == /\ t.mo \in 1..12 /\ t.d >= 1 /\ t.d <= MonthLen(t.y, t.mo)
              /\ t.h \in 0..23 /\ t.mi \in 0..59 /\ t.s \in 0..59
(* instant as <<days, second of day, microsecond>>                          *)
Instant(t) ==
    LET s == t.h * 3600 + t.mi * 60 + t.s - (IF t.off = NoTz THEN 0 ELSE t.off * 60)
        dd == IF s < 0 THEN (IF s < -86400 THEN -2 ELSE -1) ELSE s \div 86400
        s2 == s - dd * 86400
        dd2 == IF s2 >= 86400 THEN dd + 1 ELSE dd
        s3 == IF s2 >= 86400 THEN s2 - 86400 ELSE s2
    IN <<Days(t.y, t.mo, t.d) + dd2, s3, t.us>>
SameTime(a, b) == Instant(a) = Instant(b) /\ ((a.off = NoTz) <=> (b.off = NoTz))
(* civil UTC time of an instant <<days, sec, us>>                           *)
CivilDays(n) ==
    LET z == n + 146097
        era == z \div 146097
        doe == z % 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400 - 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN <<y, m, d>>
ToUtc(t) == LET x == Instant(t)
                c == CivilDays(x[1])
            IN TimeRec(c[1], c[2], c[3], x[2] \div 3600, (x[2] \div 60) % 60, x[2] % 60, x[3], 0)
D2(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
D4(n) == D2(n \div 100) \o D2(n % 100)
RECURSIVE Strip48(_)
Strip48(s) == IF s = <<>> THEN <<>> ELSE IF Last1(s) = 48 THEN Strip48(Take(s, Len(s) - 1)) ELSE s
D6(n) == D2(n \div 10000) \o D2((n \div 100) % 100) \o D2(n % 100)
UtcC(t) == LET u == ToUtc(t) IN D2(u.y % 100) \o D2(u.mo) \o D2(u.d) \o D2(u.h) \o D2(u.mi) \o D2(u.s) \o <<90>>
UtcInRange(t) == LET u == ToUtc(t) IN u.y >= 1950 /\ u.y <= 2049
GenC(t) == LET u == ToUtc(t) IN D4(u.y) \o D2(u.mo) \o D2(u.d) \o D2(u.h) \o D2(u.mi) \o D2(u.s)
                                \o (IF u.us = 0 THEN <<>> ELSE <<46>> \o Strip48(D6(u.us))) \o <<90>>
GenInRange(t) == LET u == ToUtc(t) IN u.y >= 0 /\ u.y <= 9999

IsDig(x) == x >= 48 /\ x <= 57
Digs(b, i, n) == i + n - 1 <= Len(b) /\ \A j \in 0..(n - 1) : IsDig(b[i + j])
N2(b, i) == (b[i] - 48) * 10 + b[i + 1] - 48
RECURSIVE DigRun(_, _)
DigRun(b, i) == IF i <= Len(b) /\ IsDig(b[i]) THEN 1 + DigRun(b, i + 1) ELSE 0
NoTime == [ok |-> FALSE, t |-> TimeRec(0, 1, 1, 0, 0, 0, 0, 0), extra |-> <<0, 0>>]
(* zone at i: Z, +hhmm, -hhmm (hh alone if allowed), nothing if allowed     *)
Zone(b, i, hhok, noneok) ==
    LET n == Len(b) IN
    IF i = n /\ b[i] = 90 THEN [ok |-> TRUE, off |-> 0]
    ELSE IF i > n THEN [ok |-> noneok, off |-> NoTz]
    ELSE IF b[i] \in {43, 45} THEN
         LET sg == IF b[i] = 43 THEN 1 ELSE -1 IN
         IF n = i + 4 /\ Digs(b, i + 1, 4) THEN [ok |-> N2(b, i + 1) <= 23 /\ N2(b, i + 3) <= 59, off |-> sg * (60 * N2(b, i + 1) + N2(b, i + 3))]
         ELSE IF hhok /\ n = i + 2 /\ Digs(b, i + 1, 2) THEN [ok |-> N2(b, i + 1) <= 23, off |-> sg * 60 * N2(b, i + 1)]
         ELSE [ok |-> FALSE, off |-> 0]
    ELSE [ok |-> FALSE, off |-> 0]
UtcParse(b) ==
    IF ~Digs(b, 1, 10) THEN NoTime
    ELSE LET hs == Digs(b, 11, 2)
             z == Zone(b, IF hs THEN 13 ELSE 11, FALSE, FALSE)
             yy == N2(b, 1)
             t == TimeRec(IF yy < 50 THEN 2000 + yy ELSE 1900 + yy, N2(b, 3), N2(b, 5), N2(b, 7), N2(b, 9), IF hs THEN N2(b, 11) ELSE 0, 0, z.off)
         IN [ok |-> z.ok /\ CivilOk(t), t |-> t, extra |-> <<0, 0>>]
(* fraction digits ds of a unit of u seconds, in microseconds, truncated to  *)
(* the microsecond: <<whole seconds, microseconds, exact?>>                 *)
FracUs(ds, u) ==
    LET num == Rebase(ds, 10, 10)
        all == StripZ(Rebase(ds, 10, 10))
        prod == Rebase(Reverse(MulAddLE(Reverse(all), u, 0, 10)), 10, 10)   \* value * u, still over 10^Len(ds)
        padded == Rep(0, MaxOf(0, Len(ds) + 1 - Len(prod))) \o prod
        whole == Take(padded, Len(padded) - Len(ds))
        frac == Drop(padded, Len(padded) - Len(ds))
        six == Take(frac \o Rep(0, 6), 6)
    IN [s |-> ToNat(whole, 10), us |-> ToNat(six, 10), rest |-> Drop(frac, 6)]
GenParse(b) ==
    IF ~Digs(b, 1, 10) THEN NoTime
    ELSE LET hm == Digs(b, 11, 2)
             hs == hm /\ Digs(b, 13, 2)
             i == IF hs THEN 15 ELSE IF hm THEN 13 ELSE 11
             hf == i <= Len(b) /\ b[i] \in {44, 46}
             nf == IF hf THEN DigRun(b, i + 1) ELSE 0
             z == Zone(b, IF hf THEN i + 1 + nf ELSE i, TRUE, TRUE)
             fr == IF nf = 0 THEN [s |-> 0, us |-> 0, rest |-> <<>>]
                   ELSE FracUs([j \in 1..nf |-> b[i + j] - 48], IF hs THEN 1 ELSE IF hm THEN 60 ELSE 3600)
             t == TimeRec(N2(b, 1) * 100 + N2(b, 3), N2(b, 5), N2(b, 7), N2(b, 9), IF hm THEN N2(b, 11) ELSE 0, IF hs THEN N2(b, 13) ELSE 0, 0, z.off)
             t2 == [t EXCEPT !.mi = t.mi + fr.s \div 60, !.s = t.s + (fr.s % 60), !.us = fr.us]
         IN [ok |-> z.ok /\ CivilOk(t) /\ (hf => nf > 0), t |-> t2, extra |-> fr.rest]
=============================================================================
