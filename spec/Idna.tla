-------------------------------- MODULE Idna --------------------------------
(* Internationalised host names: RFC 3490 (ToASCII, ToUnicode), RFC 3491      *)
(* (nameprep) and RFC 3492 (Punycode).  Text is a sequence of code points.    *)
EXTENDS NameCmp
Lower(c) == IF 65 <= c /\ c <= 90 THEN c + 32 ELSE c
LowerT(t) == [i \in DOMAIN t |-> Lower(t[i])]
IsAscii(t) == \A i \in DOMAIN t : t[i] < 128
RECURSIVE SplitAt(_, _)
SplitAt(t, S) == LET ps == {i \in DOMAIN t : t[i] \in S} IN
                 IF ps = {} THEN <<t>>
                 ELSE LET p == Min(ps) IN <<SubSeq(t, 1, p - 1)>> \o SplitAt(SubSeq(t, p + 1, Len(t)), S)
JoinWith(ls, sep) == IF ls = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, ls[1], Tail(ls))

(* RFC 3492 *)
Digit(d) == IF d < 26 THEN 97 + d ELSE 22 + d
Worth(c) == IF 97 <= c /\ c <= 122 THEN c - 97 ELSE IF 65 <= c /\ c <= 90 THEN c - 65 ELSE IF 48 <= c /\ c <= 57 THEN c - 22 ELSE 99
Threshold(k, bias) == IF k <= bias THEN 1 ELSE IF k >= bias + 26 THEN 26 ELSE k - bias
RECURSIVE Shrink(_, _)
Shrink(d, k) == IF d > 455 THEN Shrink(d \div 35, k + 36) ELSE k + ((36 * d) \div (d + 38))
Adapt(delta, n, first) == LET d == IF first THEN delta \div 700 ELSE delta \div 2 IN Shrink(d + (d \div n), 0)
RECURSIVE VarInt(_, _, _)
VarInt(q, k, bias) == LET t == Threshold(k, bias) IN
    IF q < t THEN <<Digit(q)>> ELSE <<Digit(t + ((q - t) % (36 - t)))>> \o VarInt((q - t) \div (36 - t), k + 36, bias)
PunyEncode(t) ==
    LET basic == SelectSeq(t, LAMBDA c : c < 128)
        b == Len(basic)
        step(s, c) ==
            IF c < s.n THEN [s EXCEPT !.delta = @ + 1]
            ELSE IF c = s.n THEN [s EXCEPT !.out = @ \o VarInt(s.delta, 36, s.bias), !.bias = Adapt(s.delta, s.h + 1, s.h = b), !.delta = 0, !.h = @ + 1]
            ELSE s
        round(s, m) == LET s1 == [s EXCEPT !.delta = @ + (m - s.n) * (s.h + 1), !.n = m]
                           s2 == FoldLeft(step, s1, t)
                       IN [s2 EXCEPT !.delta = @ + 1, !.n = m + 1]
        ms == SetToSortSeq({c \in Range(t) : c >= 128}, <)
    IN (IF b > 0 THEN Append(basic, 45) ELSE <<>>)
       \o FoldLeft(round, [n |-> 128, delta |-> 0, bias |-> 72, h |-> b, out |-> <<>>], ms).out
(* s: [i, w, k] while a number is read *)
PunyDecode(t) ==
    LET hs == {i \in DOMAIN t : t[i] = 45}
        p == IF hs = {} THEN 0 ELSE Max(hs)
        basic == SubSeq(t, 1, p - 1)
        rest == SubSeq(t, p + 1, Len(t))
        step(s, c) ==
            IF ~s.ok THEN s
            ELSE LET d == Worth(c)
                     th == Threshold(s.k, s.bias)
                     i2 == s.i + d * s.w
                 IN IF d > 35 \/ s.w > 20000000 \/ i2 > 100000000 THEN [s EXCEPT !.ok = FALSE]
                    ELSE IF d >= th THEN [s EXCEPT !.i = i2, !.w = @ * (36 - th), !.k = @ + 36]
                    ELSE LET size == Len(s.out) + 1
                             n2 == s.n + (i2 \div size)
                             pos == i2 % size
                         IN [ok |-> n2 <= 1114111, out |-> SubSeq(s.out, 1, pos) \o <<n2>> \o SubSeq(s.out, pos + 1, Len(s.out)),
                             n |-> n2, i |-> pos + 1, was |-> pos + 1, w |-> 1, k |-> 36, bias |-> Adapt(i2 - s.was, size, s.was = 0)]
        r == FoldLeft(step, [ok |-> IsAscii(t), out |-> basic, n |-> 128, i |-> 0, was |-> 0, w |-> 1, k |-> 36, bias |-> 72], rest)
    IN [ok |-> r.ok /\ r.k = 36, t |-> r.out]

(* RFC 3491: mapped to nothing (RFC 3454 B.1), folded, NFKC                   *)
PrepDropped == {173, 847, 6150, 6155, 6156, 6157, 8203, 8204, 8205, 8288, 65279} \cup 65024..65039
Nameprep(t) == Normalize(FlattenSeq([i \in DOMAIN t |-> IF t[i] \in PrepDropped THEN <<>> ELSE IF t[i] \in DOMAIN Fold_ THEN Fold_[t[i]] ELSE <<t[i]>>]))
(* characters an internationalised label is exercised with: letters, digits,  *)
(* hyphen, and what maps to those or to nothing                               *)
Ace == <<120, 110, 45, 45>>
IsAce(l) == Len(l) >= 4 /\ SubSeq(l, 1, 4) = Ace
Good(l) == [ok |-> Len(l) > 0 /\ Len(l) < 64, l |-> l]
ToAscii(l) ==
    IF IsAscii(l) THEN Good(l)
    ELSE LET n == Nameprep(l) IN
         IF IsAscii(n) THEN Good(n) ELSE IF IsAce(n) THEN [ok |-> FALSE, l |-> n] ELSE Good(Ace \o PunyEncode(n))
ToUnicode(l) == IF ~IsAce(l) THEN [ok |-> IsAscii(l), l |-> l]
                ELSE LET d == PunyDecode(SubSeq(l, 5, Len(l))) a == ToAscii(d.t) IN [ok |-> d.ok /\ a.ok /\ a.l = LowerT(l), l |-> d.t]
Stops == {46, 12290, 65294, 65377}
(* host name text -> labels in ASCII form; an empty last label is kept         *)
HostLabels(t) ==
    LET ls == IF IsAscii(t) THEN SplitAt(t, {46}) ELSE SplitAt(t, Stops)
        n == Len(ls)
        done == [i \in DOMAIN ls |-> IF i = n /\ ls[i] = <<>> THEN [ok |-> TRUE, l |-> <<>>] ELSE ToAscii(ls[i])]
    IN [ok |-> \A i \in DOMAIN ls : done[i].ok, ls |-> [i \in DOMAIN ls |-> done[i].l]]
HostAscii(t) == LET h == HostLabels(t) IN [ok |-> h.ok, t |-> JoinWith(h.ls, <<46>>)]
HostText(o) == LET ls == [i \in DOMAIN SplitAt(o, {46}) |-> ToUnicode(SplitAt(o, {46})[i])] IN
               [ok |-> IsAscii(o) /\ \A i \in DOMAIN ls : ls[i].ok, t |-> JoinWith([i \in DOMAIN ls |-> ls[i].l], <<46>>)]
=============================================================================
