------------------------------- MODULE IpText -------------------------------
(* Reading the text forms of IP addresses (RFC 4291 section 2.2, dotted       *)
(* decimal).  Text is a sequence of code points, addresses are octets.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt
Alpha(c) == (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122)
NoIp == [ok |-> FALSE, o |-> <<>>]
RECURSIVE Cut(_, _)
Cut(t, c) == LET ps == {i \in DOMAIN t : t[i] = c} IN
             IF ps = {} THEN <<t>> ELSE LET p == Min(ps) IN <<SubSeq(t, 1, p - 1)>> \o Cut(SubSeq(t, p + 1, Len(t)), c)
Dec(t) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, t)
DecOctet(t) == Len(t) \in 1..3 /\ (\A i \in DOMAIN t : 48 <= t[i] /\ t[i] <= 57) /\ (Len(t) > 1 => t[1] # 48) /\ Dec(t) < 256
ParseIp4(t) == LET ps == Cut(t, 46) IN
               IF Len(ps) = 4 /\ \A i \in 1..4 : DecOctet(ps[i]) THEN [ok |-> TRUE, o |-> [i \in 1..4 |-> Dec(ps[i])]] ELSE NoIp
HexV(c) == IF 48 <= c /\ c <= 57 THEN c - 48 ELSE IF 97 <= c /\ c <= 102 THEN c - 87 ELSE IF 65 <= c /\ c <= 70 THEN c - 55 ELSE 99
Group(t) == Len(t) \in 1..4 /\ \A i \in DOMAIN t : HexV(t[i]) < 16
GroupO(t) == LET v == FoldLeft(LAMBDA a, c : a * 16 + HexV(c), 0, t) IN <<v \div 256, v % 256>>
(* groups between colons, the last one perhaps dotted decimal                 *)
Groups6(ps, dotted) ==
    LET n == Len(ps)
        v4 == dotted /\ n > 0 /\ 46 \in Range(ps[n])
        last == IF v4 THEN ParseIp4(ps[n]) ELSE NoIp
        m == IF v4 THEN n - 1 ELSE n
    IN IF (\A i \in 1..m : Group(ps[i])) /\ (v4 => last.ok) THEN [ok |-> TRUE, o |-> FlattenSeq([i \in 1..m |-> GroupO(ps[i])]) \o last.o] ELSE NoIp
ParseIp6(t) ==
    LET ds == {i \in 1..(Len(t) - 1) : t[i] = 58 /\ t[i + 1] = 58}
        side(x) == IF x = <<>> THEN <<>> ELSE Cut(x, 58)
    IN IF ds = {} THEN LET g == Groups6(Cut(t, 58), TRUE) IN IF g.ok /\ Len(g.o) = 16 THEN g ELSE NoIp
       ELSE IF Cardinality(ds) > 1 THEN NoIp
       ELSE LET p == Min(ds)
                l == Groups6(side(SubSeq(t, 1, p - 1)), FALSE)
                r == Groups6(side(SubSeq(t, p + 2, Len(t))), TRUE)
                n == Len(l.o) + Len(r.o)
            IN IF l.ok /\ r.ok /\ n <= 14 THEN [ok |-> TRUE, o |-> l.o \o [i \in 1..(16 - n) |-> 0] \o r.o] ELSE NoIp
=============================================================================
