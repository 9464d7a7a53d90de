--------------------------------- MODULE Pem ---------------------------------
(* PEM (RFC 7468, RFC 1421 headers): octets <-> blocks of a type name,        *)
(* headers and contents.  Texts are sequences of octets.                      *)
EXTENDS Bytes

LF == 10
CR == 13
Dashes == <<45, 45, 45, 45, 45>>
Dash4  == <<45, 45, 45, 45>>
Dash4s == <<45, 45, 45, 45, 32>>
Spc4Dash == <<32, 45, 45, 45, 45>>
BEGIN_ == <<66, 69, 71, 73, 78, 32>>
END_   == <<69, 78, 68, 32>>
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
Has(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : HasAt(s, i, p)

(* ------------------------------------------------ base 64 --------------- *)
B64C(i) == IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47
B64V(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
           ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
B64Group(a, b, c) == LET v == a * 65536 + b * 256 + c
                     IN <<B64C(v \div 262144), B64C((v \div 4096) % 64), B64C((v \div 64) % 64), B64C(v % 64)>>
RECURSIVE B64Enc(_)
B64Enc(o) == IF o = <<>> THEN <<>>
             ELSE IF Len(o) = 1 THEN SubSeq(B64Group(o[1], 0, 0), 1, 2) \o <<61, 61>>
             ELSE IF Len(o) = 2 THEN SubSeq(B64Group(o[1], o[2], 0), 1, 3) \o <<61>>
             ELSE B64Group(o[1], o[2], o[3]) \o B64Enc(Drop(o, 3))
(* characters outside the alphabet are passed over; "open" where padding is   *)
(* misplaced and decoders differ                                              *)
B64Dec(t) ==
    LET s == SelectSeq(t, LAMBDA c : B64V(c) >= 0 \/ c = 61)
        d == SelectSeq(s, LAMBDA c : c # 61)
        pad == Len(s) - Len(d)
        atend == \A i \in 1..Len(d) : s[i] # 61
        g(i) == LET v == [j \in 1..4 |-> IF 4 * i + j <= Len(d) THEN B64V(d[4 * i + j]) ELSE 0]
                    w == v[1] * 262144 + v[2] * 4096 + v[3] * 64 + v[4]
                IN <<w \div 65536, (w \div 256) % 256, w % 256>>
        all == FoldLeft(LAMBDA acc, i : acc \o g(i - 1), <<>>, [i \in 1..((Len(d) + 3) \div 4) |-> i])
    IN IF ~atend THEN [k |-> "open", o |-> <<>>]
       ELSE IF Len(d) % 4 = 0 THEN IF pad = 0 THEN [k |-> "ok", o |-> all] ELSE [k |-> "open", o |-> <<>>]
       ELSE IF Len(d) % 4 = 1 THEN [k |-> "bad", o |-> <<>>]
       ELSE IF pad = 4 - (Len(d) % 4) THEN [k |-> "ok", o |-> Take(all, (Len(d) * 6) \div 8)]
       ELSE IF pad < 4 - (Len(d) % 4) THEN [k |-> "bad", o |-> <<>>]
       ELSE [k |-> "open", o |-> <<>>]

(* ------------------------------------------------ lines ----------------- *)
(* split at LF, CR and CR LF; empty lines carry nothing                       *)
Lines(t) ==
    LET st == FoldLeft(LAMBDA a, c : IF c \in {LF, CR} THEN [ls |-> IF a.cur = <<>> THEN a.ls ELSE Append(a.ls, a.cur), cur |-> <<>>]
                                     ELSE [a EXCEPT !.cur = Append(@, c)],
                       [ls |-> <<>>, cur |-> <<>>], t)
    IN IF st.cur = <<>> THEN st.ls ELSE Append(st.ls, st.cur)

(* type names: printable, no small letters, no hyphen, no colon               *)
LabelChar(c) == c \in (32..44 \cup 46..57 \cup 59..96 \cup 123..126)
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF i <= Len(s) /\ LabelChar(s[i]) THEN RunEnd(s, i + 1) ELSE i - 1
(* the type name a line begins a block of; <<>> if it begins none             *)
BeginOf(line) ==
    IF ~(Starts(line, Dashes) \/ Starts(line, Dash4s)) \/ ~HasAt(line, 6, BEGIN_) THEN <<>>
    ELSE LET e == RunEnd(line, 12)
         IN IF e < 12 THEN <<>>
            ELSE IF HasAt(line, e + 1, Dashes) THEN SubSeq(line, 12, e)
            ELSE IF e > 12 /\ HasAt(line, e, Spc4Dash) THEN SubSeq(line, 12, e - 1)
            ELSE <<>>
EndsBlock(line) == Starts(line, Dashes) \/ Starts(line, Dash4s)

Space(c) == c \in (9..13 \cup 28..32)
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ Space(s[1]) THEN LStrip(Tail(s)) ELSE s
Strip(s) == Reverse(LStrip(Reverse(LStrip(s))))
Colon(line) == IF \E i \in 1..Len(line) : line[i] = 58 THEN CHOOSE i \in 1..Len(line) : line[i] = 58 /\ \A j \in 1..(i - 1) : line[j] # 58 ELSE 0
WithHeader(hs, n, v) == IF \E i \in 1..Len(hs) : hs[i].n = n
                        THEN [i \in 1..Len(hs) |-> IF hs[i].n = n THEN [n |-> n, v |-> v] ELSE hs[i]]
                        ELSE Append(hs, [n |-> n, v |-> v])

(* ------------------------------------------------ the machine ----------- *)
(* st: "text" between blocks, "head" after the begin line, "body"             *)
Machine0 == [st |-> "text", name |-> <<>>, hs |-> <<>>, body |-> <<>>, out |-> <<>>, err |-> FALSE, open |-> FALSE]
Body(m, line) ==
    IF ~EndsBlock(line) THEN [m EXCEPT !.st = "body", !.body = @ \o line]
    ELSE LET d == B64Dec(m.body)
         IN IF d.k = "bad" THEN [m EXCEPT !.err = TRUE]
            ELSE IF d.k = "open" THEN [m EXCEPT !.open = TRUE]
            ELSE [m EXCEPT !.st = "text", !.name = <<>>, !.hs = <<>>, !.body = <<>>,
                           !.out = Append(@, [name |-> m.name, hs |-> m.hs, der |-> d.o])]
Read(m, line) ==
    IF m.err \/ m.open \/ line = <<>> THEN m
    ELSE CASE m.st = "text" -> LET n == BeginOf(line) IN IF n = <<>> THEN m ELSE [m EXCEPT !.st = "head", !.name = n]
           [] m.st = "head" -> LET c == Colon(line) IN
                               IF c = 0 THEN Body(m, line)
                               ELSE IF \E i \in 1..Len(line) : line[i] > 127 THEN [m EXCEPT !.err = TRUE]
                               ELSE [m EXCEPT !.hs = WithHeader(@, SubSeq(line, 1, c - 1), Strip(Drop(line, c)))]
           [] m.st = "body" -> Body(m, line)
Unarmor(t) == FoldLeft(Read, Machine0, Lines(t))
(* blocks read before an error are delivered; without any block it is an error*)
Refused(m) == m.err \/ m.out = <<>>

Detect(t) == Has(t, Dashes \o Take(BEGIN_, 5)) \/ Has(t, Dash4s \o Take(BEGIN_, 5))

(* ------------------------------------------------ writing --------------- *)
Upper(s) == [i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
RECURSIVE Fold64(_)
Fold64(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, MinOf(64, Len(s))) \o <<LF>> \o Fold64(Drop(s, MinOf(64, Len(s))))
ArmorHead(hs) == IF hs = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, h : a \o h.n \o <<58, 32>> \o h.v \o <<LF>>, <<>>, hs) \o <<LF>>
Armor(name, hs, der) == Dashes \o BEGIN_ \o Upper(name) \o Dashes \o <<LF>> \o ArmorHead(hs) \o Fold64(B64Enc(der))
                        \o Dashes \o END_ \o Upper(name) \o Dashes \o <<LF>>
(* names and headers that can be written                                      *)
Writable(name, hs) == /\ name # <<>> /\ \A i \in 1..Len(name) : LabelChar(Upper(name)[i])
                      /\ \A i \in 1..Len(hs) : /\ Strip(hs[i].v) = hs[i].v
                                               /\ \A c \in {LF, CR} : ~Contains(hs[i].n, c) /\ ~Contains(hs[i].v, c)
                                               /\ ~Contains(hs[i].n, 58)
                                               /\ \A j \in 1..Len(hs[i].n) : hs[i].n[j] < 128
                                               /\ \A j \in 1..Len(hs[i].v) : hs[i].v[j] < 128
=============================================================================
