------------------------------- MODULE Bytes -------------------------------
(* Octet strings are sequences over 0..255, most significant octet first.   *)
(* Numbers of unbounded size are digit sequences without leading zeros      *)
(* (zero is the empty sequence), so nothing here depends on TLC's 32 bit    *)
(* integers.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Last1(s)   == s[Len(s)]
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

Pow2 == [i \in 0..30 |-> 2^i]

RECURSIVE StripZ(_)
StripZ(s) == IF s = <<>> THEN <<>> ELSE IF s[1] = 0 THEN StripZ(Tail(s)) ELSE s

Rep(x, n) == [i \in 1..n |-> x]

(* ------------------------------------------------ digit sequences ------- *)
(* little-endian acc * m + carry in the given base                          *)
RECURSIVE MulAddLE(_, _, _, _)
MulAddLE(acc, m, carry, base) ==
    IF acc = <<>>
    THEN IF carry = 0 THEN <<>>
         ELSE <<carry % base>> \o MulAddLE(<<>>, m, carry \div base, base)
    ELSE LET t == Head(acc) * m + carry
         IN <<t % base>> \o MulAddLE(Tail(acc), m, t \div base, base)

(* change of base of a most-significant-first digit sequence                *)
Rebase(ds, from, to) ==
    Reverse(FoldLeft(LAMBDA acc, d : MulAddLE(acc, from, d, to), <<>>, ds))

(* value of a short digit sequence as a TLC integer                         *)
RECURSIVE ToNat(_, _)
ToNat(ds, base) == IF ds = <<>> THEN 0
                   ELSE ToNat(Take(ds, Len(ds) - 1), base) * base + Last1(ds)

RECURSIVE FromNat(_, _)
FromNat(n, base) == IF n = 0 THEN <<>> ELSE FromNat(n \div base, base) \o <<n % base>>

BE(n) == FromNat(n, 256)

(* compare two digit sequences without leading zeros: -1, 0, 1              *)
RECURSIVE CmpSame(_, _, _)
CmpSame(a, b, i) == IF i > Len(a) THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpSame(a, b, i + 1)
CmpNum(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpSame(a, b, 1)

(* lexicographic octet string order, shorter prefix first                   *)
RECURSIVE CmpLexAt(_, _, _)
CmpLexAt(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE CmpLexAt(a, b, i + 1)
CmpLex(a, b) == CmpLexAt(a, b, 1)

(* sorting a sequence of octet strings (insertion sort: n is small)         *)
RECURSIVE InsertLex(_, _)
InsertLex(x, s) == IF s = <<>> THEN <<x>>
                   ELSE IF CmpLex(x, Head(s)) <= 0 THEN <<x>> \o s
                   ELSE <<Head(s)>> \o InsertLex(x, Tail(s))
SortLex(s) == FoldLeft(LAMBDA acc, x : InsertLex(x, acc), <<>>, s)

Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)

(* ------------------------------------------------ magnitude arithmetic --- *)
(* mag + 1 and mag - 1 on base-256 magnitudes                               *)
MagInc(m) == Reverse(MulAddLE(Reverse(m), 1, 1, 256))
RECURSIVE DecLE(_)
DecLE(le) == IF Head(le) = 0 THEN <<255>> \o DecLE(Tail(le)) ELSE <<Head(le) - 1>> \o Tail(le)
MagDec(m) == StripZ(Reverse(DecLE(Reverse(m))))

Invert(bs) == [i \in 1..Len(bs) |-> 255 - bs[i]]

(* ------------------------------------------------ bits ------------------- *)
Bit(byte, i) == (byte \div Pow2[7 - i]) % 2          \* i = 0 is the top bit
BitsOf(bs) == [i \in 1..(8 * Len(bs)) |-> Bit(bs[1 + ((i - 1) \div 8)], (i - 1) % 8)]
BitsToBytes(bits) ==
    [k \in 1..((Len(bits) + 7) \div 8) |->
        FoldLeft(LAMBDA acc, j : 2 * acc + (IF 8 * (k - 1) + j <= Len(bits) THEN bits[8 * (k - 1) + j] ELSE 0), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
(* drop trailing zero bits                                                  *)
RECURSIVE StripTrailZ(_)
StripTrailZ(s) == IF s = <<>> THEN <<>> ELSE IF Last1(s) = 0 THEN StripTrailZ(Take(s, Len(s) - 1)) ELSE s

IsPrefix1(p, s) == Len(p) <= Len(s) /\ Take(s, Len(p)) = p
IsSuffix1(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
=============================================================================
