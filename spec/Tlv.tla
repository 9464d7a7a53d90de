-------------------------------- MODULE Tlv --------------------------------
(* X.690 identifier / length / contents grammar, as the library offers it:  *)
(* BER on input (definite lengths of any form, indefinite lengths), DER on  *)
(* output.  Tag numbers are base-128 digit sequences (0 is <<>>).           *)
EXTENDS Bytes

MaxDepth == 10

TlvErr(why) == [ok |-> FALSE, why |-> why, cls |-> 0, con |-> 0, tag |-> <<>>,
                hend |-> 0, cend |-> 0, end |-> 0, indef |-> FALSE]

(* position after a high-tag-number form starting at p; 0 if malformed      *)
RECURSIVE HighTagEnd(_, _, _)
HighTagEnd(b, p, n) == IF p > n THEN 0
                       ELSE IF b[p] < 128 THEN p + 1
                       ELSE HighTagEnd(b, p + 1, n)

(* p is the 1-based position of the first octet, n the last usable one      *)
RECURSIVE ParseAt(_, _, _, _), EocEnd(_, _, _, _)
ParseAt(b, p, n, depth) ==
    IF depth > MaxDepth THEN TlvErr("depth")
    ELSE IF p > n THEN TlvErr("no identifier")
    ELSE
    LET first == b[p]
        cls   == first \div 64
        con   == (first \div 32) % 2
        low   == first % 32
        tend  == IF low = 31 THEN HighTagEnd(b, p + 1, n) ELSE p + 1
    IN
    IF tend = 0 THEN TlvErr("truncated tag")
    ELSE
    LET groups == IF low = 31 THEN [i \in 1..(tend - p - 1) |-> b[p + i] % 128] ELSE <<>>
        tag == IF low = 31 THEN groups ELSE IF low = 0 THEN <<>> ELSE <<low>>
    IN
    IF low = 31 /\ groups[1] = 0 THEN TlvErr("tag not minimal")
    ELSE IF low = 31 /\ Len(groups) = 1 /\ groups[1] < 31 THEN TlvErr("tag not minimal")
    ELSE IF tend > n THEN TlvErr("no length")
    ELSE
    LET lo == b[tend] IN
    IF lo < 128 THEN
        LET ce == tend + 1 + lo IN
        IF ce - 1 > n THEN TlvErr("contents truncated")
        ELSE [ok |-> TRUE, why |-> "", cls |-> cls, con |-> con, tag |-> tag,
              hend |-> tend + 1, cend |-> ce, end |-> ce, indef |-> FALSE]
    ELSE IF lo = 128 THEN
        IF con = 0 THEN TlvErr("indefinite primitive")
        ELSE LET e == EocEnd(b, tend + 1, n, depth) IN
             IF e.end = 0 THEN TlvErr(e.why)
             ELSE [ok |-> TRUE, why |-> "", cls |-> cls, con |-> con, tag |-> tag,
                   hend |-> tend + 1, cend |-> e.end - 2, end |-> e.end, indef |-> TRUE]
    ELSE
        LET k == lo - 128 IN
        IF tend + k > n THEN TlvErr("length truncated")
        ELSE LET ls == StripZ(SubSeq(b, tend + 1, tend + k)) IN
             IF Len(ls) > 3 THEN TlvErr("contents truncated")
             ELSE LET ce == tend + 1 + k + ToNat(ls, 256) IN
                  IF ce - 1 > n THEN TlvErr("contents truncated")
                  ELSE [ok |-> TRUE, why |-> "", cls |-> cls, con |-> con, tag |-> tag,
                        hend |-> tend + 1 + k, cend |-> ce, end |-> ce, indef |-> FALSE]

(* scan the elements of an indefinite-length value up to its end marker     *)
EocEnd(b, p, n, depth) ==
    IF p + 1 <= n /\ b[p] = 0 /\ b[p + 1] = 0 THEN [end |-> p + 2, why |-> ""]
    ELSE LET e == ParseAt(b, p, n, depth + 1) IN
         IF ~e.ok THEN [end |-> 0, why |-> e.why] ELSE EocEnd(b, e.end, n, depth)

Parse(b) == ParseAt(b, 1, Len(b), 0)

HeaderOf(b, p, t)  == SubSeq(b, p, t.hend - 1)
ContentOf(b, t)    == SubSeq(b, t.hend, t.cend - 1)
TrailerOf(b, t)    == IF t.indef THEN <<0, 0>> ELSE <<>>

(* ------------------------------------------------------------ DER output - *)
IdOctets(cls, con, tag) ==
    IF tag = <<>> THEN <<cls * 64 + con * 32>>
    ELSE IF Len(tag) = 1 /\ tag[1] < 31 THEN <<cls * 64 + con * 32 + tag[1]>>
    ELSE <<cls * 64 + con * 32 + 31>>
         \o [i \in 1..Len(tag) |-> IF i < Len(tag) THEN 128 + tag[i] ELSE tag[i]]

LenOctets(n) == IF n < 128 THEN <<n>> ELSE LET l == BE(n) IN <<128 + Len(l)>> \o l

DerHeader(cls, con, tag, n) == IdOctets(cls, con, tag) \o LenOctets(n)
Wrap(cls, con, tag, contents) == DerHeader(cls, con, tag, Len(contents)) \o contents

(* small tag numbers as digit sequences                                     *)
T(n) == FromNat(n, 128)

(* split a whole byte string into consecutive elements; ok=FALSE if broken  *)
RECURSIVE SplitR(_, _, _, _)
SplitR(b, p, n, acc) ==
    IF p > n THEN [ok |-> TRUE, els |-> acc]
    ELSE LET e == ParseAt(b, p, n, 0) IN
         IF ~e.ok THEN [ok |-> FALSE, els |-> acc]
         ELSE SplitR(b, e.end, n, Append(acc, [t |-> e, from |-> p]))
Split(b) == SplitR(b, 1, Len(b), <<>>)
=============================================================================
