-------------------------------- MODULE MCPem --------------------------------
(* The line machine, exhaustively: every sequence of up to MaxLen lines from  *)
(* an alphabet with every kind of line.  The sequences are written out for    *)
(* the harness, which feeds each of them to the implementation.               *)
EXTENDS Pem, Json, IOUtils
CONSTANTS MaxLen, MaxOut
Text(s) == s
A_ == <<65>>
Alphabet == <<
    Dashes \o BEGIN_ \o <<65>> \o Dashes,
    Dash4s \o BEGIN_ \o <<66, 32, 67>> \o Spc4Dash,
    Dashes \o END_ \o <<65>> \o Dashes,
    Dash4s \o END_ \o <<66, 32, 67>> \o Spc4Dash,
    <<78, 58, 32, 118>>,                    \* N: v
    <<78, 58, 58, 32>>,                     \* N::
    <<65, 66, 67, 68>>,                     \* base 64
    <<81, 81, 61, 61>>,                     \* base 64 with padding
    <<81>>,                                 \* base 64, incomplete
    <<>>,
    <<116, 101, 120, 116, 32, 33>>,         \* text
    <<32>> \o Dashes \o BEGIN_ \o <<65>> \o Dashes,
    Dashes \o BEGIN_ \o <<97>> \o Dashes >>
VARIABLES ls, m
vars == <<ls, m>>
Init == ls = <<>> /\ m = Machine0
Next == \E i \in 1..Len(Alphabet) : Len(ls) < MaxLen /\ ls' = Append(ls, i) /\ m' = Read(m, Alphabet[i])
Spec == Init /\ [][Next]_vars

Textual(q, nl) == FoldLeft(LAMBDA a, i : a \o Alphabet[i] \o nl, <<>>, q)
(* reading line by line is reading the text, whatever ends the lines          *)
Agrees == Unarmor(Textual(ls, <<LF>>)) = m /\ Unarmor(Textual(ls, <<CR, LF>>)) = m
(* delivered blocks are complete, and never change later                      *)
Delivered == [][Len(m'.out) >= Len(m.out) /\ SubSeq(m'.out, 1, Len(m.out)) = m.out]_vars
Bounded == Len(m.out) <= Cardinality({i \in 1..Len(ls) : ls[i] \in {3, 4, 1, 2, 13}}) /\ (m.st = "text" => m.body = <<>> /\ m.hs = <<>>)
(* writing and reading are inverse: each delivered block, written again       *)
WritesBack == \A i \in 1..Len(m.out) : LET b == m.out[i] IN
              Writable(b.name, b.hs) =>
              /\ Unarmor(Armor(b.name, b.hs, b.der)).out = <<b>>
              /\ m.st = "text" => Unarmor(Textual(ls, <<LF>>) \o Armor(b.name, b.hs, b.der)).out = Append(m.out, b)
Export == IF MaxOut > 0 THEN JsonSerialize(IOEnv.OUT, [lines |-> Alphabet, behaviours |-> SetToSeq(UNION {[1..n -> 1..Len(Alphabet)] : n \in 0..MaxOut})]) ELSE TRUE
ASSUME Export
=============================================================================
