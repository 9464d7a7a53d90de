------------------------------- MODULE MCName -------------------------------
(* Preparation over every text of up to MaxLen characters, with every kind of *)
(* character.  The texts and their prepared forms are written out; the        *)
(* harness compares each with its prepared form and with its neighbours.      *)
EXTENDS NameCmp, Json, IOUtils, TLC
CONSTANTS MaxLen, MaxOut
Alphabet == <<97, 65, 32, 160, 173, 769, 223, 1488, 57344, 180, 65313, 0, 9, 776>>
VARIABLE txt
Init == txt = <<>>
Next == \E i \in 1..Len(Alphabet) : Len(txt) < MaxLen /\ txt' = Append(txt, Alphabet[i])
Spec == Init /\ [][Next]_txt
P == Prepare(txt)
(* the space put in front of a leading mark would become part of the text     *)
Idempotent == P.k = "ok" /\ P.v[2] \notin Marks => Prepare(P.v).v = P.v
Shape == /\ P.v[1] = 32 /\ Last(P.v) = 32 /\ Len(P.v) >= 2
         /\ \A i \in DOMAIN P.v : P.v[i] \notin Dropped /\ ((i < Len(P.v) /\ P.v[i] # 32) => P.v[i] \notin Spaces)
(* what does not matter: case, kind of space, number of spaces, spaces at the  *)
(* ends, characters mapped to nothing                                          *)
Insensitive == /\ P.v[2] \notin Marks => Prepare(<<32>> \o txt).v = P.v
               /\ Prepare(txt \o <<32, 9>>).v = P.v
               /\ Prepare(txt \o <<173>>) = P
               /\ Prepare([i \in DOMAIN txt |-> IF txt[i] = 65 THEN 97 ELSE IF txt[i] \in {160, 9} THEN 32 ELSE txt[i]]) = P
Texts(n) == [1..n -> {Alphabet[i] : i \in 1..Len(Alphabet)}]
Out(s) == LET p == Prepare(s) IN [t |-> s, k |-> p.k, v |-> p.v]
Export == IF MaxOut > 0 THEN JsonSerialize(IOEnv.OUT, [alphabet |-> SetToSeq(Dropped \cup Spaces \cup DOMAIN Fold_), texts |-> SetToSeq({Out(s) : s \in UNION {Texts(n) : n \in 0..MaxOut}})]) ELSE TRUE
ASSUME Export
=============================================================================
