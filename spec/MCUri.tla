-------------------------------- MODULE MCUri --------------------------------
(* Every identifier that can be typed, character by character, after a few    *)
(* beginnings: storing it and reading it keep its meaning.  The texts are     *)
(* written out and replayed.                                                  *)
EXTENDS Uri, Json, IOUtils, TLC
CONSTANTS MaxLen, Letters
VARIABLES typed, left
vars == <<typed, left>>
(* "s:", "http://h/", "http://", "http://h?", "http://h#" , "http://h:"       *)
HttpTo == <<104, 116, 116, 112, 58, 47, 47>>
Starts == {<<115, 58>>, HttpTo, HttpTo \o <<104, 47>>, HttpTo \o <<104, 63>>, HttpTo \o <<104, 35>>, HttpTo \o <<104, 58>>}
Init == typed \in Starts /\ left = MaxLen
Next == left > 0 /\ left' = left - 1 /\ \E c \in Letters : typed' = Append(typed, c)
Spec == Init /\ [][Next]_vars
Stored == ToUri(typed)
Kept == TextOk(typed) => /\ IsUri(Stored) /\ Meaning(Stored) = Meaning(typed) /\ ToUri(Stored) = Stored
                         /\ LET back == ToIri(Stored) IN TextOk(back) /\ Meaning(back) = Meaning(typed) /\ (Plain(typed) => back = Reread(typed)) /\ ToUri(back) = Stored
Read == IsUri(typed) => TextOk(ToIri(typed)) /\ Meaning(ToUri(ToIri(typed))) = Meaning(typed)
(* equality is one: as it is decided by a form of the meaning                 *)
Equal == TextOk(typed) => UriEq(Meaning(typed), Meaning(Stored)) = "yes" /\ UriEq(Meaning(Stored), Meaning(typed)) = "yes"
RECURSIVE Grow(_)
Grow(n) == IF n = 0 THEN Starts ELSE LET g == Grow(n - 1) IN g \cup {Append(x, c) : x \in {y \in g : TRUE}, c \in Letters}
M == INSTANCE Ip
ASSUME (\A n \in 0..32 : M!MaskLen(Ones(n, 4)) = n) /\ \A n \in 0..128 : M!MaskLen(Ones(n, 16)) = n
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(Grow(MaxLen)))
=============================================================================
