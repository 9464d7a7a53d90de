------------------------------- MODULE MCTlv -------------------------------
(* Exhaustive check of the TLV grammar itself: every octet string over a    *)
(* representative alphabet up to MaxLen is a state.                         *)
EXTENDS Tlv
CONSTANTS Alphabet, MaxLen
VARIABLE b
Init == b = <<>>
Next == \E x \in Alphabet : Len(b) < MaxLen /\ b' = Append(b, x)
Spec == Init /\ [][Next]_b

Pieces == LET r == Parse(b) IN
    r.ok => /\ r.end - 1 <= Len(b)
            /\ HeaderOf(b, 1, r) \o ContentOf(b, r) \o TrailerOf(b, r) = Take(b, r.end - 1)
(* what follows an element never changes how it is split, and no proper     *)
(* prefix of an element is an element                                       *)
PrefixFree == LET r == Parse(b) IN
    r.ok => /\ Parse(Take(b, r.end - 1)) = r
            /\ \A k \in 0..(r.end - 2) : ~Parse(Take(b, k)).ok
(* the DER header of the parsed triple parses back to the triple            *)
EmitInverse == LET r == Parse(b) IN
    r.ok => LET c == ContentOf(b, r)
                w == Wrap(r.cls, r.con, r.tag, c)
                s == Parse(w)
            IN s.ok /\ ~s.indef /\ s.cls = r.cls /\ s.con = r.con /\ s.tag = r.tag /\ ContentOf(w, s) = c
               /\ s.end = Len(w) + 1
               /\ Len(w) - Len(c) <= r.hend - 1 + (IF r.indef THEN 3 ELSE 0)
=============================================================================
