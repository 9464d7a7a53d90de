------------------------------- MODULE TrWords -------------------------------
(* Verdicts for recorded names (P28).                                         *)
(* view: value v of a name, its octets, and what the name said of itself each *)
(* time it was asked; sha: digests of the octets, by the recorder.            *)
(* build: attributes d, and the octets of the name built from them.           *)
(* word: a type of attribute, its name in words and its place.                *)
EXTENDS Words, TraceBase
Each(s, Says(_)) == \A j \in DOMAIN s : Says(s[j])
VView(e) ==
    IF e.der # Enc("x509_Name", e.v) THEN "encoding of the name"
    ELSE IF ~Each(e.human, LAMBDA h : h = InWords(e.v)) THEN "name in words"
    ELSE IF ~Each(e.native, LAMBDA x : NatEq(NatOf("x509_Name", e.v), x)) THEN "name as native values"
    ELSE IF ~Each(e.len, LAMBDA n : n = Len(e.v.v.l)) THEN "number of relative names"
    ELSE IF e.sha.of # e.der \/ ~Each(e.h1, LAMBDA h : h = e.sha.h1) \/ ~Each(e.h256, LAMBDA h : h = e.sha.h256) THEN "digests"
    ELSE IF e.after # e.der THEN "asking changes the name" ELSE "ok"
VBuild(e) ==
    IF e.out.k # "ok" THEN "name is not built"
    ELSE IF e.out.der # Enc("x509_Name", Built(e.d, e.printable)) THEN "name built" ELSE "ok"
VWord(e) == IF e.ty \notin DOMAIN LabelOf THEN (IF e.got = e.own THEN "ok" ELSE "type without a name in words")
            ELSE IF e.got # LabelOf[e.ty] THEN "type in words" ELSE "ok"
(* values that are not texts have words too, left open but for where they are  *)
Within(small, big) == \E o \in 0..(Len(big) - Len(small)) : SubSeq(big, o + 1, o + Len(small)) = small
VOdd(e) ==
    IF \E j \in DOMAIN e.human : e.human[j].k # "text" THEN "no words for the name"
    ELSE IF Len(e.human) # 1 THEN "words change"
    ELSE IF \E j \in DOMAIN e.types : ~Within(LabelOf[e.types[j]] \o <<58, 32>>, e.human[1].c) THEN "type is missing" ELSE "ok"
Verdict(e) == CASE e.op = "view" -> VView(e)
                [] e.op = "build" -> VBuild(e)
                [] e.op = "word" -> VWord(e)
                [] e.op = "refuse" -> IF e.out = "ValueError" THEN "ok" ELSE "attribute that can not be built"
                [] e.op = "odd" -> VOdd(e)
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
