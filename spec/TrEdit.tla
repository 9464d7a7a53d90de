-------------------------------- MODULE TrEdit --------------------------------
(* Recorded histories of edits, reads, copies and refused calls, checked      *)
(* step by step against the states of Edit.                                   *)
EXTENDS Edit, TraceBase
Prims == INSTANCE PrimHist

BadS(st, w) == [st EXCEPT !.bad = w]
Refusal == {"ValueError", "TypeError", "KeyError", "IndexError", "OverflowError", "AttributeError"}

(* equality of natives where the order inside lists is left open              *)
RECURSIVE NatMEq(_, _), BagMEq(_, _)
BagMEq(x, g) ==
    IF x = <<>> THEN g = <<>>
    ELSE LET qs == {q \in 1..Len(g) : NatMEq(x[1], g[q])}
         IN IF qs = {} THEN FALSE ELSE LET q == CHOOSE q \in qs : \A p \in qs : q <= p IN BagMEq(Tail(x), SubSeq(g, 1, q - 1) \o SubSeq(g, q + 1, Len(g)))
NatMEq(a, b) ==
    IF a.k \in {"list", "bag"} THEN b.k = "list" /\ Len(a.l) = Len(b.l) /\ BagMEq(a.l, b.l)
    ELSE IF a.k = "map" /\ b.k = "map" THEN Len(a.f) = Len(b.f) /\ \A i \in 1..Len(a.f) : a.f[i].n = b.f[i].n /\ NatMEq(a.f[i].v, b.f[i].v)
    ELSE NatEq(a, b)
NatIs(free, n, x) == NatEq(n, x) \/ (free /\ NatMEq(n, x))

(* octets holding a governed member show the value inside                     *)
Whole(c) == LET d == Val(c) IN IF ~d.ok \/ c.pt = "" THEN d ELSE Val(ChildCtx(c, [k |-> "p", n |-> "", i |-> 0]))
NatIn(c, d) == IF c.pt = "" THEN NatOf(c.t, d.v) ELSE NatOf(c.pt, d.v)
(* what reading the value at place c has to show                              *)
ReadBad(c, free, x) ==
    LET d == Whole(c)
        n == NatIn(c, d)
    IN IF ~d.ok THEN IF x.k = "err" /\ x.e = "ValueError" THEN "ok"
                     ELSE IF d.why \in Tolerated THEN (IF x.k = "ok" THEN "ok" ELSE "wrong exception")
                     ELSE IF x.k = "ok" THEN "accepted: " \o d.why ELSE "wrong exception"
       ELSE IF x.k # "ok" THEN IF Unknown(n) /\ x.e = "ValueError" THEN "ok" ELSE "native raises"
       ELSE IF ~NatIs(free, n, x.v) THEN "native" ELSE "ok"

(* a value that can not be read may also not be copied                         *)
Unreadable(c) == LET d == Val(c) IN ~d.ok \/ Unknown(NatIn(c, d))

Retagged(c, how) ==
    LET ty == TyOf[c.t] IN
    IF how.k = "untag" THEN Ctx(c.t, <<>>, <<>>, LET bt == BaseTag(ty, <<>>) IN WrapEx(ty.ex, Wrap(bt[1], InnerOf(c).e.con, T(bt[2]), BodyOf(c))), c.pt)
    ELSE LET im == IF how.im # <<>> THEN how.im ELSE <<>>
             ex == how.ex
             bt == BaseTag(ty, im)
         IN Ctx(c.t, im, ex, WrapEx(AllEx(ty, ex), Wrap(bt[1], InnerOf(c).e.con, T(bt[2]), BodyOf(c))), c.pt)

(* a value read from the indefinite form, or from the constructed form of a   *)
(* string, may be shown in DER, and so may then be what it holds              *)
RECURSIVE LooseForm(_)
LooseForm(c) == LET els == [q \in 0..Len(AllEx(TyOf[c.t], c.ex)) |->
                                 FoldLeft(LAMBDA e, x : ParseAt(c.b, e.hend, e.cend - 1, 0), Parse(c.b), SubSeq(AllEx(TyOf[c.t], c.ex), 1, q))]
                IN \/ \E q \in DOMAIN els : els[q].indef
                   \/ els[Len(AllEx(TyOf[c.t], c.ex))].con = 1 /\ TyOf[c.t].k \notin {"seq", "set", "seqof", "setof", "choice", "any"}
                   \/ TyOf[c.t].k = "choice" /\ LooseForm(ChildCtx(c, [k |-> "c", n |-> "", i |-> 0]))
InLoose(st, h) == \E q \in 0..Len(st.hs[h].path) : LooseForm(PlaceAt(st.rs[st.hs[h].r], SubSeq(st.hs[h].path, 1, q)))
MayShow(st, s, c, octets, body(_)) == octets = body(c) \/ (Val(c).ok /\ InLoose(st, s.h) /\ octets = body([c EXCEPT !.b = EncT(c.t, c.im, c.ex, Val(c).v)]))

Apply(st, s) ==
    LET c == Place(st, s.h) IN
    CASE s.s = "get" -> IF s.e = "" THEN NewHandle(st, s.h, s.at) ELSE BadS(st, "member can not be read")
      [] s.s = "nat" -> LET x == ReadBad(c, s.free, s.out) IN IF x # "ok" THEN BadS(st, x)
            ELSE IF Val(c).ok THEN st
            ELSE IF ToString(s.h) \in DOMAIN st.nat /\ st.nat[ToString(s.h)] # s.out.k THEN BadS(st, "reading again gives another outcome")
            ELSE [st EXCEPT !.nat = (ToString(s.h) :> s.out.k) @@ @]
      [] s.s = "dump" ->
            IF s.out.k # "ok" THEN BadS(st, "dump raises")
            ELSE IF MayShow(st, s, c, s.out.der, LAMBDA x : x.b) THEN st ELSE BadS(st, "dump")
      [] s.s = "reload" -> LET x == ReadBad([c EXCEPT !.pt = ""], s.free, s.out) IN IF x = "ok" THEN st ELSE BadS(st, "reloaded dump: " \o x)
      [] s.s = "contents" -> IF s.out.k = "ok" /\ MayShow(st, s, c, s.out.der, BodyOf) THEN st ELSE BadS(st, "contents")
      [] s.s = "len" ->
            LET d == Val(c)
                n == IF TyOf[c.t].k \in {"seqof", "setof"} THEN Len(Pieces(c)) ELSE Len(TyOf[c.t].f) + Len(Slots(c).x)
            IN IF d.ok /\ s.n # n THEN BadS(st, "len()") ELSE st
      [] s.s = "poke" -> st       \* any other read: nothing is to be seen of it later
      [] s.s = "items" ->      \* natives while iterating
            LET d == Val(c)
                n == NatOf(c.t, d.v)
                want == IF n.k \in {"list", "bag"} THEN n ELSE [k |-> "list", l |-> [j \in 1..Len(TyOf[c.t].f) |-> n.f[j].v]]
            IN IF ~d.ok \/ (s.out.k = "err" /\ s.out.e = "ValueError" /\ Unknown(want)) THEN st ELSE IF s.out.k = "ok" /\ NatIs(s.free, want, s.out.v) THEN st ELSE BadS(st, "iteration")
      [] s.s = "set" ->
            LET nb == IF s.v.k = "none" THEN IF s.at.k = "f" THEN EncField(TyOf[c.t], FieldOf(TyOf[c.t], s.at.n), Val(c).v, VNone) ELSE <<>>
                      ELSE EncAs(c, s.at, s.v)
            IN IF s.e = "" THEN EditAt(st, s.h, s.at, nb) ELSE BadS(st, "assignment refused")
      [] s.s = "del" -> IF s.e = "" THEN EditAt(st, s.h, s.at, <<>>) ELSE BadS(st, "deletion refused")
      [] s.s = "app" -> IF s.e = "" THEN EditAt(st, s.h, [k |-> "i", n |-> "", i |-> Len(Pieces(c)) + 1], EncAs(c, [k |-> "i", n |-> "", i |-> 0], s.v))
                        ELSE BadS(st, "append refused")
      [] s.s = "pset" -> IF s.e = "" THEN [st EXCEPT !.rs[st.hs[s.h].r].b = EncT(c.t, c.im, c.ex, s.v)] ELSE BadS(st, "set refused")
      [] s.s = "eq" ->
            LET o == Place(st, s.h2)
                same == BaseTag(TyOf[c.t], <<>>)[2] = BaseTag(TyOf[o.t], <<>>)[2] /\ BodyOf(c) = BodyOf(o)
            IN IF s.e # "" THEN BadS(st, "comparison raises") ELSE IF s.eq # same THEN BadS(st, "equality") ELSE IF s.ne = s.eq THEN BadS(st, "inequality") ELSE st
      [] s.s = "bad" -> IF s.e \in Refusal THEN st ELSE IF s.e = "" THEN BadS(st, "not refused: " \o s.what) ELSE BadS(st, "wrong exception: " \o s.what)
      [] s.s = "copy" -> IF s.e = "" THEN NewRoot(st, c) ELSE IF s.e = "ValueError" /\ Unreadable(c) THEN st ELSE BadS(st, "copy raises")
      [] s.s = "retag" -> IF s.e = "" THEN NewRoot(st, Retagged(c, s.how)) ELSE IF s.e = "ValueError" /\ Unreadable(c) THEN st ELSE BadS(st, "retag raises")
      [] s.s = "force" ->
            IF ~Val(c).ok THEN IF s.out.k = "err" /\ s.out.e = "ValueError" THEN st ELSE BadS(st, "forced dump of an invalid value")
            ELSE IF s.out.k # "ok" THEN IF RawTolerated(Val(c).v) /\ s.out.e = "ValueError" THEN st ELSE BadS(st, "forced dump raises")
            ELSE IF s.out.der # EncT(c.t, c.im, c.ex, Val(c).v) /\ ~RawTolerated(Val(c).v) THEN BadS(st, "forced dump")
            ELSE [st EXCEPT !.rs[st.hs[s.h].r].b = s.out.der]
      [] OTHER -> BadS(st, "unexpected step")

VEdit(e) ==
    LET p == Parse(e.b)
        \* loading takes the first element and leaves what follows it
        b == IF e.b = <<>> THEN EncT(e.t, e.im, e.ex, e.v) ELSE IF p.ok THEN SubSeq(e.b, 1, p.end - 1) ELSE e.b
        start == [rs |-> <<Ctx(e.t, e.im, e.ex, b, "")>>, hs |-> <<[r |-> 1, path |-> <<>>]>>, bad |-> "ok", nat |-> <<>>]
    IN IF e.dmg /\ ~p.ok THEN "malformed encoding loaded"
       ELSE IF ~e.dmg /\ ~Whole(start.rs[1]).ok THEN "generated value is not valid: " \o Whole(start.rs[1]).why ELSE
       FoldLeft(LAMBDA st, s : IF st.bad # "ok" THEN st ELSE Apply(st, s), start, e.steps).bad

Verdict(e) == CASE e.op = "edit" -> VEdit(e)
                [] e.op = "hist" -> Prims!VHist(e)      \* of one primitive value and its copies
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
