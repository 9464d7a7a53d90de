--------------------------------- MODULE Edit ---------------------------------
(* Structured values as they are edited.  The state of a value is the        *)
(* encoding a dump of it would show: members that were not edited keep the   *)
(* octets they were read with, edited ones are in DER.  References handed    *)
(* out (handles) are places in some value: a root and a path.                *)
EXTENDS Asn1

Ctx(t, im, ex, b, pt) == [t |-> t, im |-> im, ex |-> ex, b |-> b, pt |-> pt]
Val(c) == DecP(c.t, c.im, c.ex, c.b)

(* the element under the explicit tags of a place                            *)
InnerOf(c) == FoldLeft(LAMBDA st, x : [e |-> ParseAt(c.b, st.e.hend, st.e.cend - 1, 0), p |-> st.e.hend],
                       [e |-> Parse(c.b), p |-> 1], AllEx(TyOf[c.t], c.ex))
BodyOf(c) == LET e == InnerOf(c).e IN SubSeq(c.b, e.hend, e.cend - 1)
Pieces(c) == LET e == InnerOf(c).e
                 els == Elements(c.b, e.hend, e.cend - 1).els
             IN [q \in 1..Len(els) |-> SubSeq(c.b, els[q][2], els[q][1].end - 1)]

(* the octets of every member (<<>> if absent), then of the extra elements   *)
Slots(c) ==
    LET ty == TyOf[c.t]
        v == Val(c).v
        ps == Pieces(c)
        pres == {j \in 1..Len(ty.f) : Get(v, ty.f[j].n).k # "void"}
        ixof(x) == LET js == {j \in 1..Len(ty.f) : TagIn(Parse(x), OuterTags(ty.f[j].t, ty.f[j].im, ty.f[j].ex))}
                   IN IF js = {} THEN 0 ELSE CHOOSE j \in js : \A q \in js : j <= q
        inset == [q \in 1..Len(ps) |-> ixof(ps[q])]
    IN IF ty.k = "seq"
       THEN [f |-> [j \in 1..Len(ty.f) |-> IF j \in pres THEN ps[Cardinality({q \in pres : q <= j})] ELSE <<>>],
             x |-> SubSeq(ps, Cardinality(pres) + 1, Len(ps))]
       ELSE [f |-> [j \in 1..Len(ty.f) |-> IF \E q \in 1..Len(ps) : inset[q] = j
                                           THEN ps[CHOOSE q \in 1..Len(ps) : inset[q] = j] ELSE <<>>],
             x |-> <<>>]

FIx(ty, n) == CHOOSE j \in 1..Len(ty.f) : ty.f[j].n = n
(* steps: [k |-> "f", n], [k |-> "i", i], [k |-> "c"], [k |-> "p"]            *)
ChildCtx(c, s) ==
    LET ty == TyOf[c.t] IN
    CASE s.k = "f" -> LET f == FieldOf(ty, s.n)
                          r == Resolve(ty, f, Val(c).v)
                      IN Ctx(IF r.in THEN f.t ELSE r.t, f.im, f.ex, Slots(c).f[FIx(ty, s.n)], IF r.in THEN r.t ELSE "")
      [] s.k = "i" -> LET ps == Pieces(c) IN Ctx(ty.of, <<>>, <<>>, IF s.i <= Len(ps) THEN ps[s.i] ELSE <<>>, "")
      [] s.k = "c" -> LET i == InnerOf(c)
                          a == FieldOf(ty, Val(c).v.n)
                      IN Ctx(a.t, a.im, a.ex, SubSeq(c.b, i.p, i.e.end - 1), "")
      [] s.k = "p" -> Ctx(c.pt, <<>>, <<>>, IF InnerOf(c).e.con = 1 THEN Val(c).v.o ELSE IF ty.k = "pbits" THEN Tail(BodyOf(c)) ELSE BodyOf(c), "")

WithHeader(c, con, body) ==
    LET ty == TyOf[c.t] bt == BaseTag(ty, c.im) IN WrapEx(AllEx(ty, c.ex), Wrap(bt[1], con, T(bt[2]), body))

(* the place with the part at step s replaced by nb (<<>> = taken away)      *)
Rebuild(c, s, nb) ==
    LET ty == TyOf[c.t] IN
    CASE s.k = "f" ->
            LET v == Val(c).v
                sl == Slots(c)
                fs == [j \in 1..Len(ty.f) |->
                        LET x == IF ty.f[j].n = s.n THEN nb ELSE sl.f[j]
                        IN IF ty.f[j].hd /\ x # <<>> /\ x = EncField(ty, ty.f[j], v, ty.f[j].def) THEN <<>> ELSE x]
            IN WithHeader(c, 1, IF ty.k = "set" THEN Concat(SortTags(fs)) ELSE Concat(fs) \o Concat(sl.x))
      [] s.k = "i" ->
            LET ps == Pieces(c)
                new == SelectSeq(IF s.i > Len(ps) THEN Append(ps, nb) ELSE [ps EXCEPT ![s.i] = nb], LAMBDA x : x # <<>>)
            IN WithHeader(c, 1, Concat(IF ty.k = "setof" THEN SortLex(new) ELSE new))
      [] s.k = "c" -> WrapEx(AllEx(ty, c.ex), nb)
      [] s.k = "p" -> WithHeader(c, 0, (IF ty.k = "pbits" THEN <<0>> ELSE <<>>) \o nb)

RECURSIVE Put(_, _, _), PlaceAt(_, _)
Put(c, path, nb) == IF path = <<>> THEN nb ELSE Rebuild(c, path[1], Put(ChildCtx(c, path[1]), Tail(path), nb))
PlaceAt(c, path) == IF path = <<>> THEN c ELSE PlaceAt(ChildCtx(c, path[1]), Tail(path))

(* ------------------------------------------------ the heap -------------- *)
(* st.rs: roots, st.hs: handles [r |-> index of root, path |-> steps]        *)
Place(st, h) == PlaceAt(st.rs[st.hs[h].r], st.hs[h].path)
(* replacing (nb # <<>>) or taking away the part at step s of handle h       *)
EditAt(st, h, s, nb) ==
    LET hd == st.hs[h]
        c == Place(st, h)
        root == st.rs[hd.r]
        full == Append(hd.path, s)
        old == ChildCtx(c, s)
        n == Len(full)
        goes(x) == x.r = hd.r /\ IsPrefix(full, x.path)
        later(x) == /\ s.k = "i" /\ nb = <<>> /\ x.r = hd.r /\ Len(x.path) >= n /\ SubSeq(x.path, 1, n - 1) = hd.path
                    /\ x.path[n].k = "i" /\ x.path[n].i > s.i
    IN [st EXCEPT
        !.rs = Append([@ EXCEPT ![hd.r] = [root EXCEPT !.b = Put(root, full, nb)]], old),
        !.hs = [j \in 1..Len(st.hs) |->
                 LET x == st.hs[j] IN
                 IF goes(x) THEN [r |-> Len(st.rs) + 1, path |-> SubSeq(x.path, n + 1, Len(x.path))]
                 ELSE IF later(x) THEN [x EXCEPT !.path = [@ EXCEPT ![n] = [@ EXCEPT !.i = @ - 1]]]
                 ELSE x]]
NewRoot(st, c) == [st EXCEPT !.rs = Append(@, c), !.hs = Append(@, [r |-> Len(st.rs) + 1, path |-> <<>>])]
NewHandle(st, h, s) == [st EXCEPT !.hs = Append(@, [r |-> st.hs[h].r, path |-> Append(st.hs[h].path, s)])]

(* the octets a value v gets as the part at step s of place c                *)
EncAs(c, s, v) ==
    LET ty == TyOf[c.t] IN
    CASE s.k = "f" -> EncField(ty, FieldOf(ty, s.n), Val(c).v, v)
      [] s.k = "i" -> EncT(ty.of, <<>>, <<>>, v)
=============================================================================
