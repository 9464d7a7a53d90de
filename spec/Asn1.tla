-------------------------------- MODULE Asn1 --------------------------------
(* Encoding rules over the type tables: Enc (value -> DER), Dec (BER ->     *)
(* value) and NatOf (value -> what .native shows).                          *)
EXTENDS Schema, UserTypes, Ip, Curves

TyNames == UNION {DOMAIN S_all[j] : j \in 1..Len(S_all)} \cup DOMAIN S_user
TyOf == ([n \in TyNames |->
            IF n \in DOMAIN S_user THEN S_user[n]
            ELSE LET j == CHOOSE j \in 1..Len(S_all) : n \in DOMAIN S_all[j] IN S_all[j][n]])

(* ------------------------------------------------ registered names ------ *)
OidTypes == {n \in TyNames : TyOf[n].k = "oid"}
OidPairs == ([n \in OidTypes |-> ([j \in 1..Len(TyOf[n].om) |-> <<(OidC(ArcsOf(TyOf[n].om[j][1]))), TyOf[n].om[j][2]>>])])
OidNameOf == ([n \in OidTypes |-> LET p == OidPairs[n] IN
                 ([c \in {p[j][1] : j \in 1..Len(p)} |-> p[CHOOSE j \in 1..Len(p) : p[j][1] = c][2]])])
(* of several OIDs with one name the last one listed is the one written     *)
OidContOf == ([n \in OidTypes |-> LET p == OidPairs[n] IN
                 ([s \in {p[j][2] : j \in 1..Len(p)} |->
                    p[CHOOSE j \in 1..Len(p) : p[j][2] = s /\ \A q \in (j + 1)..Len(p) : p[q][2] # s][1]])])
NumIx(m, s) == LET js == {j \in 1..Len(m) : m[j][2] = s} IN IF js = {} THEN -1 ELSE CHOOSE j \in js : \A q \in js : q <= j
NumName(m, n) == LET js == {j \in 1..Len(m) : m[j][1] = n} IN IF js = {} THEN "" ELSE m[CHOOSE j \in js : TRUE][2]

(* RFC 4055 section 2.1 and 5, RFC 5754, RFC 3279 section 2.2.1: parameters  *)
(* MUST be NULL                                                             *)
NullAlgos == {(OidC(ArcsOf(x))) : x \in {
    <<1,2,840,113549,1,1,1>>, <<1,2,840,113549,1,1,2>>, <<1,2,840,113549,1,1,4>>, <<1,2,840,113549,1,1,5>>, <<1,2,840,113549,1,1,11>>, <<1,2,840,113549,1,1,12>>, <<1,2,840,113549,1,1,13>>,
    <<1,2,840,113549,1,1,14>>, <<1,3,14,3,2,26>>, <<2,16,840,1,101,3,4,2,4>>, <<2,16,840,1,101,3,4,2,1>>,
    <<2,16,840,1,101,3,4,2,2>>, <<2,16,840,1,101,3,4,2,3>>}}

(* ------------------------------------------------ tags ------------------ *)
UnivTag == [bool |-> 1, int |-> 2, iocts |-> 4, bits |-> 3, obits |-> 3, ibits |-> 3, pbits |-> 3, octets |-> 4, pocts |-> 4, ip |-> 4,
            null |-> 5, oid |-> 6, enum |-> 10, utf8 |-> 12, seq |-> 16, seqof |-> 16, set |-> 17, setof |-> 17,
            numeric |-> 18, printable |-> 19, teletex |-> 20, nrteletex |-> 20, videotex |-> 21, ia5 |-> 22, dns |-> 22, uri |-> 22,
            email |-> 22, utc |-> 23, gen |-> 24, graphic |-> 25, visible |-> 26, general |-> 27, universal |-> 28, character |-> 29, bmp |-> 30]
UnivName == (1 :> "core_Boolean") @@ (2 :> "core_Integer") @@ (3 :> "core_BitString") @@ (4 :> "core_OctetString") @@ (5 :> "core_Null")
    @@ (6 :> "core_ObjectIdentifier") @@ (10 :> "core_Enumerated") @@ (12 :> "core_UTF8String") @@ (16 :> "core_Sequence") @@ (17 :> "core_Set")
    @@ (18 :> "core_NumericString") @@ (19 :> "core_PrintableString") @@ (20 :> "core_TeletexString") @@ (21 :> "core_VideotexString")
    @@ (22 :> "core_IA5String") @@ (23 :> "core_UTCTime") @@ (24 :> "core_GeneralizedTime") @@ (25 :> "core_GraphicString")
    @@ (26 :> "core_VisibleString") @@ (27 :> "core_GeneralString") @@ (28 :> "core_UniversalString") @@ (29 :> "core_CharacterString") @@ (30 :> "core_BMPString")
Constructed == {"seq", "set", "seqof", "setof"}
OctLike == {"octets", "pocts", "iocts", "ip", "videotex"}
BitLike == {"bits", "obits", "ibits", "pbits"}
StringLike == OctLike \cup BitLike \cup StrKinds \cup {"utc", "gen"}

BaseTag(ty, im) == IF im # <<>> THEN im ELSE IF ty.im # <<>> THEN ty.im ELSE <<0, UnivTag[ty.k]>>
AllEx(ty, ex) == ex \o ty.ex          \* outermost first

RECURSIVE WrapEx(_, _)
WrapEx(ex, bytes) == IF ex = <<>> THEN bytes
                     ELSE Wrap(ex[1][1], 1, T(ex[1][2]), WrapEx(Tail(ex), bytes))

(* identifier pairs an element of this type may start with; AnyTag = any    *)
AnyTag == {<<9, 9>>}
RECURSIVE OuterTags(_, _, _)
OuterTags(tn, im, ex) ==
    LET ty == TyOf[tn]
        e == AllEx(ty, ex)
    IN IF e # <<>> THEN {e[1]}
       ELSE IF ty.k = "any" THEN AnyTag
       ELSE IF ty.k = "choice" THEN UNION {OuterTags(ty.f[j].t, ty.f[j].im, ty.f[j].ex) : j \in 1..Len(ty.f)}
       ELSE {BaseTag(ty, im)}
TagIn(e, S) == S = AnyTag \/ \E s \in S : s[1] = e.cls /\ T(s[2]) = e.tag

(* ------------------------------------------------ governed members ------ *)
(* the registered name (or "") and OID contents of the governing member     *)
RECURSIVE PathType(_, _)
FieldOf(ty, n) == ty.f[CHOOSE j \in 1..Len(ty.f) : ty.f[j].n = n]
PathType(ty, path) == LET f == FieldOf(ty, path[1]) IN IF Len(path) = 1 THEN f.t ELSE PathType(TyOf[f.t], Tail(path))
RECURSIVE PathVal(_, _)
PathVal(m, path) == LET v == Get(m, path[1]) IN IF Len(path) = 1 THEN v ELSE IF v.k = "map" THEN PathVal(v, Tail(path)) ELSE VNone
OidContents(tn, v) ==
    CASE v.k = "name" -> OidContOf[tn][v.s]
      [] v.k = "oid"  -> OidC(v.a)
      [] v.k = "oidc" -> v.o
      [] OTHER -> <<>>
NameOf(tn, v) ==
    LET ty == TyOf[tn] IN
    IF ty.k = "oid" THEN LET c == OidContents(tn, v) IN IF c \in DOMAIN OidNameOf[tn] THEN OidNameOf[tn][c] ELSE ""
    ELSE IF v.k = "name" THEN v.s
    ELSE IF v.k = "int" THEN NumName(ty.m, IF Len(v.m) > 3 THEN -1 ELSE SmallInt(v))
    ELSE ""
Tab(tab, n) == LET js == {j \in 1..Len(tab) : tab[j][1] = n} IN IF js = {} THEN "" ELSE tab[CHOOSE j \in js : TRUE][2]
(* [t |-> type, in |-> wrapped in the octets of the declared string type]   *)
Resolve(ty, f, m) ==
    IF ty.g.of # f.n THEN [t |-> f.t, in |-> FALSE, known |-> FALSE]
    ELSE LET pt == PathType(ty, ty.g.by)
             pv == PathVal(m, ty.g.by)
             n == NameOf(pt, pv)
             t == Tab(ty.g.tab, n)
         IN IF n # "" /\ t # "" THEN
                LET fk == TyOf[f.t].k
                    w == fk = "pocts" \/ (fk = "pbits" /\ TyOf[t].k \notin {"obits"})
                IN [t |-> t, in |-> w, known |-> TRUE]
            ELSE IF ty.np /\ OidContents(pt, pv) \in NullAlgos THEN [t |-> "core_Null", in |-> FALSE, known |-> TRUE]
            ELSE [t |-> f.t, in |-> FALSE, known |-> FALSE]

(* ------------------------------------------------ encoding -------------- *)
(* canonical SET order: by identifier, class first                          *)
TagKey(b) == LET e == Parse(b) IN <<e.cls>> \o <<Len(e.tag)>> \o e.tag
RECURSIVE InsertTag(_, _)
InsertTag(x, s) == IF s = <<>> THEN <<x>>
                   ELSE IF CmpLex(TagKey(x), TagKey(Head(s))) <= 0 THEN <<x>> \o s ELSE <<Head(s)>> \o InsertTag(x, Tail(s))
SortTags(ms) == FoldLeft(LAMBDA a, x : InsertTag(x, a), <<>>, SelectSeq(ms, LAMBDA x : x # <<>>))

RECURSIVE EncT(_, _, _, _), Contents(_, _), EncMembers(_, _), CanonAny(_)
Enc(tn, v) == EncT(tn, <<>>, <<>>, v)

AltIx(ty, n) == CHOOSE j \in 1..Len(ty.f) : ty.f[j].n = n

EncT(tn, im, ex, v) ==
    LET ty == TyOf[tn]
        e == AllEx(ty, ex)
    IN IF ty.k = "any" THEN WrapEx(e, IF v.k = "raw" THEN CanonAny(v.o) ELSE EncT(v.n, <<>>, <<>>, v.v))
       ELSE IF ty.k = "choice" THEN
            LET a == ty.f[AltIx(ty, v.n)] IN WrapEx(e, EncT(a.t, a.im, a.ex, v.v))
       ELSE LET bt == BaseTag(ty, im) IN
            WrapEx(e, Wrap(bt[1], IF ty.k \in Constructed THEN 1 ELSE 0, T(bt[2]), Contents(tn, v)))

NumContents(ty, v) ==
    IF v.k = "name" THEN IntC(IntOf(ty.m[NumIx(ty.m, v.s)][1])) ELSE IntC(v)

NamedBits(ty, v) ==     \* value bits of a named bit list, without trailing zeros
    IF v.k = "bits" THEN StripTrailZ(v.bits)
    ELSE LET on == {ty.m[NumIx(ty.m, v.ns[j])][1] : j \in 1..Len(v.ns)} \cup {v.ix[j] : j \in 1..Len(v.ix)}
             top == IF on = {} THEN -1 ELSE CHOOSE x \in on : \A y \in on : y <= x
         IN [j \in 1..(top + 1) |-> IF (j - 1) \in on THEN 1 ELSE 0]

Contents(tn, v) ==
    LET ty == TyOf[tn] IN
    CASE ty.k = "bool" -> IF v.b THEN <<255>> ELSE <<0>>
      [] ty.k \in {"int", "enum"} -> NumContents(ty, v)
      [] ty.k = "null" -> <<>>
      [] ty.k = "oid" -> OidContents(tn, v)
      [] ty.k = "bits" -> IF ty.m # <<>> THEN BitC(NamedBits(ty, v)) ELSE BitC(v.bits)
      [] ty.k = "obits" -> IF v.k = "bits" THEN BitC(v.bits) ELSE <<0>> \o v.o
      [] ty.k = "pbits" -> IF v.k = "bits" THEN BitC(v.bits) ELSE IF v.k = "oct" THEN <<0>> \o v.o ELSE <<0>> \o EncT(v.n, <<>>, <<>>, v.v)
      [] ty.k = "ibits" -> IF v.k = "bits" THEN BitC(v.bits) ELSE IF v.k = "oct" THEN <<0>> \o v.o ELSE <<0>> \o IntC(v)
      [] ty.k = "octets" -> v.o
      [] ty.k = "videotex" -> v.o
      [] ty.k = "ip" -> v.o
      [] ty.k = "pocts" -> IF v.k = "oct" THEN v.o ELSE EncT(v.n, <<>>, <<>>, v.v)
      [] ty.k = "iocts" -> IF v.k = "oct" THEN v.o ELSE UIntC(v.m)
      [] ty.k \in StrKinds -> IF v.k = "oct" THEN v.o ELSE StrEnc(ty.k, v.c).c
      [] ty.k = "utc" -> IF v.k = "oct" THEN v.o ELSE UtcC(v.t)
      [] ty.k = "gen" -> IF v.k = "oct" THEN v.o ELSE GenC(v.t)
      [] ty.k = "seqof" -> Concat([j \in 1..Len(v.l) |-> EncT(ty.of, <<>>, <<>>, v.l[j])])
      [] ty.k = "setof" -> Concat(SortLex([j \in 1..Len(v.l) |-> EncT(ty.of, <<>>, <<>>, v.l[j])]))
      [] ty.k = "seq" -> LET ms == EncMembers(ty, v) IN
                         Concat(ms) \o Concat([j \in 1..Len(v.f) |-> IF v.f[j].v.k = "extra" THEN v.f[j].v.o ELSE <<>>])
      [] ty.k = "set" -> Concat(SortTags(EncMembers(ty, v)))

(* width of a private key from its domain parameters, 0 if they say nothing *)
KeyWidth(p) ==
    IF p.k # "ch" THEN 0
    ELSE IF p.n = "named" THEN LET n == NameOf("keys_NamedCurve", p.v) IN IF n \in DOMAIN CurveSize THEN CurveSize[n] ELSE 0
    ELSE IF p.n = "specified" THEN LET x == Get(p.v, "order").m IN
        \* octets of order - 1
        IF x[1] = 1 /\ Len(x) > 1 /\ \A j \in 2..Len(x) : x[j] = 0 THEN Len(x) - 1 ELSE Len(x)
    ELSE 0
FixWidth(v, w) == LET c == UIntC(v.m) IN VOct(Rep(0, MaxOf(0, w - Len(c))) \o c)
EncField(ty, f, m, v0) ==
    LET r == Resolve(ty, f, m)
        v == IF ty.fw /\ f.n = "private_key" /\ v0.k = "int" THEN FixWidth(v0, KeyWidth(Get(m, "parameters")))
             ELSE IF r.known /\ r.t = "keys_ECPrivateKey" /\ v0.k = "map" /\ Get(v0, "private_key").k = "int" /\ Get(m, "private_key_algorithm").k = "map"
             THEN LET w == KeyWidth(Get(Get(m, "private_key_algorithm"), "parameters")) IN
                  IF w = 0 THEN v0 ELSE VMap([j \in 1..Len(v0.f) |-> IF v0.f[j].n = "private_key" THEN P(v0.f[j].n, FixWidth(v0.f[j].v, w)) ELSE v0.f[j]])
             ELSE v0
    IN
    IF v.k = "none" /\ ty.np /\ ty.g.of = f.n /\ r.t = "core_Null" /\ r.known /\ OidContents(PathType(ty, ty.g.by), PathVal(m, ty.g.by)) \in NullAlgos
    THEN EncT("core_Null", f.im, f.ex, VNull)
    ELSE IF v.k \in {"none", "void"} THEN <<>>
    ELSE IF r.in THEN EncT(f.t, f.im, f.ex, VTyped(r.t, v))
    ELSE EncT(r.t, f.im, f.ex, v)
EncMembers(ty, m) ==
    [j \in 1..Len(ty.f) |->
        LET f == ty.f[j]
            enc == EncField(ty, f, m, Get(m, f.n))
        IN IF f.hd /\ enc # <<>> /\ enc = EncField(ty, f, m, f.def) THEN <<>> ELSE enc]

(* a value the type has an encoding for: required members present           *)
Complete(ty, m) == \A j \in 1..Len(ty.f) :
    (~ty.f[j].opt /\ ~ty.f[j].hd) => EncField(ty, ty.f[j], m, Get(m, ty.f[j].n)) # <<>>

(* ------------------------------------------------ decoding -------------- *)
DErr(w) == [ok |-> FALSE, why |-> w, v |-> VNone, end |-> 0]
DOk(v, e) == [ok |-> TRUE, why |-> "", v |-> v, end |-> e]

(* contents octets of a string value: the chunks of a constructed one       *)
(* joined; chunk tag = OCTET STRING (X.690 8.21) or the type's own          *)
(* certificates in the field have UTF8String or PrintableString where a DNS *)
(* name or mail address (IA5String) belongs: reading them is the library's choice *)
OtherString(e) == e.cls = 0 /\ e.tag \in {T(12), T(19)}
RECURSIVE Chunks(_, _, _, _, _)
Chunks(b, p, n, tags, acc) ==
    IF p > n THEN [ok |-> TRUE, why |-> "", cs |-> acc]
    ELSE LET e == ParseAt(b, p, n, 0) IN
         IF ~e.ok THEN [ok |-> FALSE, why |-> "chunk", cs |-> acc]
         ELSE IF ~(\E t \in tags : e.cls = t[1] /\ e.tag = T(t[2])) THEN
              [ok |-> FALSE, why |-> IF OtherString(e) /\ <<0, 22>> \in tags THEN "tag of another string" ELSE "chunk", cs |-> acc]
         ELSE IF e.cls # 0 \/ (e.tag # T(3) /\ e.tag # T(4)) THEN [ok |-> FALSE, why |-> "chunk with the tag of the string", cs |-> acc]
         ELSE IF e.con = 0 THEN Chunks(b, e.end, n, tags, Append(acc, SubSeq(b, e.hend, e.cend - 1)))
         ELSE LET q == Chunks(b, e.hend, e.cend - 1, tags, acc) IN
              IF ~q.ok THEN q ELSE Chunks(b, e.end, n, tags, q.cs)

(* a failed element carries ok = FALSE through the folds below              *)
RECURSIVE DecE(_, _, _, _, _, _)
DecEl(ty, tn, im, b, e, p) ==
    LET bt == BaseTag(ty, im) IN
    IF e.cls # bt[1] \/ e.tag # T(bt[2]) THEN DErr(IF ty.k \in {"dns", "email"} /\ bt = <<0, 22>> /\ OtherString(e) THEN "tag of another string" ELSE "tag")
    ELSE IF ty.k \in Constructed /\ e.con = 0 THEN DErr("primitive form of a constructed type")
    ELSE IF ty.k \notin (Constructed \cup StringLike) /\ e.con = 1 THEN DErr("constructed form of a primitive type")
    ELSE IF ty.k \in StringLike THEN
        LET tags == {<<0, UnivTag[ty.k]>>, bt, <<0, IF ty.k \in BitLike THEN 3 ELSE 4>>}
            ch == IF e.con = 0 THEN [ok |-> TRUE, why |-> "", cs |-> <<SubSeq(b, e.hend, e.cend - 1)>>]
                  ELSE Chunks(b, e.hend, e.cend - 1, tags, <<>>)
        IN IF ~ch.ok THEN DErr(ch.why)
           ELSE IF ty.k \in BitLike THEN
                IF ch.cs = <<>> THEN DOk(VBitSeq(<<>>), e.end)
                ELSE IF \E j \in 1..Len(ch.cs) : ~BitOk(ch.cs[j]) \/ (j < Len(ch.cs) /\ ch.cs[j][1] # 0) THEN DErr("unused bits")
                ELSE IF ty.k = "pbits" /\ Last1(ch.cs)[1] # 0 THEN DErr("unused bits before an encoded value")
                ELSE LET c == <<Last1(ch.cs)[1]>> \o Concat([j \in 1..Len(ch.cs) |-> Tail(ch.cs[j])])
                     IN IF ty.k # "bits" /\ c[1] = 0 THEN DOk(VOct(Tail(c)), e.end) ELSE DOk(VBitSeq(BitVal(c)), e.end)
           ELSE LET c == Concat(ch.cs) IN
                IF ty.k \in StrKinds /\ ~StrDec(ty.k, c).ok THEN DErr(IF ty.k = "email" THEN "octets outside the character set of an address" ELSE "octets outside the character set")
                ELSE IF ty.k = "ip" /\ ~IpOk(c) THEN DErr("octets that are not an address")
                ELSE IF ty.k \in {"utc", "gen"} THEN
                    LET d == IF ty.k = "utc" THEN UtcParse(c) ELSE GenParse(c) IN
                    IF ~d.ok THEN DErr("text that is not a time")
                    ELSE IF d.t.off = NoTz THEN DOk(VOct(c), e.end) ELSE DOk(VTime(d.t), e.end)
                ELSE DOk(VOct(c), e.end)
    ELSE LET c == SubSeq(b, e.hend, e.cend - 1) IN
    CASE ty.k = "bool" -> IF Len(c) # 1 THEN DErr("boolean contents") ELSE DOk(VBool(c[1] # 0), e.end)
      [] ty.k \in {"int", "enum"} ->
            IF c = <<>> THEN DErr("integer contents")
            ELSE IF ty.k = "enum" /\ ty.m # <<>> /\ (Len(c) > 3 \/ NumName(ty.m, SmallInt(IntVal(c))) = "") THEN DErr("number that is not in the enumeration")
            ELSE DOk(VNum(IntVal(c)), e.end)
      [] ty.k = "null" -> IF c # <<>> THEN DErr("null contents") ELSE DOk(VNull, e.end)
      [] ty.k = "oid" -> IF ~OidOk(c) THEN DErr("oid contents") ELSE DOk([k |-> "oidc", o |-> c], e.end)

(* the elements between p and n: <<element, first position>> pairs          *)
Elements(b, p, n) ==
    FoldLeft(LAMBDA st, x :
                IF ~st.ok \/ st.p > n THEN st
                ELSE LET e == ParseAt(b, st.p, n, 0) IN
                     IF ~e.ok THEN [st EXCEPT !.ok = FALSE, !.why = e.why]
                     ELSE [st EXCEPT !.p = e.end, !.els = Append(st.els, <<e, st.p>>)],
             [ok |-> TRUE, why |-> "", p |-> p, els |-> <<>>], [q \in 1..((n - p + 2) \div 2) |-> q])

DecField(ty, f, r, b, e, p) ==
    IF r.in THEN
        LET o == DecE(f.t, f.im, f.ex, b, e, p) IN
        IF ~o.ok THEN o
        ELSE IF o.v.k # "oct" THEN DErr("unused bits before an encoded value")
        ELSE LET g == ParseAt(o.v.o, 1, Len(o.v.o), 0) IN
             IF ~g.ok THEN DErr(g.why)
             ELSE IF g.end # Len(o.v.o) + 1 THEN DErr("octets after the wrapped value")
             ELSE LET d == DecE(r.t, <<>>, <<>>, o.v.o, g, 1) IN IF d.ok THEN DOk(d.v, e.end) ELSE d
    ELSE DecE(r.t, f.im, f.ex, b, e, p)

Void == [k |-> "void"]
(* members in declared order; els[x] is the next element not yet taken      *)
DecSeq(ty, b, els) ==
    LET step(st, f) ==
            IF ~st.ok THEN st
            ELSE LET skip == f.opt \/ f.hd
                     absent == [st EXCEPT !.acc = Append(@, P(f.n, Void))]
                 IN IF st.x > Len(els) THEN IF skip THEN absent ELSE [st EXCEPT !.ok = FALSE, !.why = "missing member " \o f.n]
                    ELSE LET e == els[st.x][1]
                             r == Resolve(ty, f, VMap(st.acc))
                         IN IF ~TagIn(e, OuterTags(f.t, f.im, f.ex))
                            THEN IF skip THEN absent ELSE [st EXCEPT !.ok = FALSE, !.why = "unexpected element for member " \o f.n]
                            ELSE LET d == DecField(ty, f, r, b, e, els[st.x][2]) IN
                                 IF d.ok THEN [st EXCEPT !.x = @ + 1, !.acc = Append(@, P(f.n, d.v))]
                                 ELSE [st EXCEPT !.ok = FALSE, !.why = d.why]
        r == FoldLeft(step, [ok |-> TRUE, why |-> "", x |-> 1, acc |-> <<>>], ty.f)
        rest == Len(els) - r.x + 1
    IN IF ~r.ok THEN DErr(r.why)
       ELSE DOk(VMap(r.acc \o [q \in 1..rest |->
                P(ToString(Len(ty.f) + q - 1), [k |-> "extra", o |-> SubSeq(b, els[r.x + q - 1][2], els[r.x + q - 1][1].end - 1)])]), 0)
DecSet(ty, b, els) ==
    LET step(st, el) ==
            IF ~st.ok THEN st
            ELSE LET js == {j \in 1..Len(ty.f) : TagIn(el[1], OuterTags(ty.f[j].t, ty.f[j].im, ty.f[j].ex))} IN
                 IF js = {} THEN [st EXCEPT !.ok = FALSE, !.why = "unknown member of a set"]
                 ELSE LET f == ty.f[CHOOSE j \in js : \A q \in js : j <= q] IN
                      IF Has(VMap(st.acc), f.n) THEN [st EXCEPT !.ok = FALSE, !.why = "member of a set twice"]
                      ELSE LET d == DecField(ty, f, [t |-> f.t, in |-> FALSE], b, el[1], el[2]) IN
                           IF d.ok THEN [st EXCEPT !.acc = Append(@, P(f.n, d.v))] ELSE [st EXCEPT !.ok = FALSE, !.why = d.why]
        r == FoldLeft(step, [ok |-> TRUE, why |-> "", acc |-> <<>>], els)
        m == VMap(r.acc)
    IN IF ~r.ok THEN DErr(r.why)
       ELSE IF \E j \in 1..Len(ty.f) : ~Has(m, ty.f[j].n) /\ ~ty.f[j].opt /\ ~ty.f[j].hd THEN DErr("missing member of a set")
       ELSE DOk(VMap([j \in 1..Len(ty.f) |-> P(ty.f[j].n, IF Has(m, ty.f[j].n) THEN Get(m, ty.f[j].n) ELSE Void)]), 0)
DecOf(ty, b, els) ==
    LET ds == [q \in 1..Len(els) |-> DecE(ty.of, <<>>, <<>>, b, els[q][1], els[q][2])]
        bad == {q \in 1..Len(els) : ~ds[q].ok}
    IN IF bad # {} THEN ds[CHOOSE q \in bad : TRUE] ELSE DOk(VList([q \in 1..Len(els) |-> ds[q].v]), 0)

(* decode the parsed element e, which starts at p, as type tn               *)
DecE(tn, im, ex, b, e0, p0) ==
    LET ty == TyOf[tn]
        allex == AllEx(ty, ex)
        peel == FoldLeft(LAMBDA st, x :
                    IF ~st.ok THEN st
                    ELSE IF st.e.cls # x[1] \/ st.e.tag # T(x[2]) \/ st.e.con # 1 THEN [st EXCEPT !.ok = FALSE, !.why = "explicit tag"]
                    ELSE LET q == ParseAt(b, st.e.hend, st.e.cend - 1, 0) IN
                         IF ~q.ok THEN [st EXCEPT !.ok = FALSE, !.why = q.why]
                         ELSE IF q.end # st.e.cend THEN [st EXCEPT !.ok = FALSE, !.why = "more than one element under an explicit tag"]
                         ELSE [st EXCEPT !.e = q, !.p = st.e.hend],
                 [ok |-> TRUE, why |-> "", e |-> e0, p |-> p0], allex)
        e == peel.e
    IN IF ~peel.ok THEN DErr(peel.why)
       ELSE IF ty.k = "any" THEN DOk(VRaw(SubSeq(b, peel.p, e.end - 1)), e0.end)
       ELSE IF ty.k = "choice" THEN
            LET js == {j \in 1..Len(ty.f) : TagIn(e, OuterTags(ty.f[j].t, ty.f[j].im, ty.f[j].ex))} IN
            IF js = {} THEN DErr("no alternative")
            ELSE LET a == ty.f[CHOOSE j \in js : \A q \in js : j <= q]
                     r == DecE(a.t, a.im, a.ex, b, e, peel.p)
                 IN IF r.ok THEN DOk(VCh(a.n, r.v), e0.end) ELSE r
       ELSE IF ty.k \in Constructed THEN
            LET bt == BaseTag(ty, im) IN
            IF e.cls # bt[1] \/ e.tag # T(bt[2]) THEN DErr("tag")
            ELSE IF e.con = 0 THEN DErr("primitive form of a constructed type")
            ELSE LET es == Elements(b, e.hend, e.cend - 1) IN
                 IF ~es.ok THEN DErr(es.why)
                 ELSE LET r == CASE ty.k = "seq" -> DecSeq(ty, b, es.els)
                                 [] ty.k = "set" -> DecSet(ty, b, es.els)
                                 [] OTHER -> DecOf(ty, b, es.els)
                      IN IF r.ok THEN DOk(r.v, e0.end) ELSE r
       ELSE LET r == DecEl(ty, tn, im, b, e, peel.p) IN IF r.ok THEN DOk(r.v, e0.end) ELSE r

(* with the tagging a member or a parameter adds                            *)
DecP(tn, im, ex, b) ==
              LET e == Parse(b) IN
              IF ~e.ok THEN DErr(e.why)
              ELSE IF e.end # Len(b) + 1 THEN DErr("octets after the value")
              ELSE DecE(tn, im, ex, b, e, 1)
Dec(tn, b) == DecP(tn, <<>>, <<>>, b)

(* has the value's own encoding (its explicit tags included) an indefinite  *)
(* length, or is it a string in constructed form?                           *)
Indef(e) == e.end # e.cend
RECURSIVE LooseE(_, _, _, _, _), LooseIn(_, _, _, _, _)
LooseE(tn, im, ex, b, e) ==
    LET ty == TyOf[tn]
        allex == AllEx(ty, ex)
    IN IF Indef(e) THEN TRUE
       ELSE IF allex # <<>> THEN
            LET q == ParseAt(b, e.hend, e.cend - 1, 0) IN
            IF ~q.ok THEN FALSE
            ELSE IF ex # <<>> THEN LooseE(tn, im, Tail(ex), b, q)
            ELSE LooseIn(ty, im, Tail(ty.ex), b, q)
       ELSE LooseIn(ty, im, <<>>, b, e)
LooseIn(ty, im, ex, b, e) ==
    IF Indef(e) THEN TRUE
    ELSE IF ex # <<>> THEN LET q == ParseAt(b, e.hend, e.cend - 1, 0) IN q.ok /\ LooseIn(ty, im, Tail(ex), b, q)
    ELSE IF ty.k = "any" THEN \E t \in {e.tag} : e.cls = 0 /\ e.con = 1 /\ ~(\E c \in {16, 17} : t = T(c))
    ELSE IF ty.k = "choice" THEN
         LET js == {j \in 1..Len(ty.f) : TagIn(e, OuterTags(ty.f[j].t, ty.f[j].im, ty.f[j].ex))} IN
         js # {} /\ LET a == ty.f[CHOOSE j \in js : \A q \in js : j <= q] IN LooseE(a.t, a.im, a.ex, b, e)
    ELSE ty.k \in StringLike /\ e.con = 1
Loose(tn, im, ex, b) == LooseE(tn, im, ex, b, Parse(b))

(* ------------------------------------------------ native values --------- *)
(* expected natives use [k |-> "name"] for text the table spells out        *)
NNone == [k |-> "none"]
RECURSIVE NatOf(_, _), NatSeq(_, _), Unknown(_)
(* Name: {type: value or [values]} in order of first appearance             *)
NameKey(p) == LET t == Get(p, "type") IN t.s
NatName(rdns) ==
    LET all == Concat([j \in 1..Len(rdns.l) |-> rdns.l[j].l])
        add(acc, p) ==
            LET n == NameKey(p)
                x == Get(p, "value")
                js == {j \in 1..Len(acc) : acc[j].n = n}
            IN IF js = {} THEN Append(acc, P(n, x))
               ELSE LET j == CHOOSE j \in js : TRUE IN
                    [acc EXCEPT ![j].v = IF @.k = "list" THEN VList(Append(@.l, x)) ELSE VList(<<@, x>>)]
    IN IF Unknown(rdns) THEN [k |-> "unknown"]
       ELSE IF \A j \in 1..Len(rdns.l) : Len(rdns.l[j].l) <= 1 THEN [k |-> "map", f |-> FoldLeft(add, <<>>, all)]
       ELSE [k |-> "umap", f |-> FoldLeft(add, <<>>, all)]

(* the octets an open type has kept: the DER of what a universal tag says   *)
(* they are, themselves if nothing does                                     *)
CanonAny(o) == LET e == Parse(o) IN
    IF ~e.ok \/ Len(e.tag) # 1 \/ e.cls # 0 \/ e.tag[1] \notin DOMAIN UnivName THEN o
    ELSE LET t == UnivName[e.tag[1]]
             d == Dec(t, o)
         IN IF d.ok THEN Enc(t, d.v) ELSE o
(* invalid contents that the library is free to read, as the type they are  *)
(* of or kept as they are under an open type                                *)
Tolerated == {"boolean contents", "integer contents", "null contents", "oid contents",
              "octets after the wrapped value", "tag of another string", "octets outside the character set of an address", "chunk with the tag of the string"}
RECURSIVE RawTolerated(_)
RawTolerated(v) ==
    CASE v.k \in {"raw", "extra"} -> LET e == Parse(v.o) IN
            IF ~e.ok THEN FALSE
            ELSE IF Len(e.tag) # 1 \/ e.cls # 0 \/ e.tag[1] \notin DOMAIN UnivName THEN TRUE
            ELSE LET d == Dec(UnivName[e.tag[1]], v.o) IN ~d.ok /\ d.why \in (Tolerated \cup {"constructed form of a primitive type"})
      [] v.k = "map" -> \E j \in 1..Len(v.f) : RawTolerated(v.f[j].v)
      [] v.k = "list" -> \E j \in 1..Len(v.l) : RawTolerated(v.l[j])
      [] v.k \in {"ch", "typed"} -> RawTolerated(v.v)
      [] OTHER -> FALSE
NatAny(o) == LET e == Parse(o) IN
    IF Len(e.tag) > 1 \/ e.tag = <<>> \/ e.cls # 0 THEN [k |-> "unknown"]
    ELSE IF e.tag[1] \notin DOMAIN UnivName THEN [k |-> "unknown"]
    ELSE LET t == UnivName[e.tag[1]]
             d == Dec(t, o)
         IN IF ~d.ok THEN [k |-> "unknown"] ELSE NatOf(t, d.v)
NatNamedBits(ty, v) ==
    LET b == NamedBits(ty, v)
        on == {j \in 1..Len(b) : b[j] = 1}
        nm == {j \in on : NumName(ty.m, j - 1) # ""}
    IN [k |-> "nset", names |-> {NumName(ty.m, j - 1) : j \in nm}, nums |-> {j - 1 : j \in on \ nm}]
NatOf(tn, v) ==
    LET ty == TyOf[tn] IN
    IF v.k \in {"none", "void"} THEN NNone
    ELSE
    CASE ty.k = "any" -> IF v.k = "raw" THEN NatAny(v.o) ELSE NatOf(v.n, v.v)
      [] ty.k = "choice" -> LET a == ty.f[AltIx(ty, v.n)] IN
            IF tn = "x509_Name" THEN NatName(NatOf(a.t, v.v)) ELSE NatOf(a.t, v.v)
      [] ty.k = "bool" -> VBool(v.b)
      [] ty.k \in {"int", "enum"} ->
            IF v.k = "name" THEN v
            ELSE LET s == IF Len(v.m) > 3 THEN "" ELSE NumName(ty.m, SmallInt(v)) IN
                 IF s # "" THEN VName(s) ELSE IF ty.k = "enum" /\ ty.m # <<>> THEN [k |-> "unknown"] ELSE VNum(v)
      [] ty.k = "null" -> IF ty.nn # "" THEN VName(ty.nn) ELSE NNone
      [] ty.k = "oid" -> LET c == OidContents(tn, v) IN
            IF c \in DOMAIN OidNameOf[tn] THEN VName(OidNameOf[tn][c]) ELSE VName(OidText(c))
      [] ty.k = "bits" -> IF ty.m # <<>> THEN NatNamedBits(ty, v) ELSE [k |-> "tuple", bits |-> v.bits]
      [] ty.k \in {"obits", "pbits", "octets", "pocts", "videotex"} ->
            IF v.k = "oct" THEN v ELSE IF v.k = "typed" THEN NatOf(v.n, v.v) ELSE VOct(BitsToBytes(v.bits))
      [] ty.k = "ibits" -> IF v.k = "int" THEN VNum(v) ELSE IF v.k = "oct" THEN VNum(Num(FALSE, StripZ(v.o)))
            ELSE VNum(Num(FALSE, StripZ(BitsToBytes(Rep(0, (8 - (Len(v.bits) % 8)) % 8) \o v.bits))))
      [] ty.k = "iocts" -> IF v.k = "int" THEN VNum(v) ELSE VNum(Num(FALSE, StripZ(v.o)))
      [] ty.k = "ip" -> VName(IpText(v.o))
      [] ty.k \in StrKinds -> IF v.k = "str" THEN v
            ELSE LET d == StrDec(ty.k, v.o) IN IF d.ok THEN VStr(d.c) ELSE [k |-> "unknown"]
      [] ty.k = "utc" -> IF v.k = "time" THEN v ELSE LET d == UtcParse(v.o) IN IF d.ok THEN VTime(d.t) ELSE [k |-> "unknown"]
      [] ty.k = "gen" -> IF v.k = "time" THEN v ELSE LET d == GenParse(v.o) IN IF d.ok THEN VTime(d.t) ELSE [k |-> "unknown"]
      [] ty.k = "seqof" -> VList([j \in 1..Len(v.l) |-> NatOf(ty.of, v.l[j])])
      [] ty.k = "setof" -> [k |-> "bag", l |-> [j \in 1..Len(v.l) |-> NatOf(ty.of, v.l[j])]]
      [] ty.k \in {"seq", "set"} -> [k |-> "map", f |-> NatSeq(ty, v) \o
            LET xs == SelectSeq(v.f, LAMBDA p : p.v.k = "extra") IN [j \in 1..Len(xs) |-> P(xs[j].n, NatAny(xs[j].v.o))]]
NatSeq(ty, m) ==
    [j \in 1..Len(ty.f) |->
        LET f == ty.f[j]
            v0 == Get(m, f.n)
            v == IF v0.k \in {"none", "void"} /\ f.hd THEN f.def ELSE v0
            r == Resolve(ty, f, m)
            nv == NatOf(r.t, v)
        IN P(f.n, nv)]
(* is there an element nothing is known about? reading it may be refused    *)
Unknown(x) == CASE x.k = "unknown" -> TRUE
                [] x.k \in {"list", "bag"} -> \E j \in 1..Len(x.l) : Unknown(x.l[j])
                [] x.k \in {"map", "umap"} -> \E j \in 1..Len(x.f) : Unknown(x.f[j].v)
                [] OTHER -> FALSE
(* does what the implementation showed (got) denote the expected native?    *)
RECURSIVE NatEq(_, _), BagEq(_, _)
(* every member of x is some member of g, each used once                      *)
BagEq(x, g) ==
    IF x = <<>> THEN g = <<>>
    ELSE LET qs == {q \in 1..Len(g) : NatEq(x[1], g[q])}
         IN IF qs = {} THEN FALSE ELSE LET q == CHOOSE q \in qs : \A p \in qs : q <= p IN BagEq(Tail(x), SubSeq(g, 1, q - 1) \o SubSeq(g, q + 1, Len(g)))
NatEq(x, g) ==
    CASE x.k = "unknown" -> TRUE
      [] x.k = "none" -> g.k = "none"
      [] x.k = "null" -> g.k = "none"
      [] x.k = "bool" -> g.k = "bool" /\ g.b = x.b
      [] x.k = "int" -> g.k = "int" /\ g.neg = x.neg /\ g.m = x.m
      [] x.k = "name" -> g.k = "str" /\ g.s = x.s
      [] x.k = "str" -> g.k = "str" /\ g.c = x.c
      [] x.k = "oct" -> g.k = "oct" /\ g.o = x.o
      [] x.k = "tuple" -> g.k = "tuple" /\ g.bits = x.bits
      [] x.k = "nset" -> g.k = "nset" /\ {g.ns[j] : j \in 1..Len(g.ns)} = x.names /\ {g.ix[j] : j \in 1..Len(g.ix)} = x.nums
      [] x.k = "time" -> g.k = "time" /\ CivilOk(g.t) /\ SameTime(x.t, g.t)
      [] x.k = "list" -> g.k = "list" /\ Len(g.l) = Len(x.l) /\ \A j \in 1..Len(x.l) : NatEq(x.l[j], g.l[j])
      [] x.k = "bag" -> g.k = "list" /\ Len(g.l) = Len(x.l) /\
            \/ \A j \in 1..Len(x.l) : NatEq(x.l[j], g.l[j])
            \/ BagEq(x.l, g.l)
      [] x.k = "map" -> g.k = "map" /\ Len(g.f) = Len(x.f) /\ \A j \in 1..Len(x.f) : x.f[j].n = g.f[j].n /\ NatEq(x.f[j].v, g.f[j].v)
      \* a set has no order: neither have the members of a multi-valued RDN
      [] x.k = "umap" -> g.k = "map" /\ Len(g.f) = Len(x.f) /\ \A j \in 1..Len(x.f) : \E q \in 1..Len(g.f) :
            x.f[j].n = g.f[q].n /\ NatEq(IF x.f[j].v.k = "list" THEN [k |-> "bag", l |-> x.f[j].v.l] ELSE x.f[j].v, g.f[q].v)
      [] OTHER -> FALSE
=============================================================================
