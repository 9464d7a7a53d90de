-------------------------------- MODULE Uri ----------------------------------
(* Internationalised identifiers and addresses: RFC 3986 (URI), RFC 3987      *)
(* (IRI), RFC 5280 sections 4.2.1.6, 4.2.1.10 and 7 (names in certificates).  *)
(* Text is a sequence of code points, stored forms are octets.                *)
EXTENDS Idna, IpText
U8 == INSTANCE Prim
Unreserved(c) == (48 <= c /\ c <= 57) \/ Alpha(c) \/ c \in {45, 46, 95, 126}
Sub == {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}             \* ! $ & ' ( ) * + , ; =
GenDelims == {58, 47, 63, 35, 91, 93, 64}                       \* : / ? # [ ] @
InUser == Sub
InPath == Sub \cup {58, 64, 47}
InQuery == InPath \cup {63}
Hex(c) == HexV(c) < 16
IsEsc(t, i) == i + 2 <= Len(t) /\ t[i] = 37 /\ Hex(t[i + 1]) /\ Hex(t[i + 2])
EscV(t, i) == HexV(t[i + 1]) * 16 + HexV(t[i + 2])
Surrogate(c) == 55296 <= c /\ c <= 57343
Utf8(c) == IF c < 128 THEN <<c>> ELSE U8!Utf8Of(c)

(* what a component means: a character that is there as itself is its code,   *)
(* an octet that is there escaped is 256 more.  An unreserved character means *)
(* the same either way; a character the component has no place for means its  *)
(* UTF-8 octets, escaped.                                                     *)
RECURSIVE Tokens_(_, _, _, _)
Tokens_(t, S, i, acc) ==
    IF i > Len(t) THEN acc
    ELSE IF IsEsc(t, i) THEN Tokens_(t, S, i + 3, Append(acc, IF Unreserved(EscV(t, i)) THEN EscV(t, i) ELSE 256 + EscV(t, i)))
    ELSE IF Unreserved(t[i]) \/ t[i] \in S THEN Tokens_(t, S, i + 1, Append(acc, t[i]))
    ELSE LET o == Utf8(t[i]) IN Tokens_(t, S, i + 1, acc \o [j \in DOMAIN o |-> 256 + o[j]])
Tokens(t, S) == Tokens_(t, S, 1, <<>>)

(* ---------------------------------------------- components ------------- *)
FirstOf(t, S) == LET ps == {i \in DOMAIN t : t[i] \in S} IN IF ps = {} THEN 0 ELSE Min(ps)
LastOf(t, c) == LET ps == {i \in DOMAIN t : t[i] = c} IN IF ps = {} THEN 0 ELSE Max(ps)
SchemeChar(c) == (48 <= c /\ c <= 57) \/ Alpha(c) \/ c \in {43, 45, 46}
From(t, i) == SubSeq(t, i, Len(t))
Upto(t, p) == IF p = 0 THEN t ELSE SubSeq(t, 1, p - 1)
After(t, p) == IF p = 0 THEN <<>> ELSE From(t, p + 1)
Components(t) ==
    LET p == FirstOf(t, {58})
        has == p > 1 /\ Alpha(t[1]) /\ \A i \in 1..(p - 1) : SchemeChar(t[i])
        r0 == IF has THEN From(t, p + 1) ELSE t
        auth == Len(r0) >= 2 /\ r0[1] = 47 /\ r0[2] = 47
        r1 == IF auth THEN From(r0, 3) ELSE r0
        e == IF auth THEN FirstOf(r1, {47, 63, 35}) ELSE 1
        netloc == IF auth THEN Upto(r1, e) ELSE <<>>
        r2 == IF ~auth THEN r1 ELSE IF e = 0 THEN <<>> ELSE From(r1, e)
        f == FirstOf(r2, {35})
        r3 == Upto(r2, f)
        q == FirstOf(r3, {63})
        at_ == LastOf(netloc, 64)
        ui == IF at_ = 0 THEN <<>> ELSE SubSeq(netloc, 1, at_ - 1)
        c == FirstOf(ui, {58})
        hp == From(netloc, at_ + 1)
        br == hp # <<>> /\ hp[1] = 91
        b == IF br THEN FirstOf(hp, {93}) ELSE 0
        hc == IF br THEN (IF b # 0 /\ b < Len(hp) THEN b + 1 ELSE 0) ELSE FirstOf(hp, {58})
    IN [net |-> netloc, scheme |-> IF has THEN LowerT(SubSeq(t, 1, p - 1)) ELSE <<>>, auth |-> auth, user |-> Upto(ui, c), pass |-> After(ui, c),
        br |-> br, brok |-> ~br \/ (b # 0 /\ (b = Len(hp) \/ hp[b + 1] = 58)),
        host |-> LowerT(IF br THEN SubSeq(hp, 2, (IF b = 0 THEN Len(hp) + 1 ELSE b) - 1) ELSE Upto(hp, hc)), port |-> After(hp, hc),
        path |-> Upto(r3, q), query |-> After(r3, q), frag |-> After(r2, f)]
Digits(t) == \A i \in DOMAIN t : 48 <= t[i] /\ t[i] <= 57
PortOk(t) == Digits(t) /\ (Len(t) <= 5 => Dec(t) < 65536) /\ (Len(t) > 5 => \A i \in 1..(Len(t) - 5) : t[i] = 48)
PortOf(t) == IF t = <<>> THEN -1 ELSE Dec(t)
HostOk(c) == IF c.br THEN c.brok /\ ParseIp6(c.host).ok ELSE HostAscii(c.host).ok
(* text -> meaning; an empty user, password, query or fragment counts as none *)
Means(c) == [scheme |-> c.scheme, auth |-> c.auth, user |-> Tokens(c.user, InUser), pass |-> Tokens(c.pass, InUser), br |-> c.br,
             host |-> IF c.br THEN c.host ELSE LowerT(HostAscii(c.host).t), port |-> PortOf(c.port),
             path |-> Tokens(c.path, InPath), query |-> Tokens(c.query, InQuery), frag |-> Tokens(c.frag, InQuery)]
TextOk(t) == (\A i \in DOMAIN t : ~Surrogate(t[i])) /\ LET c == Components(t) IN PortOk(c.port) /\ HostOk(c)
Meaning(t) == Means(Components(t))
(* texts that are read in more than one way: brackets in places where an      *)
(* authority has none, zones and future address forms, white space that       *)
(* comes from wrapping                                                        *)
Odd(t) == LET c == Components(t)
              bs == SelectSeq(c.net, LAMBDA x : x \in {91, 93})
              a == LowerT(HostAscii(c.host).t)
          IN \/ c.scheme = <<>>
             \/ \E i \in DOMAIN c.host : c.host[i] = 37
             \/ ~c.br /\ HostAscii(c.host).ok /\ (~HostText(a).ok \/ ~Known(HostText(a).t) \/ ~HostAscii(HostText(a).t).ok)
             \/ t # <<>> /\ t[1] <= 32
             \/ \E i \in DOMAIN t : t[i] \in {9, 10, 13}
             \/ bs # <<>> /\ ~(c.br /\ Len(bs) = 2)
             \/ c.br /\ c.host # <<>> /\ c.host[1] = 118
(* ... of stored octets that are no more than a URI may have                  *)
Clean(t, S) == \A i \in DOMAIN t : Unreserved(t[i]) \/ t[i] \in S \/ IsEsc(t, i)
IsUri(o) == LET c == Components(o) IN
            /\ PortOk(c.port) /\ Clean(c.user, InUser) /\ Clean(c.pass, InUser) /\ Clean(c.path, InPath) /\ Clean(c.query, InQuery) /\ Clean(c.frag, InQuery)
            /\ IF c.br THEN c.brok /\ ParseIp6(c.host).ok ELSE IsAscii(c.host) /\ HostText(c.host).ok /\ HostAscii(c.host).ok

(* ---------------------------------------------- canonical text --------- *)
Opt(x, before) == IF x = <<>> THEN <<>> ELSE before \o x
RECURSIVE Decimal_(_)
Decimal_(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal_(n \div 10) \o <<48 + (n % 10)>>
Write(c, host) ==
    LET ui == c.user \o Opt(c.pass, <<58>>)
        net == Opt(ui, <<>>) \o (IF ui = <<>> THEN <<>> ELSE <<64>>) \o (IF c.br THEN <<91>> \o host \o <<93>> ELSE host)
               \o (IF c.port = <<>> THEN <<>> ELSE <<58>> \o Decimal_(Dec(c.port)))
    IN (IF c.scheme = <<>> THEN <<>> ELSE Append(c.scheme, 58)) \o (IF c.auth THEN <<47, 47>> ELSE <<>>) \o net \o c.path \o Opt(c.query, <<63>>) \o Opt(c.frag, <<35>>)
(* the text as it is read again, when it has nothing to escape                *)
PlainIn(t, S) == \A i \in DOMAIN t : Unreserved(t[i]) \/ t[i] \in S \/ t[i] > 159 \/ t[i] \in {32, 34, 60, 62, 92, 94, 96, 123, 124, 125}
Plain(t) == LET c == Components(t) IN
            TextOk(t) /\ PlainIn(c.user, InUser) /\ PlainIn(c.pass, InUser) /\ PlainIn(c.path, InPath) /\ PlainIn(c.query, InQuery) /\ PlainIn(c.frag, InQuery)
Reread(t) == LET c == Components(t) IN Write(c, IF c.br THEN c.host ELSE HostText(LowerT(HostAscii(c.host).t)).t)

(* a reference for both directions, to check the above against                *)
HexU(n) == IF n < 10 THEN 48 + n ELSE 55 + n
EscO(o) == <<37, HexU(o \div 16), HexU(o % 16)>>
Quote(t, S) == LET k == Tokens(t, S) IN FlattenSeq([i \in DOMAIN k |-> IF k[i] < 256 THEN <<k[i]>> ELSE EscO(k[i] - 256)])
ToUri(t) == LET c == Components(t) IN
            Write([c EXCEPT !.user = Quote(@, InUser), !.pass = Quote(@, InUser), !.path = Quote(@, InPath), !.query = Quote(@, InQuery), !.frag = Quote(@, InQuery)],
                  IF c.br THEN c.host ELSE HostAscii(c.host).t)
(* octets that are UTF-8 of characters beyond ASCII, and such as no one could *)
(* take for something else, are shown as themselves                           *)
RECURSIVE Unquote_(_, _, _)
Shown(c) == Unreserved(c) \/ c \in {32, 34, 60, 62, 92, 94, 96, 123, 124, 125}
Unquote_(k, i, acc) ==
    IF i > Len(k) THEN acc
    ELSE IF k[i] < 256 THEN Unquote_(k, i + 1, Append(acc, k[i]))
    ELSE LET o == k[i] - 256
             n == IF o < 128 THEN 1 ELSE IF o < 194 THEN 0 ELSE IF o < 224 THEN 2 ELSE IF o < 240 THEN 3 ELSE IF o < 245 THEN 4 ELSE 0
             d == IF n > 1 /\ i + n - 1 <= Len(k) /\ (\A j \in i..(i + n - 1) : k[j] >= 256) THEN U8!Utf8Dec([j \in 1..n |-> k[i + j - 1] - 256]) ELSE [ok |-> FALSE]
         IN IF n = 1 /\ Shown(o) THEN Unquote_(k, i + 1, Append(acc, o))
            ELSE IF d.ok THEN Unquote_(k, i + n, acc \o d.c)
            ELSE Unquote_(k, i + 1, acc \o EscO(o))
Unquote(t, S) == Unquote_(Tokens(t, S), 1, <<>>)
ToIri(o) == LET c == Components(o) IN
            Write([c EXCEPT !.user = Unquote(@, InUser), !.pass = Unquote(@, InUser), !.path = Unquote(@, InPath), !.query = Unquote(@, InQuery), !.frag = Unquote(@, InQuery)],
                  IF c.br THEN c.host ELSE HostText(c.host).t)

(* ---------------------------------------------- equality --------------- *)
Http == <<104, 116, 116, 112>>
Norm(m) == [m EXCEPT !.port = IF (m.scheme = Http /\ @ = 80) \/ (m.scheme = Http \o <<115>> /\ @ = 443) THEN -1 ELSE @,
                     !.path = IF @ = <<47>> /\ m.query = <<>> /\ m.frag = <<>> THEN <<>> ELSE @]
Slash(m) == [Norm(m) EXCEPT !.path = IF @ = <<47>> THEN <<>> ELSE @]
UriEq(a, b) == IF Norm(a) = Norm(b) THEN "yes" ELSE IF Slash(a) = Slash(b) THEN "open" ELSE "no"

(* ---------------------------------------------- host names ------------- *)
(* a name constraint may begin with a full stop                               *)
DnsAscii(t) == IF t # <<>> /\ t[1] = 46 THEN LET h == HostAscii(Tail(t)) IN [ok |-> h.ok, t |-> <<46>> \o h.t] ELSE HostAscii(t)
Undot(o) == IF o # <<>> /\ Last(o) = 46 THEN SubSeq(o, 1, Len(o) - 1) ELSE o
DnsEq(a, b) == IF LowerT(a) = LowerT(b) THEN "yes" ELSE IF Undot(LowerT(a)) = Undot(LowerT(b)) THEN "open" ELSE "no"

(* ---------------------------------------------- mailboxes -------------- *)
MailAscii(t) == LET p == LastOf(t, 64)
                    h == HostAscii(After(t, p))
                IN IF p = 0 THEN [ok |-> IsAscii(t), t |-> t]
                   ELSE [ok |-> IsAscii(SubSeq(t, 1, p)) /\ h.ok, t |-> SubSeq(t, 1, p) \o h.t]
MailText(o) == LET p == LastOf(o, 64)
                   h == HostText(After(o, p))
               IN IF p = 0 THEN [ok |-> TRUE, t |-> o] ELSE [ok |-> h.ok, t |-> SubSeq(o, 1, p) \o h.t]
MailEq(a, b) == LET p == LastOf(a, 64) q == LastOf(b, 64) IN
                IF a = b THEN "yes"
                ELSE IF (p = 0) # (q = 0) THEN "no"
                ELSE IF p = 0 THEN (IF LowerT(a) = LowerT(b) THEN "open" ELSE "no")
                ELSE IF SubSeq(a, 1, p) # SubSeq(b, 1, q) THEN "no" ELSE DnsEq(From(a, p), From(b, q))

(* ---------------------------------------------- addresses -------------- *)
Ones(n, size) == [i \in 1..size |-> IF n >= 8 * i THEN 255 ELSE IF n <= 8 * (i - 1) THEN 0 ELSE 256 - 2 ^ (8 * i - n)]
IpOctets(t) ==
    LET p == FirstOf(t, {47})
        a == Upto(t, p)
        m == After(t, p)
        six == 58 \in Range(a)
        o == IF six THEN ParseIp6(a) ELSE ParseIp4(a)
        size == IF six THEN 16 ELSE 4
        mok == p = 0 \/ (m # <<>> /\ Digits(m) /\ Len(SelectSeq(m, LAMBDA c : TRUE)) < 9 /\ Dec(m) <= 8 * size)
    IN IF o.ok /\ mok THEN [ok |-> TRUE, o |-> o.o \o (IF p = 0 THEN <<>> ELSE Ones(Dec(m), size))] ELSE NoIp
=============================================================================
