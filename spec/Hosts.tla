-------------------------------- MODULE Hosts --------------------------------
(* Which hosts a certificate is valid for: RFC 6125 section 6.4, RFC 5280     *)
(* section 4.2.1.6.                                                           *)
(* Certificate: [san: sequence of [k: "dns"|"ip"|"other", o: octets],         *)
(*               cns: sequence of texts (subject common names, in order)]     *)
EXTENDS Idna, IpText
Uniq(s) == FoldLeft(LAMBDA a, x : IF x \in Range(a) THEN a ELSE Append(a, x), <<>>, s)

Alnum(c) == (48 <= c /\ c <= 57) \/ Alpha(c)
DomainLabel(l) == Len(l) > 0 /\ Alnum(l[1]) /\ Alnum(Last(l)) /\ \A i \in DOMAIN l : Alnum(l[i]) \/ l[i] = 45
(* a common name that looks like a domain name                                *)
LooksLikeDomain(t) ==
    LET ls == SplitAt(t, {46})
        n == Len(ls)
        from == IF ls[1] = <<42>> THEN 2 ELSE 1
    IN /\ n - from >= 1
       /\ \A i \in from..(n - 1) : DomainLabel(ls[i])
       /\ Len(ls[n]) >= 2 /\ \A i \in DOMAIN ls[n] : Alpha(ls[n][i])

Dns(c) == SelectSeq(c.san, LAMBDA g : g.k = "dns")
ValidDomains(c) == IF c.san # <<>> THEN LET d == Dns(c) IN Uniq([i \in DOMAIN d |-> HostText(d[i].o).t])
                   ELSE Uniq(SelectSeq(c.cns, LooksLikeDomain))
ValidIps(c) == LET d == SelectSeq(c.san, LAMBDA g : g.k = "ip") IN Uniq([i \in DOMAIN d |-> d[i].o])

Labels(t) == LET h == HostLabels(t) IN [ok |-> h.ok, ls |-> [i \in DOMAIN h.ls |-> LowerT(h.ls[i])]]
Stars(l) == Cardinality({i \in DOMAIN l : l[i] = 42})
(* "yes", "no" or, for part of an internationalised label, "open"             *)
Covers(l, h) ==
    IF Len(l) # Len(h) THEN "no"
    ELSE IF l = h THEN "yes"
    ELSE IF Tail(l) # Tail(h) \/ Stars(l[1]) # 1 \/ (\E i \in DOMAIN Tail(l) : Stars(Tail(l)[i]) > 0) \/ IsAce(l[1]) THEN "no"
    ELSE IF l[1] = <<42>> THEN "yes"
    ELSE LET p == CHOOSE i \in DOMAIN l[1] : l[1][i] = 42
             pre == SubSeq(l[1], 1, p - 1)
             suf == SubSeq(l[1], p + 1, Len(l[1]))
             x == h[1]
         IN IF Len(x) < Len(pre) + Len(suf) \/ SubSeq(x, 1, Len(pre)) # pre \/ SubSeq(x, Len(x) - Len(suf) + 1, Len(x)) # suf THEN "no"
            ELSE IF IsAce(x) THEN "open" ELSE "yes"

Dots4(t) == LET ps == SplitAt(t, {46}) IN Len(ps) = 4 /\ \A i \in 1..4 : ps[i] # <<>> /\ \A j \in DOMAIN ps[i] : 48 <= ps[i][j] /\ ps[i][j] <= 57
(* "yes", "no", "open"                                                        *)
IsValid(c, host) ==
    LET a == HostAscii(host) IN
    IF ~a.ok THEN "open"
    ELSE IF 58 \in Range(a.t) \/ Dots4(a.t)
    THEN LET ip == IF 58 \in Range(a.t) THEN ParseIp6(a.t) ELSE ParseIp4(a.t) IN
         IF ip.ok /\ ip.o \in Range(ValidIps(c)) THEN "yes" ELSE "no"
    ELSE LET h == Labels(host).ls
             vs == ValidDomains(c)
             rs == {IF Labels(vs[i]).ok THEN Covers(Labels(vs[i]).ls, h) ELSE "no" : i \in DOMAIN vs}
         IN IF "yes" \in rs THEN "yes" ELSE IF "open" \in rs THEN "open" ELSE "no"
=============================================================================
