------------------------------- MODULE TrUri -------------------------------
(* Verdicts for recorded identifiers and addresses (P22).  A result is        *)
(* [k: "ok", v] or [k: "err", e].  kind: "uri", "dns", "mail", "ip".          *)
EXTENDS Uri, TraceBase
I == INSTANCE Ip
Refused(r) == r.k = "err" /\ r.e = "ValueError"
In(e) == {e.t[i] : i \in DOMAIN e.t}
Control(t) == \E i \in DOMAIN t : t[i] < 32 \/ t[i] = 127
(* given text e.t: e.out the contents stored, e.now what is shown at once,    *)
(* e.back what is shown once the contents are read, e.der the contents in a   *)
(* dump                                                                       *)
Ascii(kind, t) == IF kind = "dns" THEN DnsAscii(t) ELSE MailAscii(t)
Shown_(kind, o) == IF kind = "dns" THEN HostText(o) ELSE MailText(o)
VGiven(e) ==
    IF e.out.k = "ok" /\ (e.now.k # "ok" \/ e.now.v # e.t) THEN "the text is not shown as it was given"
    ELSE IF e.out.k = "ok" /\ e.der # e.out.v THEN "contents dumped"
    ELSE IF e.kind = "uri"
    THEN IF Odd(e.t) THEN IF e.out.k = "ok" \/ Refused(e.out) THEN "ok" ELSE "text of no certain meaning"
         ELSE IF ~TextOk(e.t) THEN IF Refused(e.out) THEN "ok" ELSE "malformed URI is not refused"
         ELSE IF e.out.k # "ok" THEN "URI is refused"
         ELSE IF ~IsUri(e.out.v) THEN "what is stored is no URI"
         ELSE IF Meaning(e.out.v) # Meaning(e.t) THEN "the URI stored means something else"
         ELSE IF e.back.k # "ok" THEN "the URI stored can not be read"
         ELSE IF ~TextOk(e.back.v) \/ Meaning(e.back.v) # Meaning(e.t) THEN "the URI read means something else"
         ELSE IF Plain(e.t) /\ e.back.v # Reread(e.t) THEN "text of the URI read"
         ELSE "ok"
    ELSE LET a == Ascii(e.kind, e.t) IN
         IF ~a.ok THEN IF Refused(e.out) THEN "ok" ELSE "malformed name is not refused"
         ELSE IF e.out.k # "ok" THEN "name is refused"
         ELSE IF e.out.v # a.t THEN "name stored"
         ELSE LET s == Shown_(e.kind, a.t) IN
              IF s.ok THEN IF e.back.k = "ok" /\ e.back.v = s.t THEN "ok" ELSE "name read"
              ELSE IF Refused(e.back) THEN "ok" ELSE "name that has no text"
(* given contents e.o: e.now what is shown, e.out the contents stored when    *)
(* that is set again                                                          *)
VRead(e) ==
    IF e.der # e.o THEN "contents dumped"
    ELSE IF e.kind = "uri"
    THEN IF ~IsUri(e.o) \/ Odd(e.o) THEN IF e.now.k = "ok" \/ Refused(e.now) THEN "ok" ELSE "malformed URI"
         ELSE IF e.now.k # "ok" THEN "a URI can not be read"
         ELSE IF ~TextOk(e.now.v) \/ Meaning(e.now.v) # Meaning(e.o) THEN "the URI read means something else"
         ELSE IF Control(e.now.v) THEN "control characters in the text of a URI"
         ELSE IF e.out.k # "ok" \/ ~IsUri(e.out.v) \/ Meaning(e.out.v) # Meaning(e.o) THEN "the URI read and set again means something else"
         ELSE "ok"
    ELSE IF ~IsAscii(e.o) THEN "ok"
    ELSE LET s == Shown_(e.kind, e.o) IN
         IF s.ok THEN IF e.now.k = "ok" /\ e.now.v = s.t THEN "ok" ELSE "name read"
         ELSE IF Refused(e.now) THEN "ok" ELSE "name that has no text"
(* e.a, e.b: [g: "text" | "octets", v]                                        *)
Contents(kind, x) == IF x.g = "octets" THEN x.v ELSE IF kind = "ip" THEN IpOctets(x.v).o ELSE Ascii(kind, x.v).t
Sure(kind, x) == CASE kind = "uri" -> ~Odd(x.v) /\ (IF x.g = "text" THEN TextOk(x.v) ELSE IsUri(x.v))
                   [] kind = "ip" -> x.g = "octets" \/ IpOctets(x.v).ok
                   [] x.g = "text" -> Ascii(kind, x.v).ok
                   [] OTHER -> IsAscii(x.v) /\ Shown_(kind, x.v).ok
VEqual(e) ==
    LET want == CASE e.kind = "uri" -> UriEq(Meaning(e.a.v), Meaning(e.b.v))
                  [] e.kind = "dns" -> DnsEq(Contents("dns", e.a), Contents("dns", e.b))
                  [] e.kind = "mail" -> MailEq(Contents("mail", e.a), Contents("mail", e.b))
                  [] OTHER -> IF Contents("ip", e.a) = Contents("ip", e.b) THEN "yes" ELSE "no"
    IN IF ~(Sure(e.kind, e.a) /\ Sure(e.kind, e.b)) THEN "ok"
       ELSE IF e.ne # (IF e.eq = "T" THEN "F" ELSE "T") \/ e.rev # e.eq THEN "equality and its opposite"
       ELSE IF want = "open" THEN (IF e.eq \in {"T", "F"} THEN "ok" ELSE "comparing raises")
       ELSE IF e.eq = (IF want = "yes" THEN "T" ELSE "F") THEN "ok" ELSE IF want = "yes" THEN "equal values differ" ELSE "different values are equal"
VIpGiven(e) == LET p == IpOctets(e.t) IN
    IF ~p.ok THEN IF Refused(e.out) THEN "ok" ELSE "malformed address is not refused"
    ELSE IF e.out.k # "ok" THEN "address is refused"
    ELSE IF e.out.v # p.o THEN "address stored"
    ELSE IF e.der # p.o THEN "contents dumped"
    ELSE IF e.now # [k |-> "ok", v |-> I!IpText(p.o)] \/ e.back # e.now THEN "text of an address" ELSE "ok"
VIpRead(e) == IF I!IpOk(e.o) THEN IF e.now = [k |-> "ok", v |-> I!IpText(e.o)] THEN "ok" ELSE "text of an address"
              ELSE IF Refused(e.now) THEN "ok" ELSE "octets that are no address"
(* the conversions for platforms that have none                               *)
VPton(e) == LET p == IF e.six THEN ParseIp6(e.t) ELSE ParseIp4(e.t) IN
            IF p.ok THEN IF e.out = [k |-> "ok", v |-> p.o] THEN "ok" ELSE "text to address"
            ELSE IF Refused(e.out) THEN "ok" ELSE "text that is no address"
VNtop(e) == IF Len(e.o) # (IF e.six THEN 16 ELSE 4) THEN IF Refused(e.out) THEN "ok" ELSE "octets that are no address"
            ELSE IF e.out = [k |-> "ok", v |-> IF e.six THEN I!Ip6Form(e.o, FALSE) ELSE I!Ip4Text(e.o)] THEN "ok" ELSE "address to text"
Verdict(e) == CASE e.op = "given" -> IF e.kind = "ip" THEN VIpGiven(e) ELSE VGiven(e)
                [] e.op = "read" -> IF e.kind = "ip" THEN VIpRead(e) ELSE VRead(e)
                [] e.op = "equal" -> VEqual(e)
                [] e.op = "pton" -> VPton(e)
                [] e.op = "ntop" -> VNtop(e)
                [] e.op = "nontext" -> IF e.out = "TypeError" THEN "ok" ELSE "value that is not text"
                [] e.op = "other" -> IF e.eq = "F" /\ e.ne = "T" THEN "ok" ELSE "comparing with something else"
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
