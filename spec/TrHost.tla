------------------------------- MODULE TrHost -------------------------------
(* Verdicts for recorded certificates and hosts (P21).                        *)
(* cert: [san, cns, dom, ips, hosts, dom2, ips2]: the listed domain names     *)
(* (code points) and IP addresses (texts) before and after is_valid_domain_ip *)
(* was asked about the hosts, each [t: code points, out]                      *)
EXTENDS Hosts, TraceBase
I == INSTANCE Ip
Bool(b) == IF b THEN "T" ELSE "F"
VHost(c, h) ==
    LET want == IsValid(c, h.t) IN
    CASE want = "yes" -> IF h.out = "T" THEN "ok" ELSE IF h.out = "F" THEN "host of the certificate is rejected" ELSE "asking about a host raises"
      [] want = "no" -> IF h.out = "F" THEN "ok" ELSE IF h.out = "T" THEN "foreign host is accepted" ELSE "asking about a host raises"
      [] OTHER -> IF ~HostAscii(h.t).ok THEN IF h.out \in {"F", "ValueError"} THEN "ok" ELSE "text that is no host name"
                  ELSE IF h.out \in {"T", "F"} THEN "ok" ELSE "asking about a host raises"
VCert(e) ==
    LET c == [san |-> e.san, cns |-> e.cns]
        ips == [i \in DOMAIN ValidIps(c) |-> I!IpText(ValidIps(c)[i])]
        bad == {VHost(c, e.hosts[i]) : i \in DOMAIN e.hosts} \ {"ok"}
    IN IF (\E i \in DOMAIN Dns(c) : ~HostText(Dns(c)[i].o).ok) \/ (\E i \in DOMAIN e.hosts : ~Known(e.hosts[i].t)) THEN "generated name outside the model"
       ELSE IF e.dom # ValidDomains(c) THEN "valid_domains"
       ELSE IF e.ips # ips THEN "valid_ips"
       ELSE IF bad # {} THEN CHOOSE v \in bad : TRUE
       ELSE IF e.dom2 # e.dom \/ e.ips2 # e.ips THEN "asking about hosts changes the lists"
       ELSE "ok"
(* a certificate with a name that can not be read: every time the same         *)
VUnreadable(e) == IF e.out \subseteq {"ValueError"} THEN "ok" ELSE "names that can not be read are left out"
Verdict(e) == CASE e.op = "cert" -> VCert(e)
                [] e.op = "unreadable" -> VUnreadable([e EXCEPT !.out = Range(e.out)])
                [] e.op = "nontext" -> IF e.out = "TypeError" THEN "ok" ELSE "host that is not text"
                [] OTHER -> "unexpected event"
Next == at <= N /\ Report(at, Verdict(Trace[at])) /\ Done(at) /\ at' = at + 1
Spec == Init /\ [][Next]_at
=============================================================================
