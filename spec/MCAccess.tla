------------------------------ MODULE MCAccess ------------------------------
(* Certificates by their names, key identifiers, issuers of the authority key *)
(* identifier, constraints and URLs, one difference after another; and, for   *)
(* each container, which of its extensions are there and critical.  Both are  *)
(* written out; the recorder reads the first as they are and fills in values   *)
(* for the second.                                                            *)
EXTENDS Access, Json, IOUtils
CONSTANTS Rich
VARIABLES cert
A == [k |-> "str", c |-> <<97, 98>>]
Attr(t, c) == VMap(<<P("type", VName(t)), P("value", [k |-> "ch", n |-> "utf8_string", v |-> VStr(c)])>>)
Nm(cs) == [k |-> "ch", n |-> "", v |-> VList([j \in DOMAIN cs |-> VList(<<Attr("common_name", cs[j])>>)])]
Who1 == Nm(<<<<97, 98>>>>)
Who2 == Nm(<<<<65, 32, 66>>>>)
Who3 == Nm(<<<<32, 65, 66>>>>)       \* Who1 again, written another way
Who4 == Nm(<<<<97, 98>>, <<97, 98>>>>)
Alg == VMap(<<P("algorithm", VName("sha256_rsa")), P("parameters", [k |-> "null"])>>)
Tm(y) == [k |-> "ch", n |-> "utc_time", v |-> [k |-> "time", t |-> [y |-> y, mo |-> 1, d |-> 2, h |-> 3, mi |-> 4, s |-> 5, us |-> 0, off |-> 0]]]
Key == VMap(<<P("algorithm", VMap(<<P("algorithm", VName("rsa")), P("parameters", [k |-> "null"])>>)),
              P("public_key", VMap(<<P("modulus", VNum(Num(FALSE, <<200, 1>>))), P("public_exponent", VNum(Num(FALSE, <<3>>)))>>))>>)
Int_(m) == VNum(Num(FALSE, m))
Ext_(n, c, x) == VMap(<<P("extn_id", VName(n))>> \o (IF c THEN <<P("critical", VBool(TRUE))>> ELSE <<>>) \o <<P("extn_value", x)>>)
Dir(n) == [k |-> "ch", n |-> "directory_name", v |-> n]
Url(t) == [k |-> "ch", n |-> "uniform_resource_identifier", v |-> VStr(t)]
Mail == [k |-> "ch", n |-> "rfc822_name", v |-> VStr(<<97, 64, 98>>)]
U(p) == p \o <<97, 46, 98, 47>>
Ftp == <<102, 116, 112, 58, 47, 47>>
HTTP == <<72, 84, 84, 80, 58, 47, 47>>
Full(l) == P("distribution_point", [k |-> "ch", n |-> "full_name", v |-> VList(l)])
Rel == P("distribution_point", [k |-> "ch", n |-> "name_relative_to_crl_issuer", v |-> VList(<<Attr("common_name", <<97>>)>>)])
Pts == {<<>>, <<VMap(<<Full(<<Url(U(Http))>>)>>)>>, <<VMap(<<Full(<<Mail, Url(U(Ldap)), Url(U(Http))>>)>>), VMap(<<P("crl_issuer", VList(<<Dir(Who1)>>))>>)>>,
        <<VMap(<<Rel, P("crl_issuer", VList(<<Dir(Who2)>>))>>), VMap(<<Full(<<Dir(Who1)>>)>>), VMap(<<Full(<<Url(U(Ftp))>>)>>)>>}
Desc(m, g) == VMap(<<P("access_method", VName(m)), P("access_location", g)>>)
Aias == {<<>>, <<Desc("ocsp", Url(U(HTTP))), Desc("ca_issuers", Url(U(Http)))>>, <<Desc("ca_issuers", Url(U(Ldap))), Desc("ocsp", Dir(Who1)), Desc("ocsp", Url(U(Ftp))), Desc("ocsp", Url(U(Ldaps))), Desc("ocsp", Url(U(Https)))>>}
Opt_(n, S) == {<<>>} \cup {<<P(n, x)>> : x \in S}
Kids == {VOct(<<1, 2>>), VOct(<<1, 3>>), VOct(<<>>)}
Issuers == {VList(<<Dir(Who1)>>), VList(<<Mail, Dir(Who2), Dir(Who1)>>), VList(<<Mail>>)}
(* dimensions: names; key identifiers; authority key identifier; the rest      *)
Akis == {VMap(a \o b \o c) : a \in Opt_("key_identifier", Kids), b \in Opt_("authority_cert_issuer", Issuers), c \in Opt_("authority_cert_serial_number", {Int_(<<1, 0>>)})}
Bcs == {VMap(a \o b) : a \in Opt_("ca", {VBool(TRUE)}), b \in Opt_("path_len_constraint", {Int_(<<>>), Int_(<<2>>)})}
Sets == [name |-> {<<Who1, Who1>>, <<Who1, Who2>>, <<Who1, Who3>>, <<Who2, Who4>>, <<Who1, Who4>>},
         ski |-> {<<>>} \cup {<<Ext_("key_identifier", FALSE, x)>> : x \in Kids},
         aki |-> {<<>>} \cup {<<Ext_("authority_key_identifier", FALSE, x)>> : x \in Akis},
         bc |-> {<<>>} \cup {<<Ext_("basic_constraints", c, x)>> : x \in Bcs, c \in BOOLEAN},
         cdp |-> {<<>>} \cup {<<Ext_("crl_distribution_points", FALSE, VList(x))>> : x \in Pts},
         fresh |-> {<<>>} \cup {<<Ext_("freshest_crl", TRUE, VList(x))>> : x \in Pts},
         aia |-> {<<>>} \cup {<<Ext_("authority_information_access", FALSE, VList(x))>> : x \in Aias}]
Make(d) ==
    LET es == d.bc \o d.aki \o d.cdp \o d.ski \o d.aia \o d.fresh IN
    VMap(<<P("tbs_certificate", VMap(<<P("version", VName("v3")), P("serial_number", Int_(<<3, 9>>)), P("signature", Alg), P("issuer", d.name[2]),
            P("validity", VMap(<<P("not_before", Tm(2020)), P("not_after", Tm(2031))>>)), P("subject", d.name[1]), P("subject_public_key_info", Key)>>
            \o (IF es = <<>> THEN <<>> ELSE <<P("extensions", VList(es))>>))),
           P("signature_algorithm", Alg), P("signature_value", VOct(<<7, 7>>))>>)
D0 == [name |-> <<Who1, Who2>>, ski |-> <<>>, aki |-> <<>>, bc |-> <<>>, cdp |-> <<>>, fresh |-> <<>>, aia |-> <<>>]
(* names with key identifiers in full; everything else two at a time           *)
Related == {[D0 EXCEPT !.name = n, !.ski = s, !.aki = a] : n \in Sets.name, s \in Sets.ski, a \in (IF Rich THEN Sets.aki ELSE {x \in Sets.aki : x = <<>> \/ Len(Get(x[1], "extn_value").f) <= 1})}
Pairs == UNION {{[D0 EXCEPT ![x] = u, ![y] = w] : u \in Sets[x], w \in Sets[y]} : <<x, y>> \in {q \in {"aki", "bc", "cdp", "fresh", "aia"} \X {"aki", "bc", "cdp", "fresh", "aia"} :
            q \in {<<"aki", "bc">>, <<"cdp", "fresh">>, <<"aia", "cdp">>} \/ (Rich /\ q[1] # q[2])}}
Certs == {Make(d) : d \in Related \cup Pairs}
(* -- which extensions, which critical                                         *)
Known_(t) == {TyOf[ExtType[t]].g.tab[j][1] : j \in DOMAIN TyOf[ExtType[t]].g.tab} \cup {"other"}
One(t) == [n : Known_(t), c : {"yes", "no", "absent"}]
Lists(t) == {<<>>} \cup {<<x>> : x \in One(t)} \cup {<<x, y>> : x \in One(t), y \in {q \in One(t) : Rich \/ q.c # "absent"}}
Shapes == UNION {{[t |-> t, l |-> l] : l \in {m \in Lists(t) : \A i, j \in DOMAIN m : i # j => m[i].n # m[j].n}} : t \in DOMAIN Told}

CertSeq == SetToSeq(Certs)
Init == cert \in [k : {"start"}, i : 0..15]
Next == cert.k = "start" /\ \E j \in {q \in DOMAIN CertSeq : (q % 16) = cert.i} : cert' = CertSeq[j]
Made == cert.k # "start"
Spec == Init /\ [][Next]_cert
At_(a) == Attributes("x509_Certificate", cert)[a]
(* reading the octets is reading the value *)
Decoded == Made => LET d == Dec("x509_Certificate", Enc("x509_Certificate", cert)) IN
    d.ok /\ LET x == Attributes("x509_Certificate", d.v) y == Attributes("x509_Certificate", cert) IN
            \A a \in DOMAIN x : x[a] = y[a] \/ (x[a].k = "nat" /\ y[a].k = "nat") \/ (x[a].k = "obj" /\ Enc(x[a].t, x[a].v) = Enc(y[a].t, y[a].v))
                                \/ (x[a].k = "objs" /\ [j \in DOMAIN x[a].l |-> Enc(x[a].t, x[a].l[j])] = [j \in DOMAIN y[a].l |-> Enc(y[a].t, y[a].l[j])])
Length == Made /\ At_("max_path_length").k # "none" => At_("ca") = Nat_(VBool(TRUE))
Signed == Made /\ At_("self_signed") = Word("maybe") => At_("self_issued") = Nat_(VBool(TRUE))
Mismatch == Made /\ At_("key_identifier").k = "nat" /\ At_("authority_key_identifier").k = "nat" /\ At_("key_identifier") # At_("authority_key_identifier") => At_("self_signed") = Word("no")
Marked == Made => At_("critical_extensions").ns \subseteq {"basic_constraints", "freshest_crl"}
AllAttr == Made => Len(At_("crl_distribution_points").l) <= Len(ListOf(ExtValue("x509_Certificate", cert, "crl_distribution_points")))
Write == JsonSerialize(IOEnv.OUT, [certs |-> CertSeq, shapes |-> SetToSeq(Shapes)])
ASSUME Write /\ SameName(Who1, Who3) /\ ~SameName(Who1, Who2) /\ ~SameName(Who1, Who4)
=============================================================================
