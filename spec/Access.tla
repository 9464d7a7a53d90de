------------------------------- MODULE Access -------------------------------
(* What the convenience attributes of certificates, CRLs, revoked entries,    *)
(* OCSP requests and responses, distribution points and PKCS #12 files say    *)
(* (P23), read directly off the value of the structure.                       *)
(* What an attribute is: [k: none | obj (t, v: a value of a type) | nat (v: a *)
(* native) | objs (t, l) | names (ns: a set) | texts (l) | hash (of: octets,  *)
(* how, tail) | str (s) | err | open]                                         *)
EXTENDS Asn1
NC == INSTANCE NameCmp

Absent(v) == v.k \in {"none", "void"}
Nothing == [k |-> "none"]
Obj(t, v) == [k |-> "obj", t |-> t, v |-> v]
Nat_(v) == [k |-> "nat", v |-> v]
Objs(t, l) == [k |-> "objs", t |-> t, l |-> l]
Names(ns) == [k |-> "names", ns |-> ns]
Text(t) == [k |-> "text", t |-> t]
Texts(l) == [k |-> "texts", l |-> l]
Hash(of, how, tail) == [k |-> "hash", of |-> of, how |-> how, tail |-> tail]
Word(s) == [k |-> "str", s |-> s]
Refused == [k |-> "err"]

(* a member at a path; absent if anything on the way is                        *)
RECURSIVE At(_, _)
At(v, path) == IF path = <<>> THEN v ELSE IF v.k # "map" THEN VNone ELSE At(Get(v, path[1]), Tail(path))

(* ------------------------------------------------ extensions ----------- *)
ListOf(v) == IF Absent(v) THEN <<>> ELSE v.l
ExtType == [x509_Certificate |-> "x509_Extension", crl_CertificateList |-> "crl_TBSCertListExtension", crl_RevokedCertificate |-> "crl_CRLEntryExtension",
            ocsp_Request |-> "ocsp_RequestExtension", ocsp_OCSPRequest |-> "ocsp_TBSRequestExtension", ocsp_SingleResponse |-> "ocsp_SingleResponseExtension",
            ocsp_OCSPResponse |-> "ocsp_ResponseDataExtension"]
ExtPath == [x509_Certificate |-> <<"tbs_certificate", "extensions">>, crl_CertificateList |-> <<"tbs_cert_list", "crl_extensions">>,
            crl_RevokedCertificate |-> <<"crl_entry_extensions">>, ocsp_Request |-> <<"single_request_extensions">>,
            ocsp_OCSPRequest |-> <<"tbs_request", "request_extensions">>, ocsp_SingleResponse |-> <<"single_extensions">>,
            ocsp_OCSPResponse |-> <<"response_bytes", "response", "tbs_response_data", "response_extensions">>]
(* the extensions with an attribute of their own, called <name>_value          *)
Told == [x509_Certificate |-> {"private_key_usage_period", "subject_directory_attributes", "key_identifier", "key_usage", "subject_alt_name", "issuer_alt_name",
                               "basic_constraints", "name_constraints", "crl_distribution_points", "certificate_policies", "policy_mappings",
                               "authority_key_identifier", "policy_constraints", "freshest_crl", "inhibit_any_policy", "extended_key_usage",
                               "authority_information_access", "subject_information_access", "tls_feature", "ocsp_no_check"},
         crl_CertificateList |-> {"issuer_alt_name", "crl_number", "delta_crl_indicator", "issuing_distribution_point", "authority_key_identifier",
                                  "freshest_crl", "authority_information_access"},
         crl_RevokedCertificate |-> {"crl_reason", "invalidity_date", "certificate_issuer"},
         ocsp_Request |-> {"service_locator"},
         ocsp_OCSPRequest |-> {"nonce", "acceptable_responses", "preferred_signature_algorithms"},
         ocsp_SingleResponse |-> {"crl", "archive_cutoff", "crl_reason", "invalidity_date", "certificate_issuer"},
         ocsp_OCSPResponse |-> {"nonce", "extended_revoke"}]
ExtName(t, x) == NatOf(FieldOf(TyOf[t], "extn_id").t, Get(x, "extn_id")).s
Exts(t, v) == ListOf(At(v, ExtPath[t]))
ExtValue(t, v, n) ==
    LET et == ExtType[t]
        es == Exts(t, v)
        js == {j \in DOMAIN es : ExtName(et, es[j]) = n}
    IN IF js = {} THEN VNone ELSE Get(es[CHOOSE j \in js : TRUE], "extn_value")
ExtObj(t, v, n) == LET x == ExtValue(t, v, n) IN IF Absent(x) THEN Nothing ELSE Obj(Tab(TyOf[ExtType[t]].g.tab, n), x)
Critical(t, v) == LET es == Exts(t, v) IN
    Names({ExtName(ExtType[t], es[j]) : j \in {q \in DOMAIN es : Get(es[q], "critical") = VBool(TRUE)}})
Extensions(t, v) == [n \in {"critical_extensions"} \cup {x \o "_value" : x \in Told[t]} |->
    IF n = "critical_extensions" THEN Critical(t, v) ELSE ExtObj(t, v, CHOOSE x \in Told[t] : x \o "_value" = n)]

(* ------------------------------------------------ parts ---------------- *)
NameOctets(n) == Enc("x509_Name", n)
(* the name as distinguished names are compared (P20)                          *)
TextOf(x) == IF x.k = "ch" THEN NatOf("x509_DirectoryString", x).c ELSE x.c
Rdns(n) == [i \in DOMAIN n.v.l |-> [j \in DOMAIN n.v.l[i].l |->
    LET a == n.v.l[i].l[j] IN [ty |-> OidContents("x509_NameType", Get(a, "type")), k |-> "text", t |-> TextOf(Get(a, "value"))]]]
SameName(a, b) == NC!Same(Rdns(a), Rdns(b))
SerialText(x) == (IF x.neg THEN "-" ELSE "") \o DecText(Rebase(x.m, 256, 10))
Lower(t) == [i \in DOMAIN t |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
IsStart(p, t) == Len(t) >= Len(p) /\ SubSeq(Lower(t), 1, Len(p)) = p
Http == <<104, 116, 116, 112, 58, 47, 47>>
Https == <<104, 116, 116, 112, 115, 58, 47, 47>>
Ldap == <<108, 100, 97, 112, 58, 47, 47>>
Ldaps == <<108, 100, 97, 112, 115, 58, 47, 47>>
IsFetched(t) == \E p \in {Http, Https, Ldap, Ldaps} : IsStart(p, t)
(* the case of a scheme is of no matter, and the library writes small letters  *)
Schemed(t) == LET js == {j \in DOMAIN t : t[j] = 58} IN
    IF js = {} THEN t ELSE LET c == CHOOSE j \in js : \A q \in js : j <= q IN Lower(SubSeq(t, 1, c)) \o SubSeq(t, c + 1, Len(t))
UriIn(g) == g.k = "ch" /\ g.n = "uniform_resource_identifier"
UriText(g) == NatOf("x509_URI", g.v).c
(* locations of an access method, in their order                               *)
Locations(aia, method, Good_(_)) ==
    LET l == SelectSeq(ListOf(aia), LAMBDA d : NatOf("x509_AccessMethod", Get(d, "access_method")) = VName(method) /\ UriIn(Get(d, "access_location")) /\ Good_(UriText(Get(d, "access_location"))))
    IN [j \in DOMAIN l |-> UriText(Get(l[j], "access_location"))]
FullName(p) == LET n == Get(p, "distribution_point") IN IF Absent(n) \/ n.n # "full_name" THEN <<>> ELSE n.v.l
Points(v) == Objs("x509_DistributionPoint", SelectSeq(ListOf(v), LAMBDA p : \E j \in DOMAIN FullName(p) : UriIn(FullName(p)[j])))
PointUrl(p) == LET n == Get(p, "distribution_point")
                   us == SelectSeq(FullName(p), LAMBDA g : UriIn(g) /\ IsFetched(UriText(g)))
               IN IF ~Absent(n) /\ n.n # "full_name" THEN Refused ELSE IF us = <<>> THEN Nothing ELSE Text(UriText(us[1]))
(* the first directory name                                                    *)
Directory(l) == SelectSeq(l, LAMBDA g : g.n = "directory_name")
KeyIdOf(aki) == LET x == IF Absent(aki) THEN VNone ELSE Get(aki, "key_identifier") IN IF Absent(x) THEN Nothing ELSE Nat_(x)
Native(t, v) == IF Absent(v) THEN Nothing ELSE Nat_(NatOf(t, v))

(* ------------------------------------------------ certificates --------- *)
Certificate(v) ==
    LET tbs == Get(v, "tbs_certificate")
        ext(n) == ExtValue("x509_Certificate", v, n)
        ski == ext("key_identifier")
        aki == ext("authority_key_identifier")
        bc == ext("basic_constraints")
        ca == ~Absent(bc) /\ Get(bc, "ca") = VBool(TRUE)
        ai == IF Absent(aki) THEN <<>> ELSE Directory(ListOf(Get(aki, "authority_cert_issuer")))
        an == IF Absent(aki) THEN VNone ELSE Get(aki, "authority_cert_serial_number")
        issued == SameName(Get(tbs, "subject"), Get(tbs, "issuer"))
        kid == KeyIdOf(aki)
        whole == Enc("x509_Certificate", v)
    IN [serial_number |-> Nat_(NatOf("core_Integer", Get(tbs, "serial_number"))),
        signature |-> Nat_(NatOf("core_OctetBitString", Get(v, "signature_value"))),
        public_key |-> Obj("keys_PublicKeyInfo", Get(tbs, "subject_public_key_info")),
        subject |-> Obj("x509_Name", Get(tbs, "subject")),
        issuer |-> Obj("x509_Name", Get(tbs, "issuer")),
        not_valid_before |-> Nat_(NatOf("x509_Time", At(tbs, <<"validity", "not_before">>))),
        not_valid_after |-> Nat_(NatOf("x509_Time", At(tbs, <<"validity", "not_after">>))),
        key_identifier |-> Native("core_OctetString", ski),
        authority_key_identifier |-> kid,
        issuer_serial |-> Hash(NameOctets(Get(tbs, "issuer")), "sha256", ":" \o SerialText(Get(tbs, "serial_number"))),
        authority_issuer_serial |-> IF ai = <<>> \/ Absent(an) THEN Nothing ELSE Hash(NameOctets(ai[1].v), "sha256", ":" \o SerialText(an)),
        ca |-> IF Absent(bc) THEN Nothing ELSE Nat_(VBool(ca)),
        max_path_length |-> IF ca THEN Native("core_Integer", Get(bc, "path_len_constraint")) ELSE Nothing,
        self_issued |-> Nat_(VBool(issued)),
        self_signed |-> Word(IF issued /\ (Absent(ski) \/ kid = Nothing \/ kid.v = ski) THEN "maybe" ELSE "no"),
        ocsp_urls |-> Texts(Locations(ext("authority_information_access"), "ocsp", IsFetched)),
        crl_distribution_points |-> Points(ext("crl_distribution_points")),
        delta_crl_distribution_points |-> Points(ext("freshest_crl")),
        sha1 |-> Hash(whole, "sha1", ""), sha256 |-> Hash(whole, "sha256", ""),
        sha1_fingerprint |-> Hash(whole, "sha1 fingerprint", ""), sha256_fingerprint |-> Hash(whole, "sha256 fingerprint", "")]
Crl(v) ==
    LET tbs == Get(v, "tbs_cert_list")
        ext(n) == ExtValue("crl_CertificateList", v, n)
        whole == Enc("crl_CertificateList", v)
    IN [issuer |-> Obj("x509_Name", Get(tbs, "issuer")),
        signature |-> Nat_(NatOf("core_OctetBitString", Get(v, "signature"))),
        authority_key_identifier |-> KeyIdOf(ext("authority_key_identifier")),
        issuer_cert_urls |-> Texts(Locations(ext("authority_information_access"), "ca_issuers", LAMBDA t : IsStart(Http, t))),
        delta_crl_distribution_points |-> Points(ext("freshest_crl")),
        sha1 |-> Hash(whole, "sha1", ""), sha256 |-> Hash(whole, "sha256", "")]
Revoked(v) ==
    LET l == Directory(ListOf(ExtValue("crl_RevokedCertificate", v, "certificate_issuer"))) IN
    [issuer_name |-> IF l = <<>> THEN Nothing ELSE Obj("x509_Name", l[1].v)]
Response(v) ==
    LET b == Get(v, "response_bytes")
        \* of another type: octets this library has no name for
        r == IF Absent(b) \/ NatOf("ocsp_ResponseType", Get(b, "response_type")) # VName("basic_ocsp_response") THEN VNone ELSE Get(b, "response") IN
    [basic_ocsp_response |-> IF Absent(r) THEN Nothing ELSE Obj("ocsp_BasicOCSPResponse", r),
     response_data |-> IF Absent(r) THEN Nothing ELSE Obj("ocsp_ResponseData", Get(r, "tbs_response_data"))]
(* RFC 5280 section 5.3.1, in the words of the library                         *)
Friendly == [unspecified |-> "an unspecified reason", key_compromise |-> "a compromised key", ca_compromise |-> "the CA being compromised",
             affiliation_changed |-> "an affiliation change", superseded |-> "certificate supersession",
             cessation_of_operation |-> "a cessation of operation", certificate_hold |-> "a certificate hold", remove_from_crl |-> "removal from the CRL",
             privilege_withdrawn |-> "privilege withdrawl", aa_compromise |-> "the AA being compromised"]
(* the octets a PKCS #12 file keeps its contents in, signed or not             *)
Safe(v) ==
    LET c == Get(v, "auth_safe")
        o == IF NatOf("cms_ContentType", Get(c, "content_type")) = VName("signed_data") THEN At(c, <<"content", "encap_content_info", "content">>) ELSE Get(c, "content")
        d == Dec("pkcs12_AuthenticatedSafe", o.o)
    IN [authenticated_safe |-> IF Absent(o) THEN Nothing ELSE IF d.ok THEN Obj("pkcs12_AuthenticatedSafe", d.v) ELSE Refused]
Attributes(t, v) ==
    CASE t = "x509_Certificate" -> Extensions(t, v) @@ Certificate(v)
      [] t = "crl_CertificateList" -> Extensions(t, v) @@ Crl(v)
      [] t = "crl_RevokedCertificate" -> Extensions(t, v) @@ Revoked(v)
      [] t = "ocsp_OCSPResponse" -> Extensions(t, v) @@ Response(v)
      [] t \in DOMAIN Told -> Extensions(t, v)
      [] t = "x509_DistributionPoint" -> [url |-> PointUrl(v)]
      [] t = "crl_CRLReason" -> [human_friendly |-> Word(Friendly[v.s])]
      [] t = "pkcs12_Pfx" -> Safe(v)
=============================================================================
