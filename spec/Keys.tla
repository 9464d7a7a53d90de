-------------------------------- MODULE Keys --------------------------------
(* Key containers: RFC 5208 / 5958 (PrivateKeyInfo), RFC 5280 section 4.1     *)
(* (SubjectPublicKeyInfo), RFC 3279, RFC 4055, RFC 5480, RFC 5915, RFC 8410.  *)
EXTENDS Asn1
Fail == [k |-> "err"]
StrR(s) == [k |-> "str", s |-> s]
NumR(n) == [k |-> "int", n |-> n]
Absent(v) == v.k \in {"none", "void"}

(* ---------------------------------------------- wrapping --------------- *)
With(m, n, v) == VMap([j \in 1..Len(m.f) |-> IF m.f[j].n = n THEN P(n, v) ELSE m.f[j]])
Without(m, n) == VMap(SelectSeq(m.f, LAMBDA p : p.n # n))
AlgV(a, par) == VMap(<<P("algorithm", VName(a))>> \o (IF par.k = "none" THEN <<>> ELSE <<P("parameters", par)>>))
Info(a, par, key) == VMap(<<P("version", VNat(0)), P("private_key_algorithm", AlgV(a, par)), P("private_key", key)>>)
WrapPrivate(a, k) ==
    CASE a = "rsa" -> Info(a, VNull, k)
      [] a = "rsassa_pss" -> Info(a, VNone, k)
      [] a = "dsa" -> Info(a, VMap(<<P("p", Get(k, "p")), P("q", Get(k, "q")), P("g", Get(k, "g"))>>), Get(k, "private_key"))
      [] a = "ec" -> Info(a, Get(k, "parameters"), Without(k, "parameters"))
WrapPublic(a, k) == VMap(<<P("algorithm", AlgV(a, IF a = "rsa" THEN VNull ELSE VNone)), P("public_key", k)>>)

(* ---------------------------------------------- what they tell --------- *)
(* v: the value of the container                                             *)
AlgOf(v, m) == NameOf(IF m = "algorithm" THEN "keys_PublicKeyAlgorithmId" ELSE "keys_PrivateKeyAlgorithmId", Get(Get(v, m), "algorithm"))
ParOf(v, m) == Get(Get(v, m), "parameters")
Octets(n) == Len(n.m)                                   \* of a number
Curve(v, m) == IF AlgOf(v, m) # "ec" THEN Fail
               ELSE LET p == ParOf(v, m) IN
                    IF p.n = "implicit_ca" THEN [k |-> "curve", n |-> p.n, v |-> NNone]
                    ELSE LET ty == TyOf["keys_ECDomainParameters"] IN [k |-> "curve", n |-> p.n, v |-> NatOf(ty.f[AltIx(ty, p.n)].t, p.v)]
HashOf(v, m) == IF AlgOf(v, m) # "dsa" THEN Fail
                ELSE LET p == ParOf(v, m) IN
                     IF Absent(p) THEN [k |-> "none"] ELSE StrR(IF Octets(Get(p, "q")) <= 20 THEN "sha1" ELSE "sha2")
Raw == {"x25519", "x448", "ed25519", "ed448"}
PrivateOctets(v) ==
    LET a == AlgOf(v, "private_key_algorithm")
        k == Get(v, "private_key")
    IN CASE a \in {"rsa", "rsassa_pss"} -> Octets(Get(k, "modulus"))
         [] a = "dsa" -> Octets(Get(ParOf(v, "private_key_algorithm"), "p"))
         [] a = "ec" -> LET w == KeyWidth(ParOf(v, "private_key_algorithm"))
                            x == Get(k, "private_key")
                        IN IF x.k = "oct" THEN Len(x.o) ELSE IF w # 0 THEN w ELSE -2
         [] a \in Raw -> Len(k.o)
         [] OTHER -> -1
PublicOctets(v) ==
    LET a == AlgOf(v, "algorithm")
        k == Get(v, "public_key")
    IN CASE a \in {"rsa", "rsassa_pss", "rsaes_oaep"} -> Octets(Get(k, "modulus"))
         [] a \in {"dsa", "dh"} -> Octets(Get(ParOf(v, "algorithm"), "p"))
         [] a = "ec" -> IF k.o[1] \in {2, 3} THEN Len(k.o) - 1 ELSE (Len(k.o) - 1) \div 2
         [] a \in Raw -> Len(k.o)
         [] OTHER -> -1
Size(n, by) == IF n = -1 THEN Fail ELSE IF n = -2 THEN [k |-> "open"] ELSE NumR(n * by)
AlgName(v, m) == LET a == AlgOf(v, m) IN IF a # "" THEN StrR(a) ELSE [k |-> "number"]
Private(v) == [algorithm |-> AlgName(v, "private_key_algorithm"), curve |-> Curve(v, "private_key_algorithm"), hash_algo |-> HashOf(v, "private_key_algorithm"),
               bit_size |-> Size(PrivateOctets(v), 8), byte_size |-> Size(PrivateOctets(v), 1)]
(* the bits of the public key: what RFC 5280 4.2.1.2 hashes                   *)
PublicBits(v) ==
    LET ty == TyOf["keys_PublicKeyInfo"]
        e == Parse(EncField(ty, FieldOf(ty, "public_key"), v, Get(v, "public_key")))
        b == EncField(ty, FieldOf(ty, "public_key"), v, Get(v, "public_key"))
    IN SubSeq(b, e.hend + 1, e.cend - 1)
Public(v) == [algorithm |-> AlgName(v, "algorithm"), curve |-> Curve(v, "algorithm"), hash_algo |-> HashOf(v, "algorithm"),
              bit_size |-> Size(PublicOctets(v), 8), byte_size |-> Size(PublicOctets(v), 1)]

(* ---------------------------------------------- points ----------------- *)
(* SEC 1 section 2.3.3, of coordinates as octets                              *)
Bare(x) == LET nz == {i \in 1..Len(x) : x[i] # 0} IN IF nz = {} THEN <<>> ELSE SubSeq(x, CHOOSE i \in nz : \A j \in nz : i <= j, Len(x))
Point(x, y) == LET w == MaxOf(1, MaxOf(Len(Bare(x)), Len(Bare(y)))) IN
               <<4>> \o Rep(0, w - Len(Bare(x))) \o Bare(x) \o Rep(0, w - Len(Bare(y))) \o Bare(y)
Coords(p) == IF p = <<>> \/ p[1] # 4 THEN Fail
             ELSE LET w == (Len(p) - 1) \div 2 IN [k |-> "point", x |-> Bare(SubSeq(p, 2, w + 1)), y |-> Bare(SubSeq(p, w + 2, Len(p)))]

(* ---------------------------------------------- an EC key at work ------- *)
(* [key: number (octets) or <<>>, par: curve or ""] on its own, and in a      *)
(* container [key, par] once there is one                                     *)
EcStep(s, o) ==
    CASE o.op = "key" -> [s EXCEPT !.key = o.n]
      [] o.op = "par" -> [s EXCEPT !.par = o.c]
      [] o.op = "nopar" -> [s EXCEPT !.par = ""]
      [] o.op = "wrap" -> [s EXCEPT !.in = [key |-> s.key, par |-> s.par]]
      [] o.op = "put" -> [s EXCEPT !.in = [key |-> s.key, par |-> o.c]]
      [] o.op = "cpar" -> [s EXCEPT !.in.par = o.c]
      [] o.op \in {"ckey", "inner"} -> [s EXCEPT !.in.key = o.n]
      [] o.op \in {"copy", "reload", "creload", "ccopy", "force"} -> s
Ec0 == [key |-> <<>>, par |-> "", in |-> [key |-> <<>>, par |-> ""]]
Named(c) == VCh("named", VName(c))
EcValue(s) == VMap(<<P("version", VName("ecPrivkeyVer1")), P("private_key", VNum([neg |-> FALSE, m |-> s.key]))>> \o (IF s.par = "" THEN <<>> ELSE <<P("parameters", Named(s.par))>>))
EcInfo(s) == Info("ec", Named(s.in.par), VMap(<<P("version", VName("ecPrivkeyVer1")), P("private_key", VNum([neg |-> FALSE, m |-> s.in.key]))>>))
=============================================================================
