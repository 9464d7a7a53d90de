-------------------------------- MODULE Algo --------------------------------
(* What algorithm identifiers mean: RFC 3279, RFC 4055, RFC 5754, RFC 5758,   *)
(* RFC 8410, RFC 8419, BSI TR-03111, NIST CSOR (AES, SHA-3 signatures),       *)
(* RFC 8018 (PBES1, PBES2, RC2, RC5), RFC 7914 (scrypt), RFC 7292 (PKCS#12).  *)
(* Encryption algorithm: [o: arcs, p: parameters]                             *)
(*   p: [k: "iv", iv] | [k: "rc2", v: version or -1, iv] | [k: "rc5", bits,   *)
(*      iv] | [k: "pbe", salt, n] | [k: "pbes2", kdf, len, e: algorithm] |    *)
(*      [k: "ccm", iv] | [k: "none"]                                          *)
(*   kdf: [k: "pbkdf2", salt, other, n, prf: arcs or <<>>] |                  *)
(*        [k: "scrypt", salt]         len: -1 if absent                       *)
(* Results: [k: "str", s] | [k: "int", n] | [k: "oct", o] | [k: "none"] |     *)
(*          [k: "err"] (does not apply) | [k: "open"] (not specified)         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Err == [k |-> "err"]
Nothing == [k |-> "none"]
Open == [k |-> "open"]
Str(s) == [k |-> "str", s |-> s]
Int_(n) == [k |-> "int", n |-> n]
Oct(o) == [k |-> "oct", o |-> o]
Under(base, o, n) == Len(o) = Len(base) + 1 /\ SubSeq(o, 1, Len(base)) = base /\ Last(o) \in n

AesArc == <<2, 16, 840, 1, 101, 3, 4, 1>>
AesModes == <<"ecb", "cbc", "ofb", "cfb", "wrap", "gcm", "ccm", "wrap_pad">>
IsAes(o) == Under(AesArc, o, (1..8) \cup (21..28) \cup (41..48))
AesMode(o) == AesModes[Last(o) % 20]
AesKey(o) == 16 + 8 * (Last(o) \div 20)
Des == <<1, 3, 14, 3, 2, 7>>
RsaDsi == <<1, 2, 840, 113549>>
E3(n) == RsaDsi \o <<3, n>>
TripleDes == E3(7)
Rc2 == E3(2)
Rc4 == E3(4)
Rc5 == E3(9)
P5(n) == RsaDsi \o <<1, 5, n>>
P12(n) == RsaDsi \o <<1, 12, 1, n>>
P1(n) == RsaDsi \o <<1, 1, n>>
Pbes2 == P5(13)
(* [hash, cipher, key, block] *)
Pbe(h, c, k, b) == [h |-> h, c |-> c, k |-> k, b |-> b]
Pbes1 == (1 :> Pbe("md2", "des", 8, 8)) @@ (3 :> Pbe("md5", "des", 8, 8)) @@ (4 :> Pbe("md2", "rc2", 8, 8)) @@ (6 :> Pbe("md5", "rc2", 8, 8))
         @@ (10 :> Pbe("sha1", "des", 8, 8)) @@ (11 :> Pbe("sha1", "rc2", 8, 8))
Pkcs12 == (1 :> Pbe("sha1", "rc4", 16, 0)) @@ (2 :> Pbe("sha1", "rc4", 5, 0)) @@ (3 :> Pbe("sha1", "tripledes", 24, 8)) @@ (4 :> Pbe("sha1", "tripledes", 16, 8))
          @@ (5 :> Pbe("sha1", "rc2", 16, 8)) @@ (6 :> Pbe("sha1", "rc2", 5, 8))
IsPbes1(o) == Under(RsaDsi \o <<1, 5>>, o, DOMAIN Pbes1)
IsPkcs12(o) == Under(RsaDsi \o <<1, 12, 1>>, o, DOMAIN Pkcs12)
PbeOf(o) == IF IsPbes1(o) THEN Pbes1[Last(o)] ELSE Pkcs12[Last(o)]
IsPbe(o) == IsPbes1(o) \/ IsPkcs12(o)
KnownEnc(o) == IsAes(o) \/ IsPbe(o) \/ o \in {Des, TripleDes, Rc2, Rc4, Rc5, Pbes2, P1(1), P1(7)}

HmacArc == RsaDsi \o <<2>>
HmacNames == (7 :> "sha1") @@ (8 :> "sha224") @@ (9 :> "sha256") @@ (10 :> "sha384") @@ (11 :> "sha512") @@ (12 :> "sha512_224") @@ (13 :> "sha512_256")
NistHash == <<2, 16, 840, 1, 101, 3, 4, 2>>
Hmac3Names == (13 :> "sha3_224") @@ (14 :> "sha3_256") @@ (15 :> "sha3_384") @@ (16 :> "sha3_512")
HmacName(o) == IF o = <<>> THEN "sha1"
               ELSE IF Under(HmacArc, o, DOMAIN HmacNames) THEN HmacNames[Last(o)]
               ELSE IF Under(NistHash, o, DOMAIN Hmac3Names) THEN Hmac3Names[Last(o)]
               ELSE IF o = <<1, 3, 14, 3, 2, 10>> THEN "des_mac" ELSE "?"
Kdf(a) == IF a.o = Pbes2 THEN Str(a.p.kdf.k) ELSE IF IsPbes1(a.o) THEN Str("pbkdf1") ELSE IF IsPkcs12(a.o) THEN Str("pkcs12_kdf") ELSE Err
KdfHmac(a) == IF a.o = Pbes2 THEN IF a.p.kdf.k = "scrypt" THEN Nothing ELSE Str(HmacName(a.p.kdf.prf))
              ELSE IF IsPbe(a.o) THEN Str(PbeOf(a.o).h) ELSE Err
KdfSalt(a) == IF a.o = Pbes2 THEN IF a.p.kdf.k = "pbkdf2" /\ a.p.kdf.other THEN Err ELSE Oct(a.p.kdf.salt)
              ELSE IF IsPbe(a.o) THEN Oct(a.p.salt) ELSE Err
KdfIterations(a) == IF a.o = Pbes2 THEN IF a.p.kdf.k = "scrypt" THEN Nothing ELSE Int_(a.p.kdf.n)
                    ELSE IF IsPbe(a.o) THEN Int_(a.p.n) ELSE Err
(* RFC 8018 appendix B.2.3, RFC 2268 *)
Rc2Key(v) == CASE v = -1 -> Int_(4) [] v = 160 -> Int_(5) [] v = 120 -> Int_(8) [] v = 58 -> Int_(16) [] v >= 256 -> IF v % 8 = 0 THEN Int_(v \div 8) ELSE Open [] OTHER -> Err
RECURSIVE KeyLength(_)
KeyLength(a) ==
    IF IsAes(a.o) THEN Int_(AesKey(a.o))
    ELSE IF a.o = Des THEN Int_(8) ELSE IF a.o = TripleDes THEN Int_(24)
    ELSE IF a.o = Rc2 THEN Rc2Key(a.p.v)
    ELSE IF a.o = Pbes2 THEN IF a.p.len # -1 THEN Int_(a.p.len) ELSE KeyLength(a.p.e)
    ELSE IF IsPbe(a.o) THEN Int_(PbeOf(a.o).k) ELSE Err
RECURSIVE Mode(_)
Mode(a) == IF IsAes(a.o) THEN Str(AesMode(a.o))
           ELSE IF a.o \in {Des, TripleDes, Rc2, Rc5} THEN Str("cbc")
           ELSE IF a.o = Pbes2 THEN Mode(a.p.e)
           ELSE IF IsPbe(a.o) THEN IF PbeOf(a.o).c = "rc4" THEN Open ELSE Str("cbc")
           ELSE IF a.o = Rc4 THEN Open ELSE Err
RECURSIVE Cipher(_)
Cipher(a) == IF IsAes(a.o) THEN Str("aes")
             ELSE IF a.o = Des THEN Str("des") ELSE IF a.o = TripleDes THEN Str("tripledes")
             ELSE IF a.o = Rc2 THEN Str("rc2") ELSE IF a.o = Rc4 THEN Str("rc4") ELSE IF a.o = Rc5 THEN Str("rc5")
             ELSE IF a.o = Pbes2 THEN Cipher(a.p.e)
             ELSE IF IsPbe(a.o) THEN Str(PbeOf(a.o).c) ELSE Err
RECURSIVE BlockSize(_)
BlockSize(a) == IF IsAes(a.o) THEN Int_(16)
                ELSE IF a.o \in {Des, TripleDes, Rc2} THEN Int_(8)
                ELSE IF a.o = Rc4 THEN Int_(0)
                ELSE IF a.o = Rc5 THEN Int_(a.p.bits \div 8)
                ELSE IF a.o = Pbes2 THEN BlockSize(a.p.e)
                ELSE IF IsPbe(a.o) THEN Int_(PbeOf(a.o).b) ELSE Err
RECURSIVE Iv(_)
Iv(a) == IF a.p.k \in {"iv", "rc2"} THEN Oct(a.p.iv)
         ELSE IF a.p.k = "rc5" THEN IF a.p.iv = <<-1>> THEN Nothing ELSE Oct(a.p.iv)
         ELSE IF a.o = Pbes2 THEN Iv(a.p.e)
         ELSE IF IsPbe(a.o) THEN Nothing
         ELSE IF IsAes(a.o) /\ AesMode(a.o) \in {"ecb", "wrap", "wrap_pad"} THEN Nothing
         ELSE IF KnownEnc(a.o) THEN Open ELSE Err
Enc(a) == [kdf |-> Kdf(a), kdf_hmac |-> KdfHmac(a), kdf_salt |-> KdfSalt(a), kdf_iterations |-> KdfIterations(a), key_length |-> KeyLength(a),
           encryption_mode |-> Mode(a), encryption_cipher |-> Cipher(a), encryption_block_size |-> BlockSize(a), encryption_iv |-> Iv(a)]

(* Signature algorithms: [sig, hash] with hash "" if the identifier names none *)
Sha2 == <<"sha224", "sha256", "sha384", "sha512">>
Sha3 == <<"sha3_224", "sha3_256", "sha3_384", "sha3_512">>
Sg(s, h) == [s |-> s, h |-> h]
NistSig == <<2, 16, 840, 1, 101, 3, 4, 3>>
Plain == <<0, 4, 0, 127, 0, 7, 1, 1, 4, 1>>
Oiw(n) == <<1, 3, 14, 3, 2, n>>
EcSig == <<1, 2, 840, 10045, 4>>
Pss == P1(10)
SigTable ==
    (P1(1) :> Sg("rsassa_pkcs1v15", "")) @@ (P1(2) :> Sg("rsassa_pkcs1v15", "md2")) @@ (P1(4) :> Sg("rsassa_pkcs1v15", "md5")) @@ (P1(5) :> Sg("rsassa_pkcs1v15", "sha1"))
    @@ (P1(14) :> Sg("rsassa_pkcs1v15", "sha224")) @@ (P1(11) :> Sg("rsassa_pkcs1v15", "sha256")) @@ (P1(12) :> Sg("rsassa_pkcs1v15", "sha384")) @@ (P1(13) :> Sg("rsassa_pkcs1v15", "sha512"))
    @@ (Oiw(3) :> Sg("rsassa_pkcs1v15", "md5")) @@ (Oiw(29) :> Sg("rsassa_pkcs1v15", "sha1")) @@ (<<1, 3, 14, 7, 2, 3, 1>> :> Sg("rsassa_pkcs1v15", "md2"))
    @@ (<<1, 2, 840, 10040, 4, 1>> :> Sg("dsa", "")) @@ (<<1, 2, 840, 10040, 4, 3>> :> Sg("dsa", "sha1")) @@ (Oiw(13) :> Sg("dsa", "sha1")) @@ (Oiw(27) :> Sg("dsa", "sha1"))
    @@ (EcSig :> Sg("ecdsa", "")) @@ (EcSig \o <<1>> :> Sg("ecdsa", "sha1"))
    @@ [o \in {EcSig \o <<3, n>> : n \in 1..4} |-> Sg("ecdsa", Sha2[Last(o)])]
    @@ [o \in {NistSig \o <<n>> : n \in 1..16} |->
            Sg(<<"dsa", "dsa", "ecdsa", "rsassa_pkcs1v15">>[1 + ((Last(o) - 1) \div 4)], IF Last(o) <= 4 THEN Sha2[Last(o)] ELSE Sha3[1 + ((Last(o) - 1) % 4)])]
    @@ [o \in {Plain \o <<n>> : n \in (1..5) \cup (8..11)} |-> Sg("ecdsa", IF Last(o) = 1 THEN "sha1" ELSE IF Last(o) < 8 THEN Sha2[Last(o) - 1] ELSE Sha3[Last(o) - 7])]
    @@ (<<1, 3, 101, 112>> :> Sg("ed25519", "")) @@ (<<1, 3, 101, 113>> :> Sg("ed448", "")) @@ (Pss :> Sg("rsassa_pss", "?"))
DigestNames == (RsaDsi \o <<2, 2>> :> "md2") @@ (RsaDsi \o <<2, 5>> :> "md5") @@ (Oiw(26) :> "sha1")
    @@ [o \in {NistHash \o <<n>> : n \in (1..12) \cup {17, 18}} |->
        [n \in (1..12) \cup {17, 18} |-> CASE n = 1 -> "sha256" [] n = 2 -> "sha384" [] n = 3 -> "sha512" [] n = 4 -> "sha224" [] n = 5 -> "sha512_224" [] n = 6 -> "sha512_256"
            [] n \in 7..10 -> Sha3[n - 6] [] n = 11 -> "shake128" [] n = 12 -> "shake256" [] n = 17 -> "shake128_len" [] OTHER -> "shake256_len"][Last(o)]]
(* a: [o, pss: "absent" or [h: arcs, <<>> for the default]] *)
Hash(a) == IF a.o \notin DOMAIN SigTable THEN Err
           ELSE IF a.o = Pss THEN IF ~a.par THEN Err ELSE IF a.h = <<>> THEN Str("sha1") ELSE IF a.h \in DOMAIN DigestNames THEN Str(DigestNames[a.h]) ELSE Open
           ELSE IF SigTable[a.o].h = "" THEN Err ELSE Str(SigTable[a.o].h)
(* RFC 8419 section 2.3 *)
CmsHash(a) == IF a.o = <<1, 3, 101, 112>> THEN Str("sha512") ELSE IF a.o = <<1, 3, 101, 113>> THEN Str("shake256") ELSE Hash(a)
SigAlgo(a) == IF a.o \in DOMAIN SigTable THEN Str(SigTable[a.o].s) ELSE Err
Sig(a) == [signature_algo |-> SigAlgo(a), hash_algo |-> Hash(a), cms_hash_algo |-> CmsHash(a)]

(* parameters that have to be NULL: RFC 4055, RFC 5754, RFC 3279 *)
NullFor == {P1(1), P1(2), P1(4), P1(5), P1(11), P1(12), P1(13), P1(14), Oiw(26)} \cup {NistHash \o <<n>> : n \in 1..4}

(* DSA and ECDSA signatures in the fixed-width form of IEEE P1363; r, s:      *)
(* octets of the numbers without leading zeros; w: width or -1                *)
Pad(x, w) == [i \in 1..(w - Len(x)) |-> 0] \o x
Larger(a, b) == IF a > b THEN a ELSE b
P1363(r, s, w) == LET m == Larger(1, Larger(Len(r), Len(s))) IN
                  IF w # -1 /\ w < m THEN Err ELSE LET n == IF w = -1 THEN m ELSE w IN Oct(Pad(r, n) \o Pad(s, n))
Trim(x) == LET nz == {i \in DOMAIN x : x[i] # 0} IN IF nz = {} THEN <<>> ELSE SubSeq(x, CHOOSE i \in nz : \A j \in nz : i <= j, Len(x))
FromP1363(d) == [r |-> Trim(SubSeq(d, 1, Len(d) \div 2)), s |-> Trim(SubSeq(d, (Len(d) \div 2) + 1, Len(d)))]
=============================================================================
