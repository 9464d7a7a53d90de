------------------------------- MODULE MCAlgo -------------------------------
(* Every encryption algorithm with every shape of parameters, a step at a     *)
(* time: a plain algorithm, then wrapped in PBES2 with every shape of key     *)
(* derivation.  Written out and replayed, as are the signature algorithms.    *)
EXTENDS Algo, Json, IOUtils
VARIABLE alg
S1 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Aes == {AesArc \o <<20 * i + m>> : i \in 0..2, m \in 1..8}
Plains ==
    {[o |-> o, p |-> IF AesMode(o) \in {"cbc", "ofb"} THEN [k |-> "iv", iv |-> S1 \o S1] ELSE IF AesMode(o) = "ccm" THEN [k |-> "ccm", iv |-> S1] ELSE [k |-> "none"]] : o \in Aes}
    \cup {[o |-> o, p |-> [k |-> "iv", iv |-> S1]] : o \in {Des, TripleDes}}
    \cup {[o |-> Rc2, p |-> [k |-> "rc2", v |-> v, iv |-> S1]] : v \in {-1, 0, 4, 57, 58, 59, 120, 160, 255, 256, 1024}}
    \cup {[o |-> Rc5, p |-> [k |-> "rc5", bits |-> b, iv |-> iv]] : b \in {64, 128}, iv \in {S1, <<-1>>}}
    \cup {[o |-> o, p |-> [k |-> "none"]] : o \in {Rc4, P1(1), P1(7), <<1, 2, 3>>, <<2, 16, 840, 1, 101, 3, 4, 1, 9>>, RsaDsi \o <<1, 5, 2>>}}
    \cup {[o |-> o, p |-> [k |-> "pbe", salt |-> S1, n |-> n]] : o \in {P5(i) : i \in DOMAIN Pbes1} \cup {P12(i) : i \in DOMAIN Pkcs12}, n \in {1, 2048}}
Prfs == {<<>>} \cup {HmacArc \o <<n>> : n \in DOMAIN HmacNames} \cup {NistHash \o <<n>> : n \in DOMAIN Hmac3Names}
Kdfs == {[k |-> "pbkdf2", salt |-> S1, other |-> x, n |-> 1000, prf |-> f] : x \in BOOLEAN, f \in Prfs} \cup {[k |-> "scrypt", salt |-> S1]}
Init == alg \in Plains
Next == alg.o # Pbes2 /\ ~IsPbe(alg.o) /\ \E d \in Kdfs, l \in {-1, 1, 16} : alg' = [o |-> Pbes2, p |-> [k |-> "pbes2", kdf |-> d, len |-> l, e |-> alg]]
Spec == Init /\ [][Next]_alg
E == Enc(alg)
(* what goes together *)
Consistent ==
    /\ (E.kdf.k = "err") = (E.kdf_hmac.k = "err") /\ (E.kdf.k = "err") = (E.kdf_iterations.k = "err") /\ (E.kdf_salt.k = "oct" => E.kdf.k = "str")
    /\ (alg.o = Pbes2 \/ IsPbe(alg.o)) = (E.kdf.k = "str")
    /\ E.encryption_cipher = Str("aes") => E.encryption_block_size = Int_(16)
    /\ E.encryption_cipher \in {Str("des"), Str("tripledes"), Str("rc2")} => E.encryption_block_size = Int_(8) /\ E.encryption_mode = Str("cbc")
    /\ E.encryption_cipher = Str("rc4") => E.encryption_block_size = Int_(0)
    /\ (E.encryption_cipher.k = "err") = (E.encryption_block_size.k = "err")
    /\ (IsPbe(alg.o) => E.encryption_iv = Nothing)
(* wrapping in PBES2 leaves what concerns the cipher as it was *)
Wrapped == alg.o = Pbes2 => /\ E.encryption_cipher = Cipher(alg.p.e) /\ E.encryption_mode = Mode(alg.p.e) /\ E.encryption_iv = Iv(alg.p.e)
                            /\ (alg.p.len = -1 => E.key_length = KeyLength(alg.p.e))
ASSUME \A o \in DOMAIN SigTable : SigTable[o].s \in {"rsassa_pkcs1v15", "dsa", "ecdsa", "ed25519", "ed448", "rsassa_pss"}
ASSUME \A x \in DOMAIN DigestNames, y \in DOMAIN DigestNames : DigestNames[x] = DigestNames[y] => x = y
ASSUME JsonSerialize(IOEnv.OUT, [plain |-> SetToSeq(Plains), kdfs |-> SetToSeq(Kdfs), sigs |-> SetToSeq(DOMAIN SigTable), digests |-> SetToSeq(DOMAIN DigestNames),
                                 nulls |-> SetToSeq(NullFor)])
=============================================================================
