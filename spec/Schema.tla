------------------------------- MODULE Schema -------------------------------
(* The ASN.1 modules asn1crypto implements, member by member: X.509 and     *)
(* PKIX (RFC 5280, 3281/5755, 2798), CRL, PKCS#10 (RFC 2986), OCSP (RFC     *)
(* 6960), CMS (RFC 5652 and friends, PKCS#7 1.5), PKCS#12 (RFC 7292), TSP   *)
(* (RFC 3161, 5035, 5544), PDF signing attributes, key structures (RFC      *)
(* 5208/5958, 5480, 3447, 8018, 4055) and their object identifiers, in the  *)
(* names of the library's documentation.                                    *)
EXTENDS Types

S_core == [
  core_Boolean |->
      PrimT("bool"),
  core_Integer |->
      PrimT("int"),
  core_BitString |->
      PrimT("bits"),
  core_OctetString |->
      PrimT("octets"),
  core_Null |->
      PrimT("null"),
  core_ObjectIdentifier |->
      PrimT("oid"),
  core_Enumerated |->
      PrimT("enum"),
  core_UTF8String |->
      PrimT("utf8"),
  core_NumericString |->
      PrimT("numeric"),
  core_PrintableString |->
      PrimT("printable"),
  core_TeletexString |->
      PrimT("teletex"),
  core_VideotexString |->
      PrimT("videotex"),
  core_IA5String |->
      PrimT("ia5"),
  core_UTCTime |->
      PrimT("utc"),
  core_GeneralizedTime |->
      PrimT("gen"),
  core_GraphicString |->
      PrimT("graphic"),
  core_VisibleString |->
      PrimT("visible"),
  core_GeneralString |->
      PrimT("general"),
  core_UniversalString |->
      PrimT("universal"),
  core_CharacterString |->
      PrimT("character"),
  core_BMPString |->
      PrimT("bmp"),
  core_ParsableOctetString |->
      PrimT("pocts"),
  core_ParsableOctetBitString |->
      PrimT("pbits"),
  core_OctetBitString |->
      PrimT("obits"),
  core_IntegerBitString |->
      PrimT("ibits"),
  core_IntegerOctetString |->
      PrimT("iocts"),
  core_Any |->
      PrimT("any"),
  core_Sequence |->
      SeqT(<<>>),
  core_Set |->
      SetT(<<>>),
  core_SequenceOf |->
      SeqOfT("core_Any"),
  core_SetOf |->
      SetOfT("core_Any")
]

S_algos == [
  algos_AlgorithmIdentifier |->
      SeqT(<<F("algorithm", "core_ObjectIdentifier"),
        Opt(F("parameters", "core_Any"))>>),
  algos_HmacAlgorithmId |->
      OidT(<<<<<<1,3,14,3,2,10>>, "des_mac">>,
        <<<<1,2,840,113549,2,7>>, "sha1">>,
        <<<<1,2,840,113549,2,8>>, "sha224">>,
        <<<<1,2,840,113549,2,9>>, "sha256">>,
        <<<<1,2,840,113549,2,10>>, "sha384">>,
        <<<<1,2,840,113549,2,11>>, "sha512">>,
        <<<<1,2,840,113549,2,12>>, "sha512_224">>,
        <<<<1,2,840,113549,2,13>>, "sha512_256">>,
        <<<<2,16,840,1,101,3,4,2,13>>, "sha3_224">>,
        <<<<2,16,840,1,101,3,4,2,14>>, "sha3_256">>,
        <<<<2,16,840,1,101,3,4,2,15>>, "sha3_384">>,
        <<<<2,16,840,1,101,3,4,2,16>>, "sha3_512">>>>),
  algos_HmacAlgorithm |->
      SeqT(<<F("algorithm", "algos_HmacAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>),
  algos_DigestAlgorithmId |->
      OidT(<<<<<<1,2,840,113549,2,2>>, "md2">>,
        <<<<1,2,840,113549,2,5>>, "md5">>,
        <<<<1,3,14,3,2,26>>, "sha1">>,
        <<<<2,16,840,1,101,3,4,2,4>>, "sha224">>,
        <<<<2,16,840,1,101,3,4,2,1>>, "sha256">>,
        <<<<2,16,840,1,101,3,4,2,2>>, "sha384">>,
        <<<<2,16,840,1,101,3,4,2,3>>, "sha512">>,
        <<<<2,16,840,1,101,3,4,2,5>>, "sha512_224">>,
        <<<<2,16,840,1,101,3,4,2,6>>, "sha512_256">>,
        <<<<2,16,840,1,101,3,4,2,7>>, "sha3_224">>,
        <<<<2,16,840,1,101,3,4,2,8>>, "sha3_256">>,
        <<<<2,16,840,1,101,3,4,2,9>>, "sha3_384">>,
        <<<<2,16,840,1,101,3,4,2,10>>, "sha3_512">>,
        <<<<2,16,840,1,101,3,4,2,11>>, "shake128">>,
        <<<<2,16,840,1,101,3,4,2,12>>, "shake256">>,
        <<<<2,16,840,1,101,3,4,2,17>>, "shake128_len">>,
        <<<<2,16,840,1,101,3,4,2,18>>, "shake256_len">>>>),
  algos_DigestAlgorithm |->
      NullParamsOnly(SeqT(<<F("algorithm", "algos_DigestAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>)),
  algos_DigestInfo |->
      SeqT(<<F("digest_algorithm", "algos_DigestAlgorithm"),
        F("digest", "core_OctetString")>>),
  algos_MaskGenAlgorithmId |->
      OidT(<<<<<<1,2,840,113549,1,1,8>>, "mgf1">>>>),
  algos_MaskGenAlgorithm |->
      Gov(<<"algorithm">>, "parameters", <<<<"mgf1", "algos_DigestAlgorithm">>>>,
      SeqT(<<F("algorithm", "algos_MaskGenAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>)),
  algos_TrailerField |->
      IntMapT(<<<<1, "trailer_field_bc">>>>),
  algos_RSASSAPSSParams |->
      SeqT(<<Def(VMap(<<P("algorithm", VName("sha1"))>>), Ex(0, F("hash_algorithm", "algos_DigestAlgorithm"))),
        Def(VMap(<<P("algorithm", VName("mgf1")), P("parameters", VMap(<<P("algorithm", VName("sha1"))>>))>>), Ex(1, F("mask_gen_algorithm", "algos_MaskGenAlgorithm"))),
        Def(VNat(20), Ex(2, F("salt_length", "core_Integer"))),
        Def(VName("trailer_field_bc"), Ex(3, F("trailer_field", "algos_TrailerField")))>>),
  algos_SignedDigestAlgorithmId |->
      OidT(<<<<<<1,3,14,3,2,3>>, "md5_rsa">>,
        <<<<1,3,14,3,2,29>>, "sha1_rsa">>,
        <<<<1,3,14,7,2,3,1>>, "md2_rsa">>,
        <<<<1,2,840,113549,1,1,14>>, "sha224_rsa">>,
        <<<<1,2,840,113549,1,1,11>>, "sha256_rsa">>,
        <<<<1,2,840,113549,1,1,12>>, "sha384_rsa">>,
        <<<<1,2,840,113549,1,1,13>>, "sha512_rsa">>,
        <<<<1,2,840,113549,1,1,10>>, "rsassa_pss">>,
        <<<<1,3,14,3,2,13>>, "sha1_dsa">>,
        <<<<1,3,14,3,2,27>>, "sha1_dsa">>,
        <<<<2,16,840,1,101,3,4,3,1>>, "sha224_dsa">>,
        <<<<2,16,840,1,101,3,4,3,2>>, "sha256_dsa">>,
        <<<<2,16,840,1,101,3,4,3,3>>, "sha384_dsa">>,
        <<<<2,16,840,1,101,3,4,3,4>>, "sha512_dsa">>,
        <<<<1,2,840,10045,4,1>>, "sha1_ecdsa">>,
        <<<<1,2,840,10045,4,3,1>>, "sha224_ecdsa">>,
        <<<<1,2,840,10045,4,3,2>>, "sha256_ecdsa">>,
        <<<<1,2,840,10045,4,3,3>>, "sha384_ecdsa">>,
        <<<<1,2,840,10045,4,3,4>>, "sha512_ecdsa">>,
        <<<<2,16,840,1,101,3,4,3,5>>, "sha3_224_dsa">>,
        <<<<2,16,840,1,101,3,4,3,6>>, "sha3_256_dsa">>,
        <<<<2,16,840,1,101,3,4,3,7>>, "sha3_384_dsa">>,
        <<<<2,16,840,1,101,3,4,3,8>>, "sha3_512_dsa">>,
        <<<<2,16,840,1,101,3,4,3,9>>, "sha3_224_ecdsa">>,
        <<<<2,16,840,1,101,3,4,3,10>>, "sha3_256_ecdsa">>,
        <<<<2,16,840,1,101,3,4,3,11>>, "sha3_384_ecdsa">>,
        <<<<2,16,840,1,101,3,4,3,12>>, "sha3_512_ecdsa">>,
        <<<<2,16,840,1,101,3,4,3,13>>, "sha3_224_rsa">>,
        <<<<2,16,840,1,101,3,4,3,14>>, "sha3_256_rsa">>,
        <<<<2,16,840,1,101,3,4,3,15>>, "sha3_384_rsa">>,
        <<<<2,16,840,1,101,3,4,3,16>>, "sha3_512_rsa">>,
        <<<<1,2,840,113549,1,1,1>>, "rsassa_pkcs1v15">>,
        <<<<1,2,840,10040,4,1>>, "dsa">>,
        <<<<1,2,840,10045,4>>, "ecdsa">>,
        <<<<1,3,101,112>>, "ed25519">>,
        <<<<1,3,101,113>>, "ed448">>,
        <<<<0,4,0,127,0,7,1,1,4,1,1>>, "sha1_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,2>>, "sha224_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,3>>, "sha256_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,4>>, "sha384_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,5>>, "sha512_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,8>>, "sha3_224_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,9>>, "sha3_256_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,10>>, "sha3_384_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,11>>, "sha3_512_ecdsa_plain">>,
        <<<<1,2,840,113549,1,1,2>>, "md2_rsa">>,
        <<<<1,2,840,113549,1,1,4>>, "md5_rsa">>,
        <<<<1,2,840,113549,1,1,5>>, "sha1_rsa">>,
        <<<<1,2,840,10040,4,3>>, "sha1_dsa">>>>),
  algos_SignedDigestAlgorithm |->
      NullParams(Gov(<<"algorithm">>, "parameters", <<<<"rsassa_pss", "algos_RSASSAPSSParams">>>>,
      SeqT(<<F("algorithm", "algos_SignedDigestAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>))),
  algos_Pbkdf2Salt |->
      ChoiceT(<<F("specified", "core_OctetString"),
        F("other_source", "algos_AlgorithmIdentifier")>>),
  algos_Pbkdf2Params |->
      SeqT(<<F("salt", "algos_Pbkdf2Salt"),
        F("iteration_count", "core_Integer"),
        Opt(F("key_length", "core_Integer")),
        Def(VMap(<<P("algorithm", VName("sha1"))>>), F("prf", "algos_HmacAlgorithm"))>>),
  algos_ScryptParams |->
      SeqT(<<F("salt", "core_OctetString"),
        F("cost_parameter", "core_Integer"),
        F("block_size", "core_Integer"),
        F("parallelization_parameter", "core_Integer"),
        Opt(F("key_length", "core_Integer"))>>),
  algos_KdfAlgorithmId |->
      OidT(<<<<<<1,2,840,113549,1,5,12>>, "pbkdf2">>,
        <<<<1,3,6,1,4,1,11591,4,11>>, "scrypt">>>>),
  algos_KdfAlgorithm |->
      Gov(<<"algorithm">>, "parameters", <<<<"pbkdf2", "algos_Pbkdf2Params">>, <<"scrypt", "algos_ScryptParams">>>>,
      SeqT(<<F("algorithm", "algos_KdfAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>)),
  algos_DHParameters |->
      SeqT(<<F("p", "core_Integer"),
        F("g", "core_Integer"),
        Opt(F("private_value_length", "core_Integer"))>>),
  algos_KeyExchangeAlgorithmId |->
      OidT(<<<<<<1,2,840,113549,1,3,1>>, "dh">>>>),
  algos_KeyExchangeAlgorithm |->
      Gov(<<"algorithm">>, "parameters", <<<<"dh", "algos_DHParameters">>>>,
      SeqT(<<F("algorithm", "algos_KeyExchangeAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>)),
  algos_Rc2Params |->
      SeqT(<<Opt(F("rc2_parameter_version", "core_Integer")),
        F("iv", "core_OctetString")>>),
  algos_Rc5ParamVersion |->
      IntMapT(<<<<16, "v1-0">>>>),
  algos_Rc5Params |->
      SeqT(<<F("version", "algos_Rc5ParamVersion"),
        F("rounds", "core_Integer"),
        F("block_size_in_bits", "core_Integer"),
        Opt(F("iv", "core_OctetString"))>>),
  algos_Pbes1Params |->
      SeqT(<<F("salt", "core_OctetString"),
        F("iterations", "core_Integer")>>),
  algos_CcmParams |->
      SeqT(<<F("aes_nonce", "core_OctetString"),
        Def(VNat(12), F("aes_icvlen", "core_Integer"))>>),
  algos_PSourceAlgorithmId |->
      OidT(<<<<<<1,2,840,113549,1,1,9>>, "p_specified">>>>),
  algos_PSourceAlgorithm |->
      Gov(<<"algorithm">>, "parameters", <<<<"p_specified", "core_OctetString">>>>,
      SeqT(<<F("algorithm", "algos_PSourceAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>)),
  algos_RSAESOAEPParams |->
      SeqT(<<Def(VMap(<<P("algorithm", VName("sha1"))>>), Ex(0, F("hash_algorithm", "algos_DigestAlgorithm"))),
        Def(VMap(<<P("algorithm", VName("mgf1")), P("parameters", VMap(<<P("algorithm", VName("sha1"))>>))>>), Ex(1, F("mask_gen_algorithm", "algos_MaskGenAlgorithm"))),
        Def(VMap(<<P("algorithm", VName("p_specified")), P("parameters", VOct(<<>>))>>), Ex(2, F("p_source_algorithm", "algos_PSourceAlgorithm")))>>),
  algos_DSASignature |->
      SeqT(<<F("r", "core_Integer"),
        F("s", "core_Integer")>>),
  algos_EncryptionAlgorithmId |->
      OidT(<<<<<<1,3,14,3,2,7>>, "des">>,
        <<<<1,2,840,113549,3,7>>, "tripledes_3key">>,
        <<<<1,2,840,113549,3,2>>, "rc2">>,
        <<<<1,2,840,113549,3,4>>, "rc4">>,
        <<<<1,2,840,113549,3,9>>, "rc5">>,
        <<<<2,16,840,1,101,3,4,1,1>>, "aes128_ecb">>,
        <<<<2,16,840,1,101,3,4,1,2>>, "aes128_cbc">>,
        <<<<2,16,840,1,101,3,4,1,3>>, "aes128_ofb">>,
        <<<<2,16,840,1,101,3,4,1,4>>, "aes128_cfb">>,
        <<<<2,16,840,1,101,3,4,1,5>>, "aes128_wrap">>,
        <<<<2,16,840,1,101,3,4,1,6>>, "aes128_gcm">>,
        <<<<2,16,840,1,101,3,4,1,7>>, "aes128_ccm">>,
        <<<<2,16,840,1,101,3,4,1,8>>, "aes128_wrap_pad">>,
        <<<<2,16,840,1,101,3,4,1,21>>, "aes192_ecb">>,
        <<<<2,16,840,1,101,3,4,1,22>>, "aes192_cbc">>,
        <<<<2,16,840,1,101,3,4,1,23>>, "aes192_ofb">>,
        <<<<2,16,840,1,101,3,4,1,24>>, "aes192_cfb">>,
        <<<<2,16,840,1,101,3,4,1,25>>, "aes192_wrap">>,
        <<<<2,16,840,1,101,3,4,1,26>>, "aes192_gcm">>,
        <<<<2,16,840,1,101,3,4,1,27>>, "aes192_ccm">>,
        <<<<2,16,840,1,101,3,4,1,28>>, "aes192_wrap_pad">>,
        <<<<2,16,840,1,101,3,4,1,41>>, "aes256_ecb">>,
        <<<<2,16,840,1,101,3,4,1,42>>, "aes256_cbc">>,
        <<<<2,16,840,1,101,3,4,1,43>>, "aes256_ofb">>,
        <<<<2,16,840,1,101,3,4,1,44>>, "aes256_cfb">>,
        <<<<2,16,840,1,101,3,4,1,45>>, "aes256_wrap">>,
        <<<<2,16,840,1,101,3,4,1,46>>, "aes256_gcm">>,
        <<<<2,16,840,1,101,3,4,1,47>>, "aes256_ccm">>,
        <<<<2,16,840,1,101,3,4,1,48>>, "aes256_wrap_pad">>,
        <<<<1,2,840,113549,1,5,13>>, "pbes2">>,
        <<<<1,2,840,113549,1,5,1>>, "pbes1_md2_des">>,
        <<<<1,2,840,113549,1,5,3>>, "pbes1_md5_des">>,
        <<<<1,2,840,113549,1,5,4>>, "pbes1_md2_rc2">>,
        <<<<1,2,840,113549,1,5,6>>, "pbes1_md5_rc2">>,
        <<<<1,2,840,113549,1,5,10>>, "pbes1_sha1_des">>,
        <<<<1,2,840,113549,1,5,11>>, "pbes1_sha1_rc2">>,
        <<<<1,2,840,113549,1,12,1,1>>, "pkcs12_sha1_rc4_128">>,
        <<<<1,2,840,113549,1,12,1,2>>, "pkcs12_sha1_rc4_40">>,
        <<<<1,2,840,113549,1,12,1,3>>, "pkcs12_sha1_tripledes_3key">>,
        <<<<1,2,840,113549,1,12,1,4>>, "pkcs12_sha1_tripledes_2key">>,
        <<<<1,2,840,113549,1,12,1,5>>, "pkcs12_sha1_rc2_128">>,
        <<<<1,2,840,113549,1,12,1,6>>, "pkcs12_sha1_rc2_40">>,
        <<<<1,2,840,113549,1,1,1>>, "rsaes_pkcs1v15">>,
        <<<<1,2,840,113549,1,1,7>>, "rsaes_oaep">>>>),
  algos_EncryptionAlgorithm |->
      NullParams(Gov(<<"algorithm">>, "parameters", <<<<"des", "core_OctetString">>, <<"tripledes_3key", "core_OctetString">>, <<"rc2", "algos_Rc2Params">>, <<"rc5", "algos_Rc5Params">>, <<"aes128_cbc", "core_OctetString">>, <<"aes192_cbc", "core_OctetString">>, <<"aes256_cbc", "core_OctetString">>, <<"aes128_ofb", "core_OctetString">>, <<"aes192_ofb", "core_OctetString">>, <<"aes256_ofb", "core_OctetString">>, <<"aes128_ccm", "algos_CcmParams">>, <<"aes192_ccm", "algos_CcmParams">>, <<"aes256_ccm", "algos_CcmParams">>, <<"pbes1_md2_des", "algos_Pbes1Params">>, <<"pbes1_md5_des", "algos_Pbes1Params">>, <<"pbes1_md2_rc2", "algos_Pbes1Params">>, <<"pbes1_md5_rc2", "algos_Pbes1Params">>, <<"pbes1_sha1_des", "algos_Pbes1Params">>, <<"pbes1_sha1_rc2", "algos_Pbes1Params">>, <<"pkcs12_sha1_rc4_128", "algos_Pbes1Params">>, <<"pkcs12_sha1_rc4_40", "algos_Pbes1Params">>, <<"pkcs12_sha1_tripledes_3key", "algos_Pbes1Params">>, <<"pkcs12_sha1_tripledes_2key", "algos_Pbes1Params">>, <<"pkcs12_sha1_rc2_128", "algos_Pbes1Params">>, <<"pkcs12_sha1_rc2_40", "algos_Pbes1Params">>, <<"rsaes_oaep", "algos_RSAESOAEPParams">>, <<"pbes2", "algos_Pbes2Params">>>>,
      SeqT(<<F("algorithm", "algos_EncryptionAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>))),
  algos_Pbes2Params |->
      SeqT(<<F("key_derivation_func", "algos_KdfAlgorithm"),
        F("encryption_scheme", "algos_EncryptionAlgorithm")>>),
  algos_Pbmac1Params |->
      SeqT(<<F("key_derivation_func", "algos_KdfAlgorithm"),
        F("message_auth_scheme", "algos_HmacAlgorithm")>>),
  algos_Pkcs5MacId |->
      OidT(<<<<<<1,2,840,113549,1,5,14>>, "pbmac1">>>>),
  algos_Pkcs5MacAlgorithm |->
      Gov(<<"algorithm">>, "parameters", <<<<"pbmac1", "algos_Pbmac1Params">>>>,
      SeqT(<<F("algorithm", "algos_Pkcs5MacId"),
        F("parameters", "core_Any")>>)),
  algos_AnyAlgorithmId |->
      OidT(<<<<<<1,3,14,3,2,7>>, "des">>,
        <<<<1,2,840,113549,3,7>>, "tripledes_3key">>,
        <<<<1,2,840,113549,3,2>>, "rc2">>,
        <<<<1,2,840,113549,3,4>>, "rc4">>,
        <<<<1,2,840,113549,3,9>>, "rc5">>,
        <<<<2,16,840,1,101,3,4,1,1>>, "aes128_ecb">>,
        <<<<2,16,840,1,101,3,4,1,2>>, "aes128_cbc">>,
        <<<<2,16,840,1,101,3,4,1,3>>, "aes128_ofb">>,
        <<<<2,16,840,1,101,3,4,1,4>>, "aes128_cfb">>,
        <<<<2,16,840,1,101,3,4,1,5>>, "aes128_wrap">>,
        <<<<2,16,840,1,101,3,4,1,6>>, "aes128_gcm">>,
        <<<<2,16,840,1,101,3,4,1,7>>, "aes128_ccm">>,
        <<<<2,16,840,1,101,3,4,1,8>>, "aes128_wrap_pad">>,
        <<<<2,16,840,1,101,3,4,1,21>>, "aes192_ecb">>,
        <<<<2,16,840,1,101,3,4,1,22>>, "aes192_cbc">>,
        <<<<2,16,840,1,101,3,4,1,23>>, "aes192_ofb">>,
        <<<<2,16,840,1,101,3,4,1,24>>, "aes192_cfb">>,
        <<<<2,16,840,1,101,3,4,1,25>>, "aes192_wrap">>,
        <<<<2,16,840,1,101,3,4,1,26>>, "aes192_gcm">>,
        <<<<2,16,840,1,101,3,4,1,27>>, "aes192_ccm">>,
        <<<<2,16,840,1,101,3,4,1,28>>, "aes192_wrap_pad">>,
        <<<<2,16,840,1,101,3,4,1,41>>, "aes256_ecb">>,
        <<<<2,16,840,1,101,3,4,1,42>>, "aes256_cbc">>,
        <<<<2,16,840,1,101,3,4,1,43>>, "aes256_ofb">>,
        <<<<2,16,840,1,101,3,4,1,44>>, "aes256_cfb">>,
        <<<<2,16,840,1,101,3,4,1,45>>, "aes256_wrap">>,
        <<<<2,16,840,1,101,3,4,1,46>>, "aes256_gcm">>,
        <<<<2,16,840,1,101,3,4,1,47>>, "aes256_ccm">>,
        <<<<2,16,840,1,101,3,4,1,48>>, "aes256_wrap_pad">>,
        <<<<1,2,840,113549,1,5,13>>, "pbes2">>,
        <<<<1,2,840,113549,1,5,1>>, "pbes1_md2_des">>,
        <<<<1,2,840,113549,1,5,3>>, "pbes1_md5_des">>,
        <<<<1,2,840,113549,1,5,4>>, "pbes1_md2_rc2">>,
        <<<<1,2,840,113549,1,5,6>>, "pbes1_md5_rc2">>,
        <<<<1,2,840,113549,1,5,10>>, "pbes1_sha1_des">>,
        <<<<1,2,840,113549,1,5,11>>, "pbes1_sha1_rc2">>,
        <<<<1,2,840,113549,1,12,1,1>>, "pkcs12_sha1_rc4_128">>,
        <<<<1,2,840,113549,1,12,1,2>>, "pkcs12_sha1_rc4_40">>,
        <<<<1,2,840,113549,1,12,1,3>>, "pkcs12_sha1_tripledes_3key">>,
        <<<<1,2,840,113549,1,12,1,4>>, "pkcs12_sha1_tripledes_2key">>,
        <<<<1,2,840,113549,1,12,1,5>>, "pkcs12_sha1_rc2_128">>,
        <<<<1,2,840,113549,1,12,1,6>>, "pkcs12_sha1_rc2_40">>,
        <<<<1,2,840,113549,1,1,1>>, "rsassa_pkcs1v15">>,
        <<<<1,2,840,113549,1,1,7>>, "rsaes_oaep">>,
        <<<<1,3,14,3,2,3>>, "md5_rsa">>,
        <<<<1,3,14,3,2,29>>, "sha1_rsa">>,
        <<<<1,3,14,7,2,3,1>>, "md2_rsa">>,
        <<<<1,2,840,113549,1,1,14>>, "sha224_rsa">>,
        <<<<1,2,840,113549,1,1,11>>, "sha256_rsa">>,
        <<<<1,2,840,113549,1,1,12>>, "sha384_rsa">>,
        <<<<1,2,840,113549,1,1,13>>, "sha512_rsa">>,
        <<<<1,2,840,113549,1,1,10>>, "rsassa_pss">>,
        <<<<1,3,14,3,2,13>>, "sha1_dsa">>,
        <<<<1,3,14,3,2,27>>, "sha1_dsa">>,
        <<<<2,16,840,1,101,3,4,3,1>>, "sha224_dsa">>,
        <<<<2,16,840,1,101,3,4,3,2>>, "sha256_dsa">>,
        <<<<2,16,840,1,101,3,4,3,3>>, "sha384_dsa">>,
        <<<<2,16,840,1,101,3,4,3,4>>, "sha512_dsa">>,
        <<<<1,2,840,10045,4,1>>, "sha1_ecdsa">>,
        <<<<1,2,840,10045,4,3,1>>, "sha224_ecdsa">>,
        <<<<1,2,840,10045,4,3,2>>, "sha256_ecdsa">>,
        <<<<1,2,840,10045,4,3,3>>, "sha384_ecdsa">>,
        <<<<1,2,840,10045,4,3,4>>, "sha512_ecdsa">>,
        <<<<2,16,840,1,101,3,4,3,5>>, "sha3_224_dsa">>,
        <<<<2,16,840,1,101,3,4,3,6>>, "sha3_256_dsa">>,
        <<<<2,16,840,1,101,3,4,3,7>>, "sha3_384_dsa">>,
        <<<<2,16,840,1,101,3,4,3,8>>, "sha3_512_dsa">>,
        <<<<2,16,840,1,101,3,4,3,9>>, "sha3_224_ecdsa">>,
        <<<<2,16,840,1,101,3,4,3,10>>, "sha3_256_ecdsa">>,
        <<<<2,16,840,1,101,3,4,3,11>>, "sha3_384_ecdsa">>,
        <<<<2,16,840,1,101,3,4,3,12>>, "sha3_512_ecdsa">>,
        <<<<2,16,840,1,101,3,4,3,13>>, "sha3_224_rsa">>,
        <<<<2,16,840,1,101,3,4,3,14>>, "sha3_256_rsa">>,
        <<<<2,16,840,1,101,3,4,3,15>>, "sha3_384_rsa">>,
        <<<<2,16,840,1,101,3,4,3,16>>, "sha3_512_rsa">>,
        <<<<1,2,840,10040,4,1>>, "dsa">>,
        <<<<1,2,840,10045,4>>, "ecdsa">>,
        <<<<1,3,101,112>>, "ed25519">>,
        <<<<1,3,101,113>>, "ed448">>,
        <<<<0,4,0,127,0,7,1,1,4,1,1>>, "sha1_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,2>>, "sha224_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,3>>, "sha256_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,4>>, "sha384_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,5>>, "sha512_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,8>>, "sha3_224_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,9>>, "sha3_256_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,10>>, "sha3_384_ecdsa_plain">>,
        <<<<0,4,0,127,0,7,1,1,4,1,11>>, "sha3_512_ecdsa_plain">>,
        <<<<1,2,840,113549,2,2>>, "md2">>,
        <<<<1,2,840,113549,2,5>>, "md5">>,
        <<<<1,3,14,3,2,26>>, "sha1">>,
        <<<<2,16,840,1,101,3,4,2,4>>, "sha224">>,
        <<<<2,16,840,1,101,3,4,2,1>>, "sha256">>,
        <<<<2,16,840,1,101,3,4,2,2>>, "sha384">>,
        <<<<2,16,840,1,101,3,4,2,3>>, "sha512">>,
        <<<<2,16,840,1,101,3,4,2,5>>, "sha512_224">>,
        <<<<2,16,840,1,101,3,4,2,6>>, "sha512_256">>,
        <<<<2,16,840,1,101,3,4,2,7>>, "sha3_224">>,
        <<<<2,16,840,1,101,3,4,2,8>>, "sha3_256">>,
        <<<<2,16,840,1,101,3,4,2,9>>, "sha3_384">>,
        <<<<2,16,840,1,101,3,4,2,10>>, "sha3_512">>,
        <<<<2,16,840,1,101,3,4,2,11>>, "shake128">>,
        <<<<2,16,840,1,101,3,4,2,12>>, "shake256">>,
        <<<<2,16,840,1,101,3,4,2,17>>, "shake128_len">>,
        <<<<2,16,840,1,101,3,4,2,18>>, "shake256_len">>,
        <<<<1,2,840,113549,1,1,2>>, "md2_rsa">>,
        <<<<1,2,840,113549,1,1,4>>, "md5_rsa">>,
        <<<<1,2,840,113549,1,1,5>>, "sha1_rsa">>,
        <<<<1,2,840,10040,4,3>>, "sha1_dsa">>>>),
  algos_AnyAlgorithmIdentifier |->
      NullParams(Gov(<<"algorithm">>, "parameters", <<<<"des", "core_OctetString">>, <<"tripledes_3key", "core_OctetString">>, <<"rc2", "algos_Rc2Params">>, <<"rc5", "algos_Rc5Params">>, <<"aes128_cbc", "core_OctetString">>, <<"aes192_cbc", "core_OctetString">>, <<"aes256_cbc", "core_OctetString">>, <<"aes128_ofb", "core_OctetString">>, <<"aes192_ofb", "core_OctetString">>, <<"aes256_ofb", "core_OctetString">>, <<"aes128_ccm", "algos_CcmParams">>, <<"aes192_ccm", "algos_CcmParams">>, <<"aes256_ccm", "algos_CcmParams">>, <<"pbes1_md2_des", "algos_Pbes1Params">>, <<"pbes1_md5_des", "algos_Pbes1Params">>, <<"pbes1_md2_rc2", "algos_Pbes1Params">>, <<"pbes1_md5_rc2", "algos_Pbes1Params">>, <<"pbes1_sha1_des", "algos_Pbes1Params">>, <<"pbes1_sha1_rc2", "algos_Pbes1Params">>, <<"pkcs12_sha1_rc4_128", "algos_Pbes1Params">>, <<"pkcs12_sha1_rc4_40", "algos_Pbes1Params">>, <<"pkcs12_sha1_tripledes_3key", "algos_Pbes1Params">>, <<"pkcs12_sha1_tripledes_2key", "algos_Pbes1Params">>, <<"pkcs12_sha1_rc2_128", "algos_Pbes1Params">>, <<"pkcs12_sha1_rc2_40", "algos_Pbes1Params">>, <<"rsaes_oaep", "algos_RSAESOAEPParams">>, <<"pbes2", "algos_Pbes2Params">>, <<"rsassa_pss", "algos_RSASSAPSSParams">>>>,
      SeqT(<<F("algorithm", "algos_AnyAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>)))
]

S_cms == [
  cms_ExtendedCertificateInfo |->
      SeqT(<<F("version", "core_Integer"),
        F("certificate", "x509_Certificate"),
        F("attributes", "x509_Attributes")>>),
  cms_ExtendedCertificate |->
      SeqT(<<F("extended_certificate_info", "cms_ExtendedCertificateInfo"),
        F("signature_algorithm", "algos_SignedDigestAlgorithm"),
        F("signature", "core_OctetBitString")>>),
  cms_CMSVersion |->
      IntMapT(<<<<0, "v0">>, <<1, "v1">>, <<2, "v2">>, <<3, "v3">>, <<4, "v4">>, <<5, "v5">>>>),
  cms_CMSAttributeType |->
      OidT(<<<<<<1,2,840,113549,1,9,3>>, "content_type">>,
        <<<<1,2,840,113549,1,9,4>>, "message_digest">>,
        <<<<1,2,840,113549,1,9,5>>, "signing_time">>,
        <<<<1,2,840,113549,1,9,6>>, "counter_signature">>,
        <<<<1,2,840,113549,1,9,15>>, "smime_capabilities">>,
        <<<<1,2,840,113549,1,9,16,2,11>>, "encrypt_key_pref">>,
        <<<<1,2,840,113549,1,9,16,2,14>>, "signature_time_stamp_token">>,
        <<<<1,2,840,113549,1,9,52>>, "cms_algorithm_protection">>,
        <<<<1,3,6,1,4,1,311,2,4,1>>, "microsoft_nested_signature">>,
        <<<<1,3,6,1,4,1,311,3,3,1>>, "microsoft_time_stamp_token">>,
        <<<<1,2,840,113583,1,1,8>>, "adobe_revocation_info_archival">>,
        <<<<1,2,840,113549,1,9,16,2,12>>, "signing_certificate">>,
        <<<<1,2,840,113549,1,9,16,2,47>>, "signing_certificate_v2">>>>),
  cms_Time |->
      ChoiceT(<<F("utc_time", "core_UTCTime"),
        F("generalized_time", "core_GeneralizedTime")>>),
  cms_ContentType |->
      OidT(<<<<<<1,2,840,113549,1,7,1>>, "data">>,
        <<<<1,2,840,113549,1,7,2>>, "signed_data">>,
        <<<<1,2,840,113549,1,7,3>>, "enveloped_data">>,
        <<<<1,2,840,113549,1,7,4>>, "signed_and_enveloped_data">>,
        <<<<1,2,840,113549,1,7,5>>, "digested_data">>,
        <<<<1,2,840,113549,1,7,6>>, "encrypted_data">>,
        <<<<1,2,840,113549,1,9,16,1,2>>, "authenticated_data">>,
        <<<<1,2,840,113549,1,9,16,1,9>>, "compressed_data">>,
        <<<<1,2,840,113549,1,9,16,1,23>>, "authenticated_enveloped_data">>,
        <<<<1,2,840,113549,1,9,16,1,4>>, "tst_info">>,
        <<<<1,2,840,113549,1,9,16,1,31>>, "timestamped_data">>>>),
  cms_CMSAlgorithmProtection |->
      SeqT(<<F("digest_algorithm", "algos_DigestAlgorithm"),
        Opt(Im(1, F("signature_algorithm", "algos_SignedDigestAlgorithm"))),
        Opt(Im(2, F("mac_algorithm", "algos_HmacAlgorithm")))>>),
  cms_SetOfContentType |->
      SetOfT("cms_ContentType"),
  cms_SetOfOctetString |->
      SetOfT("core_OctetString"),
  cms_SetOfTime |->
      SetOfT("cms_Time"),
  cms_SetOfAny |->
      SetOfT("core_Any"),
  cms_SetOfCMSAlgorithmProtection |->
      SetOfT("cms_CMSAlgorithmProtection"),
  cms_CMSAttribute |->
      Gov(<<"type">>, "values", <<<<"content_type", "cms_SetOfContentType">>, <<"message_digest", "cms_SetOfOctetString">>, <<"signing_time", "cms_SetOfTime">>, <<"counter_signature", "cms_SignerInfos">>, <<"signature_time_stamp_token", "cms_SetOfContentInfo">>, <<"cms_algorithm_protection", "cms_SetOfCMSAlgorithmProtection">>, <<"microsoft_nested_signature", "cms_SetOfContentInfo">>, <<"microsoft_time_stamp_token", "cms_SetOfContentInfo">>, <<"encrypt_key_pref", "cms_SMIMEEncryptionKeyPreferences">>, <<"smime_capabilities", "cms_SetOfSMIMECapabilites">>, <<"adobe_revocation_info_archival", "pdf_SetOfRevocationInfoArchival">>, <<"signing_certificate", "tsp_SetOfSigningCertificates">>, <<"signing_certificate_v2", "tsp_SetOfSigningCertificatesV2">>>>,
      SeqT(<<F("type", "cms_CMSAttributeType"),
        F("values", "cms_SetOfAny")>>)),
  cms_CMSAttributes |->
      SetOfT("cms_CMSAttribute"),
  cms_IssuerSerial |->
      SeqT(<<F("issuer", "x509_GeneralNames"),
        F("serial", "core_Integer"),
        Opt(F("issuer_uid", "core_OctetBitString"))>>),
  cms_AttCertVersion |->
      IntMapT(<<<<0, "v1">>, <<1, "v2">>>>),
  cms_AttCertSubject |->
      ChoiceT(<<Ex(0, F("base_certificate_id", "cms_IssuerSerial")),
        Ex(1, F("subject_name", "x509_GeneralNames"))>>),
  cms_AttCertValidityPeriod |->
      SeqT(<<F("not_before_time", "core_GeneralizedTime"),
        F("not_after_time", "core_GeneralizedTime")>>),
  cms_AttributeCertificateInfoV1 |->
      SeqT(<<Def(VName("v1"), F("version", "cms_AttCertVersion")),
        F("subject", "cms_AttCertSubject"),
        F("issuer", "x509_GeneralNames"),
        F("signature", "algos_SignedDigestAlgorithm"),
        F("serial_number", "core_Integer"),
        F("att_cert_validity_period", "cms_AttCertValidityPeriod"),
        F("attributes", "x509_Attributes"),
        Opt(F("issuer_unique_id", "core_OctetBitString")),
        Opt(F("extensions", "x509_Extensions"))>>),
  cms_AttributeCertificateV1 |->
      SeqT(<<F("ac_info", "cms_AttributeCertificateInfoV1"),
        F("signature_algorithm", "algos_SignedDigestAlgorithm"),
        F("signature", "core_OctetBitString")>>),
  cms_DigestedObjectType |->
      EnumT(<<<<0, "public_key">>, <<1, "public_key_cert">>, <<2, "other_objy_types">>>>),
  cms_ObjectDigestInfo |->
      SeqT(<<F("digested_object_type", "cms_DigestedObjectType"),
        Opt(F("other_object_type_id", "core_ObjectIdentifier")),
        F("digest_algorithm", "algos_DigestAlgorithm"),
        F("object_digest", "core_OctetBitString")>>),
  cms_Holder |->
      SeqT(<<Opt(Im(0, F("base_certificate_id", "cms_IssuerSerial"))),
        Opt(Im(1, F("entity_name", "x509_GeneralNames"))),
        Opt(Im(2, F("object_digest_info", "cms_ObjectDigestInfo")))>>),
  cms_V2Form |->
      SeqT(<<Opt(F("issuer_name", "x509_GeneralNames")),
        Opt(Ex(0, F("base_certificate_id", "cms_IssuerSerial"))),
        Opt(Ex(1, F("object_digest_info", "cms_ObjectDigestInfo")))>>),
  cms_AttCertIssuer |->
      ChoiceT(<<F("v1_form", "x509_GeneralNames"),
        Im(0, F("v2_form", "cms_V2Form"))>>),
  cms_IetfAttrValue |->
      ChoiceT(<<F("octets", "core_OctetString"),
        F("oid", "core_ObjectIdentifier"),
        F("string", "core_UTF8String")>>),
  cms_IetfAttrValues |->
      SeqOfT("cms_IetfAttrValue"),
  cms_IetfAttrSyntax |->
      SeqT(<<Opt(Im(0, F("policy_authority", "x509_GeneralNames"))),
        F("values", "cms_IetfAttrValues")>>),
  cms_SetOfIetfAttrSyntax |->
      SetOfT("cms_IetfAttrSyntax"),
  cms_SvceAuthInfo |->
      SeqT(<<F("service", "x509_GeneralName"),
        F("ident", "x509_GeneralName"),
        Opt(F("auth_info", "core_OctetString"))>>),
  cms_SetOfSvceAuthInfo |->
      SetOfT("cms_SvceAuthInfo"),
  cms_RoleSyntax |->
      SeqT(<<Opt(Im(0, F("role_authority", "x509_GeneralNames"))),
        Ex(1, F("role_name", "x509_GeneralName"))>>),
  cms_SetOfRoleSyntax |->
      SetOfT("cms_RoleSyntax"),
  cms_ClassList |->
      BitMapT(<<<<0, "unmarked">>, <<1, "unclassified">>, <<2, "restricted">>, <<3, "confidential">>, <<4, "secret">>, <<5, "top_secret">>>>),
  cms_SecurityCategory |->
      SeqT(<<Im(0, F("type", "core_ObjectIdentifier")),
        Ex(1, F("value", "core_Any"))>>),
  cms_SetOfSecurityCategory |->
      SetOfT("cms_SecurityCategory"),
  cms_Clearance |->
      SeqT(<<F("policy_id", "core_ObjectIdentifier"),
        Def(VBits({"unclassified"}), F("class_list", "cms_ClassList")),
        Opt(F("security_categories", "cms_SetOfSecurityCategory"))>>),
  cms_SetOfClearance |->
      SetOfT("cms_Clearance"),
  cms_BigTime |->
      SeqT(<<F("major", "core_Integer"),
        F("fractional_seconds", "core_Integer"),
        Opt(F("sign", "core_Integer"))>>),
  cms_LeapData |->
      SeqT(<<F("leap_time", "cms_BigTime"),
        F("action", "core_Integer")>>),
  cms_SetOfLeapData |->
      SetOfT("cms_LeapData"),
  cms_TimingMetrics |->
      SeqT(<<F("ntp_time", "cms_BigTime"),
        F("offset", "cms_BigTime"),
        F("delay", "cms_BigTime"),
        F("expiration", "cms_BigTime"),
        Opt(F("leap_event", "cms_SetOfLeapData"))>>),
  cms_SetOfTimingMetrics |->
      SetOfT("cms_TimingMetrics"),
  cms_TimingPolicy |->
      SeqT(<<F("policy_id", "cms_TimingPolicy_policy_id"),
        Opt(Ex(0, F("max_offset", "cms_BigTime"))),
        Opt(Ex(1, F("max_delay", "cms_BigTime")))>>),
  cms_SetOfTimingPolicy |->
      SetOfT("cms_TimingPolicy"),
  cms_AttCertAttributeType |->
      OidT(<<<<<<1,3,6,1,5,5,7,10,1>>, "authentication_info">>,
        <<<<1,3,6,1,5,5,7,10,2>>, "access_identity">>,
        <<<<1,3,6,1,5,5,7,10,3>>, "charging_identity">>,
        <<<<1,3,6,1,5,5,7,10,4>>, "group">>,
        <<<<2,5,4,72>>, "role">>,
        <<<<2,5,4,55>>, "clearance">>,
        <<<<1,3,6,1,4,1,601,10,4,1>>, "timing_metrics">>,
        <<<<1,3,6,1,4,1,601,10,4,2>>, "timing_policy">>>>),
  cms_AttCertAttribute |->
      Gov(<<"type">>, "values", <<<<"authentication_info", "cms_SetOfSvceAuthInfo">>, <<"access_identity", "cms_SetOfSvceAuthInfo">>, <<"charging_identity", "cms_SetOfIetfAttrSyntax">>, <<"group", "cms_SetOfIetfAttrSyntax">>, <<"role", "cms_SetOfRoleSyntax">>, <<"clearance", "cms_SetOfClearance">>, <<"timing_metrics", "cms_SetOfTimingMetrics">>, <<"timing_policy", "cms_SetOfTimingPolicy">>>>,
      SeqT(<<F("type", "cms_AttCertAttributeType"),
        F("values", "cms_SetOfAny")>>)),
  cms_AttCertAttributes |->
      SeqOfT("cms_AttCertAttribute"),
  cms_AttributeCertificateInfoV2 |->
      SeqT(<<F("version", "cms_AttCertVersion"),
        F("holder", "cms_Holder"),
        F("issuer", "cms_AttCertIssuer"),
        F("signature", "algos_SignedDigestAlgorithm"),
        F("serial_number", "core_Integer"),
        F("att_cert_validity_period", "cms_AttCertValidityPeriod"),
        F("attributes", "cms_AttCertAttributes"),
        Opt(F("issuer_unique_id", "core_OctetBitString")),
        Opt(F("extensions", "x509_Extensions"))>>),
  cms_AttributeCertificateV2 |->
      SeqT(<<F("ac_info", "cms_AttributeCertificateInfoV2"),
        F("signature_algorithm", "algos_SignedDigestAlgorithm"),
        F("signature", "core_OctetBitString")>>),
  cms_OtherCertificateFormat |->
      SeqT(<<F("other_cert_format", "core_ObjectIdentifier"),
        F("other_cert", "core_Any")>>),
  cms_CertificateChoices |->
      ChoiceT(<<F("certificate", "x509_Certificate"),
        Im(0, F("extended_certificate", "cms_ExtendedCertificate")),
        Im(1, F("v1_attr_cert", "cms_AttributeCertificateV1")),
        Im(2, F("v2_attr_cert", "cms_AttributeCertificateV2")),
        Im(3, F("other", "cms_OtherCertificateFormat"))>>),
  cms_CertificateSet |->
      SetOfT("cms_CertificateChoices"),
  cms_ContentInfo |->
      Gov(<<"content_type">>, "content", <<<<"data", "core_OctetString">>, <<"signed_data", "cms_SignedData">>, <<"enveloped_data", "cms_EnvelopedData">>, <<"signed_and_enveloped_data", "cms_SignedAndEnvelopedData">>, <<"digested_data", "cms_DigestedData">>, <<"encrypted_data", "cms_EncryptedData">>, <<"authenticated_data", "cms_AuthenticatedData">>, <<"compressed_data", "cms_CompressedData">>, <<"authenticated_enveloped_data", "cms_AuthEnvelopedData">>, <<"timestamped_data", "tsp_TimeStampedData">>>>,
      SeqT(<<F("content_type", "cms_ContentType"),
        Opt(Ex(0, F("content", "core_Any")))>>)),
  cms_SetOfContentInfo |->
      SetOfT("cms_ContentInfo"),
  cms_EncapsulatedContentInfo |->
      Gov(<<"content_type">>, "content", <<<<"signed_data", "cms_SignedData">>, <<"enveloped_data", "cms_EnvelopedData">>, <<"signed_and_enveloped_data", "cms_SignedAndEnvelopedData">>, <<"digested_data", "cms_DigestedData">>, <<"encrypted_data", "cms_EncryptedData">>, <<"authenticated_data", "cms_AuthenticatedData">>, <<"compressed_data", "cms_CompressedData">>, <<"authenticated_enveloped_data", "cms_AuthEnvelopedData">>, <<"tst_info", "tsp_TSTInfo">>, <<"timestamped_data", "tsp_TimeStampedData">>>>,
      SeqT(<<F("content_type", "cms_ContentType"),
        Opt(Ex(0, F("content", "core_ParsableOctetString")))>>)),
  cms_IssuerAndSerialNumber |->
      SeqT(<<F("issuer", "x509_Name"),
        F("serial_number", "core_Integer")>>),
  cms_SignerIdentifier |->
      ChoiceT(<<F("issuer_and_serial_number", "cms_IssuerAndSerialNumber"),
        Im(0, F("subject_key_identifier", "core_OctetString"))>>),
  cms_DigestAlgorithms |->
      SetOfT("algos_DigestAlgorithm"),
  cms_CertificateRevocationLists |->
      SetOfT("crl_CertificateList"),
  cms_SCVPReqRes |->
      SeqT(<<Opt(Ex(0, F("request", "cms_ContentInfo"))),
        F("response", "cms_ContentInfo")>>),
  cms_OtherRevInfoFormatId |->
      OidT(<<<<<<1,3,6,1,5,5,7,16,2>>, "ocsp_response">>,
        <<<<1,3,6,1,5,5,7,16,4>>, "scvp">>>>),
  cms_OtherRevocationInfoFormat |->
      Gov(<<"other_rev_info_format">>, "other_rev_info", <<<<"ocsp_response", "ocsp_OCSPResponse">>, <<"scvp", "cms_SCVPReqRes">>>>,
      SeqT(<<F("other_rev_info_format", "cms_OtherRevInfoFormatId"),
        F("other_rev_info", "core_Any")>>)),
  cms_RevocationInfoChoice |->
      ChoiceT(<<F("crl", "crl_CertificateList"),
        Im(1, F("other", "cms_OtherRevocationInfoFormat"))>>),
  cms_RevocationInfoChoices |->
      SetOfT("cms_RevocationInfoChoice"),
  cms_SignerInfo |->
      SeqT(<<F("version", "cms_CMSVersion"),
        F("sid", "cms_SignerIdentifier"),
        F("digest_algorithm", "algos_DigestAlgorithm"),
        Opt(Im(0, F("signed_attrs", "cms_CMSAttributes"))),
        F("signature_algorithm", "algos_SignedDigestAlgorithm"),
        F("signature", "core_OctetString"),
        Opt(Im(1, F("unsigned_attrs", "cms_CMSAttributes")))>>),
  cms_SignerInfos |->
      SetOfT("cms_SignerInfo"),
  cms_SignedData |->
      Gov(<<"version">>, "encap_content_info", <<<<"v1", "cms_ContentInfo">>>>, SeqT(<<F("version", "cms_CMSVersion"),
        F("digest_algorithms", "cms_DigestAlgorithms"),
        F("encap_content_info", "cms_EncapsulatedContentInfo"),
        Opt(Im(0, F("certificates", "cms_CertificateSet"))),
        Opt(Im(1, F("crls", "cms_RevocationInfoChoices"))),
        F("signer_infos", "cms_SignerInfos")>>)),
  cms_OriginatorInfo |->
      SeqT(<<Opt(Im(0, F("certs", "cms_CertificateSet"))),
        Opt(Im(1, F("crls", "cms_RevocationInfoChoices")))>>),
  cms_RecipientIdentifier |->
      ChoiceT(<<F("issuer_and_serial_number", "cms_IssuerAndSerialNumber"),
        Im(0, F("subject_key_identifier", "core_OctetString"))>>),
  cms_KeyEncryptionAlgorithmId |->
      OidT(<<<<<<1,2,840,113549,1,1,1>>, "rsaes_pkcs1v15">>,
        <<<<1,2,840,113549,1,1,7>>, "rsaes_oaep">>,
        <<<<2,16,840,1,101,3,4,1,5>>, "aes128_wrap">>,
        <<<<2,16,840,1,101,3,4,1,8>>, "aes128_wrap_pad">>,
        <<<<2,16,840,1,101,3,4,1,25>>, "aes192_wrap">>,
        <<<<2,16,840,1,101,3,4,1,28>>, "aes192_wrap_pad">>,
        <<<<2,16,840,1,101,3,4,1,45>>, "aes256_wrap">>,
        <<<<2,16,840,1,101,3,4,1,48>>, "aes256_wrap_pad">>>>),
  cms_KeyEncryptionAlgorithm |->
      NullParams(Gov(<<"algorithm">>, "parameters", <<<<"rsaes_oaep", "algos_RSAESOAEPParams">>>>,
      SeqT(<<F("algorithm", "cms_KeyEncryptionAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>))),
  cms_KeyTransRecipientInfo |->
      SeqT(<<F("version", "cms_CMSVersion"),
        F("rid", "cms_RecipientIdentifier"),
        F("key_encryption_algorithm", "cms_KeyEncryptionAlgorithm"),
        F("encrypted_key", "core_OctetString")>>),
  cms_OriginatorIdentifierOrKey |->
      ChoiceT(<<F("issuer_and_serial_number", "cms_IssuerAndSerialNumber"),
        Im(0, F("subject_key_identifier", "core_OctetString")),
        Im(1, F("originator_key", "keys_PublicKeyInfo"))>>),
  cms_OtherKeyAttribute |->
      SeqT(<<F("key_attr_id", "core_ObjectIdentifier"),
        F("key_attr", "core_Any")>>),
  cms_RecipientKeyIdentifier |->
      SeqT(<<F("subject_key_identifier", "core_OctetString"),
        Opt(F("date", "core_GeneralizedTime")),
        Opt(F("other", "cms_OtherKeyAttribute"))>>),
  cms_KeyAgreementRecipientIdentifier |->
      ChoiceT(<<F("issuer_and_serial_number", "cms_IssuerAndSerialNumber"),
        Im(0, F("r_key_id", "cms_RecipientKeyIdentifier"))>>),
  cms_RecipientEncryptedKey |->
      SeqT(<<F("rid", "cms_KeyAgreementRecipientIdentifier"),
        F("encrypted_key", "core_OctetString")>>),
  cms_RecipientEncryptedKeys |->
      SeqOfT("cms_RecipientEncryptedKey"),
  cms_KeyAgreeRecipientInfo |->
      SeqT(<<F("version", "cms_CMSVersion"),
        Ex(0, F("originator", "cms_OriginatorIdentifierOrKey")),
        Opt(Ex(1, F("ukm", "core_OctetString"))),
        F("key_encryption_algorithm", "cms_KeyEncryptionAlgorithm"),
        F("recipient_encrypted_keys", "cms_RecipientEncryptedKeys")>>),
  cms_KEKIdentifier |->
      SeqT(<<F("key_identifier", "core_OctetString"),
        Opt(F("date", "core_GeneralizedTime")),
        Opt(F("other", "cms_OtherKeyAttribute"))>>),
  cms_KEKRecipientInfo |->
      SeqT(<<F("version", "cms_CMSVersion"),
        F("kekid", "cms_KEKIdentifier"),
        F("key_encryption_algorithm", "cms_KeyEncryptionAlgorithm"),
        F("encrypted_key", "core_OctetString")>>),
  cms_PasswordRecipientInfo |->
      SeqT(<<F("version", "cms_CMSVersion"),
        Opt(Im(0, F("key_derivation_algorithm", "algos_KdfAlgorithm"))),
        F("key_encryption_algorithm", "cms_KeyEncryptionAlgorithm"),
        F("encrypted_key", "core_OctetString")>>),
  cms_OtherRecipientInfo |->
      SeqT(<<F("ori_type", "core_ObjectIdentifier"),
        F("ori_value", "core_Any")>>),
  cms_RecipientInfo |->
      ChoiceT(<<F("ktri", "cms_KeyTransRecipientInfo"),
        Im(1, F("kari", "cms_KeyAgreeRecipientInfo")),
        Im(2, F("kekri", "cms_KEKRecipientInfo")),
        Im(3, F("pwri", "cms_PasswordRecipientInfo")),
        Im(4, F("ori", "cms_OtherRecipientInfo"))>>),
  cms_RecipientInfos |->
      SetOfT("cms_RecipientInfo"),
  cms_EncryptedContentInfo |->
      SeqT(<<F("content_type", "cms_ContentType"),
        F("content_encryption_algorithm", "algos_EncryptionAlgorithm"),
        Opt(Im(0, F("encrypted_content", "core_OctetString")))>>),
  cms_EnvelopedData |->
      SeqT(<<F("version", "cms_CMSVersion"),
        Opt(Im(0, F("originator_info", "cms_OriginatorInfo"))),
        F("recipient_infos", "cms_RecipientInfos"),
        F("encrypted_content_info", "cms_EncryptedContentInfo"),
        Opt(Im(1, F("unprotected_attrs", "cms_CMSAttributes")))>>),
  cms_SignedAndEnvelopedData |->
      SeqT(<<F("version", "cms_CMSVersion"),
        F("recipient_infos", "cms_RecipientInfos"),
        F("digest_algorithms", "cms_DigestAlgorithms"),
        F("encrypted_content_info", "cms_EncryptedContentInfo"),
        Opt(Im(0, F("certificates", "cms_CertificateSet"))),
        Opt(Im(1, F("crls", "cms_CertificateRevocationLists"))),
        F("signer_infos", "cms_SignerInfos")>>),
  cms_DigestedData |->
      Gov(<<"version">>, "encap_content_info", <<<<"v1", "cms_ContentInfo">>>>, SeqT(<<F("version", "cms_CMSVersion"),
        F("digest_algorithm", "algos_DigestAlgorithm"),
        F("encap_content_info", "cms_EncapsulatedContentInfo"),
        F("digest", "core_OctetString")>>)),
  cms_EncryptedData |->
      SeqT(<<F("version", "cms_CMSVersion"),
        F("encrypted_content_info", "cms_EncryptedContentInfo"),
        Opt(Im(1, F("unprotected_attrs", "cms_CMSAttributes")))>>),
  cms_AuthenticatedData |->
      SeqT(<<F("version", "cms_CMSVersion"),
        Opt(Im(0, F("originator_info", "cms_OriginatorInfo"))),
        F("recipient_infos", "cms_RecipientInfos"),
        F("mac_algorithm", "algos_HmacAlgorithm"),
        Opt(Im(1, F("digest_algorithm", "algos_DigestAlgorithm"))),
        F("encap_content_info", "cms_EncapsulatedContentInfo"),
        Opt(Im(2, F("auth_attrs", "cms_CMSAttributes"))),
        F("mac", "core_OctetString"),
        Opt(Im(3, F("unauth_attrs", "cms_CMSAttributes")))>>),
  cms_AuthEnvelopedData |->
      SeqT(<<F("version", "cms_CMSVersion"),
        Opt(Im(0, F("originator_info", "cms_OriginatorInfo"))),
        F("recipient_infos", "cms_RecipientInfos"),
        F("auth_encrypted_content_info", "cms_EncryptedContentInfo"),
        Opt(Im(1, F("auth_attrs", "cms_CMSAttributes"))),
        F("mac", "core_OctetString"),
        Opt(Im(2, F("unauth_attrs", "cms_CMSAttributes")))>>),
  cms_CompressionAlgorithmId |->
      OidT(<<<<<<1,2,840,113549,1,9,16,3,8>>, "zlib">>>>),
  cms_CompressionAlgorithm |->
      SeqT(<<F("algorithm", "cms_CompressionAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>),
  cms_CompressedData |->
      SeqT(<<F("version", "cms_CMSVersion"),
        F("compression_algorithm", "cms_CompressionAlgorithm"),
        F("encap_content_info", "cms_EncapsulatedContentInfo")>>),
  cms_SMIMEEncryptionKeyPreference |->
      ChoiceT(<<Im(0, F("issuer_and_serial_number", "cms_IssuerAndSerialNumber")),
        Im(1, F("recipient_key_id", "cms_RecipientKeyIdentifier")),
        Im(2, F("subject_alt_key_identifier", "keys_PublicKeyInfo"))>>),
  cms_SMIMEEncryptionKeyPreferences |->
      SetOfT("cms_SMIMEEncryptionKeyPreference"),
  cms_SMIMECapabilityIdentifier |->
      SeqT(<<F("capability_id", "algos_EncryptionAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>),
  cms_SMIMECapabilites |->
      SeqOfT("cms_SMIMECapabilityIdentifier"),
  cms_SetOfSMIMECapabilites |->
      SetOfT("cms_SMIMECapabilites"),
  cms_TimingPolicy_policy_id |->
      SeqOfT("core_ObjectIdentifier")
]

S_crl == [
  crl_Version |->
      IntMapT(<<<<0, "v1">>, <<1, "v2">>>>),
  crl_IssuingDistributionPoint |->
      SeqT(<<Opt(Ex(0, F("distribution_point", "x509_DistributionPointName"))),
        Def(VBool(FALSE), Im(1, F("only_contains_user_certs", "core_Boolean"))),
        Def(VBool(FALSE), Im(2, F("only_contains_ca_certs", "core_Boolean"))),
        Opt(Im(3, F("only_some_reasons", "x509_ReasonFlags"))),
        Def(VBool(FALSE), Im(4, F("indirect_crl", "core_Boolean"))),
        Def(VBool(FALSE), Im(5, F("only_contains_attribute_certs", "core_Boolean")))>>),
  crl_TBSCertListExtensionId |->
      OidT(<<<<<<2,5,29,18>>, "issuer_alt_name">>,
        <<<<2,5,29,20>>, "crl_number">>,
        <<<<2,5,29,27>>, "delta_crl_indicator">>,
        <<<<2,5,29,28>>, "issuing_distribution_point">>,
        <<<<2,5,29,35>>, "authority_key_identifier">>,
        <<<<2,5,29,46>>, "freshest_crl">>,
        <<<<1,3,6,1,5,5,7,1,1>>, "authority_information_access">>>>),
  crl_TBSCertListExtension |->
      Gov(<<"extn_id">>, "extn_value", <<<<"issuer_alt_name", "x509_GeneralNames">>, <<"crl_number", "core_Integer">>, <<"delta_crl_indicator", "core_Integer">>, <<"issuing_distribution_point", "crl_IssuingDistributionPoint">>, <<"authority_key_identifier", "x509_AuthorityKeyIdentifier">>, <<"freshest_crl", "x509_CRLDistributionPoints">>, <<"authority_information_access", "x509_AuthorityInfoAccessSyntax">>>>,
      SeqT(<<F("extn_id", "crl_TBSCertListExtensionId"),
        Def(VBool(FALSE), F("critical", "core_Boolean")),
        F("extn_value", "core_ParsableOctetString")>>)),
  crl_TBSCertListExtensions |->
      SeqOfT("crl_TBSCertListExtension"),
  crl_CRLReason |->
      EnumT(<<<<0, "unspecified">>, <<1, "key_compromise">>, <<2, "ca_compromise">>, <<3, "affiliation_changed">>, <<4, "superseded">>, <<5, "cessation_of_operation">>, <<6, "certificate_hold">>, <<8, "remove_from_crl">>, <<9, "privilege_withdrawn">>, <<10, "aa_compromise">>>>),
  crl_CRLEntryExtensionId |->
      OidT(<<<<<<2,5,29,21>>, "crl_reason">>,
        <<<<2,5,29,23>>, "hold_instruction_code">>,
        <<<<2,5,29,24>>, "invalidity_date">>,
        <<<<2,5,29,29>>, "certificate_issuer">>>>),
  crl_CRLEntryExtension |->
      Gov(<<"extn_id">>, "extn_value", <<<<"crl_reason", "crl_CRLReason">>, <<"hold_instruction_code", "core_ObjectIdentifier">>, <<"invalidity_date", "core_GeneralizedTime">>, <<"certificate_issuer", "x509_GeneralNames">>>>,
      SeqT(<<F("extn_id", "crl_CRLEntryExtensionId"),
        Def(VBool(FALSE), F("critical", "core_Boolean")),
        F("extn_value", "core_ParsableOctetString")>>)),
  crl_CRLEntryExtensions |->
      SeqOfT("crl_CRLEntryExtension"),
  crl_RevokedCertificate |->
      SeqT(<<F("user_certificate", "core_Integer"),
        F("revocation_date", "x509_Time"),
        Opt(F("crl_entry_extensions", "crl_CRLEntryExtensions"))>>),
  crl_RevokedCertificates |->
      SeqOfT("crl_RevokedCertificate"),
  crl_TbsCertList |->
      SeqT(<<Opt(F("version", "crl_Version")),
        F("signature", "algos_SignedDigestAlgorithm"),
        F("issuer", "x509_Name"),
        F("this_update", "x509_Time"),
        Opt(F("next_update", "x509_Time")),
        Opt(F("revoked_certificates", "crl_RevokedCertificates")),
        Opt(Ex(0, F("crl_extensions", "crl_TBSCertListExtensions")))>>),
  crl_CertificateList |->
      SeqT(<<F("tbs_cert_list", "crl_TbsCertList"),
        F("signature_algorithm", "algos_SignedDigestAlgorithm"),
        F("signature", "core_OctetBitString")>>)
]

S_csr == [
  csr_Version |->
      IntMapT(<<<<0, "v1">>>>),
  csr_CSRAttributeType |->
      OidT(<<<<<<1,2,840,113549,1,9,7>>, "challenge_password">>,
        <<<<1,2,840,113549,1,9,9>>, "extended_certificate_attributes">>,
        <<<<1,2,840,113549,1,9,14>>, "extension_request">>,
        <<<<1,3,6,1,4,1,311,13,2,2>>, "microsoft_enrollment_csp_provider">>,
        <<<<1,3,6,1,4,1,311,13,2,3>>, "microsoft_os_version">>,
        <<<<1,3,6,1,4,1,311,21,20>>, "microsoft_request_client_info">>>>),
  csr_SetOfDirectoryString |->
      SetOfT("x509_DirectoryString"),
  csr_Attribute |->
      SeqT(<<F("type", "core_ObjectIdentifier"),
        F("values", "csr_Attribute_values")>>),
  csr_SetOfAttributes |->
      SetOfT("csr_Attribute"),
  csr_SetOfExtensions |->
      SetOfT("x509_Extensions"),
  csr_MicrosoftEnrollmentCSProvider |->
      SeqT(<<F("keyspec", "core_Integer"),
        F("cspname", "core_BMPString"),
        F("signature", "core_BitString")>>),
  csr_SetOfMicrosoftEnrollmentCSProvider |->
      SetOfT("csr_MicrosoftEnrollmentCSProvider"),
  csr_MicrosoftRequestClientInfo |->
      SeqT(<<F("clientid", "core_Integer"),
        F("machinename", "core_UTF8String"),
        F("username", "core_UTF8String"),
        F("processname", "core_UTF8String")>>),
  csr_SetOfMicrosoftRequestClientInfo |->
      SetOfT("csr_MicrosoftRequestClientInfo"),
  csr_CRIAttribute |->
      Gov(<<"type">>, "values", <<<<"challenge_password", "csr_SetOfDirectoryString">>, <<"extended_certificate_attributes", "csr_SetOfAttributes">>, <<"extension_request", "csr_SetOfExtensions">>, <<"microsoft_enrollment_csp_provider", "csr_SetOfMicrosoftEnrollmentCSProvider">>, <<"microsoft_os_version", "csr_SetOfDirectoryString">>, <<"microsoft_request_client_info", "csr_SetOfMicrosoftRequestClientInfo">>>>,
      SeqT(<<F("type", "csr_CSRAttributeType"),
        F("values", "core_Any")>>)),
  csr_CRIAttributes |->
      SetOfT("csr_CRIAttribute"),
  csr_CertificationRequestInfo |->
      SeqT(<<F("version", "csr_Version"),
        F("subject", "x509_Name"),
        F("subject_pk_info", "keys_PublicKeyInfo"),
        Opt(Im(0, F("attributes", "csr_CRIAttributes")))>>),
  csr_CertificationRequest |->
      SeqT(<<F("certification_request_info", "csr_CertificationRequestInfo"),
        F("signature_algorithm", "algos_SignedDigestAlgorithm"),
        F("signature", "core_OctetBitString")>>),
  csr_Attribute_values |->
      SetOfT("core_Any")
]

S_keys == [
  keys_OtherPrimeInfo |->
      SeqT(<<F("prime", "core_Integer"),
        F("exponent", "core_Integer"),
        F("coefficient", "core_Integer")>>),
  keys_OtherPrimeInfos |->
      SeqOfT("keys_OtherPrimeInfo"),
  keys_RSAPrivateKeyVersion |->
      IntMapT(<<<<0, "two-prime">>, <<1, "multi">>>>),
  keys_RSAPrivateKey |->
      SeqT(<<F("version", "keys_RSAPrivateKeyVersion"),
        F("modulus", "core_Integer"),
        F("public_exponent", "core_Integer"),
        F("private_exponent", "core_Integer"),
        F("prime1", "core_Integer"),
        F("prime2", "core_Integer"),
        F("exponent1", "core_Integer"),
        F("exponent2", "core_Integer"),
        F("coefficient", "core_Integer"),
        Opt(F("other_prime_infos", "keys_OtherPrimeInfos"))>>),
  keys_RSAPublicKey |->
      SeqT(<<F("modulus", "core_Integer"),
        F("public_exponent", "core_Integer")>>),
  keys_DSAPrivateKey |->
      SeqT(<<F("version", "core_Integer"),
        F("p", "core_Integer"),
        F("q", "core_Integer"),
        F("g", "core_Integer"),
        F("public_key", "core_Integer"),
        F("private_key", "core_Integer")>>),
  keys_ECPoint |->
      PrimT("octets"),
  keys_ECPointBitString |->
      PrimT("obits"),
  keys_SpecifiedECDomainVersion |->
      IntMapT(<<<<1, "ecdpVer1">>, <<2, "ecdpVer2">>, <<3, "ecdpVer3">>>>),
  keys_FieldType |->
      OidT(<<<<<<1,2,840,10045,1,1>>, "prime_field">>,
        <<<<1,2,840,10045,1,2>>, "characteristic_two_field">>>>),
  keys_CharacteristicTwoBasis |->
      OidT(<<<<<<1,2,840,10045,1,2,1,1>>, "gn_basis">>,
        <<<<1,2,840,10045,1,2,1,2>>, "tp_basis">>,
        <<<<1,2,840,10045,1,2,1,3>>, "pp_basis">>>>),
  keys_Pentanomial |->
      SeqT(<<F("k1", "core_Integer"),
        F("k2", "core_Integer"),
        F("k3", "core_Integer")>>),
  keys_CharacteristicTwo |->
      Gov(<<"basis">>, "parameters", <<<<"gn_basis", "core_Null">>, <<"tp_basis", "core_Integer">>, <<"pp_basis", "keys_Pentanomial">>>>,
      SeqT(<<F("m", "core_Integer"),
        F("basis", "keys_CharacteristicTwoBasis"),
        F("parameters", "core_Any")>>)),
  keys_FieldID |->
      Gov(<<"field_type">>, "parameters", <<<<"prime_field", "core_Integer">>, <<"characteristic_two_field", "keys_CharacteristicTwo">>>>,
      SeqT(<<F("field_type", "keys_FieldType"),
        F("parameters", "core_Any")>>)),
  keys_Curve |->
      SeqT(<<F("a", "core_OctetString"),
        F("b", "core_OctetString"),
        Opt(F("seed", "core_OctetBitString"))>>),
  keys_SpecifiedECDomain |->
      SeqT(<<F("version", "keys_SpecifiedECDomainVersion"),
        F("field_id", "keys_FieldID"),
        F("curve", "keys_Curve"),
        F("base", "keys_ECPoint"),
        F("order", "core_Integer"),
        Opt(F("cofactor", "core_Integer")),
        Opt(F("hash", "algos_DigestAlgorithm"))>>),
  keys_NamedCurve |->
      OidT(<<<<<<1,2,840,10045,3,0,1>>, "c2pnb163v1">>,
        <<<<1,2,840,10045,3,0,2>>, "c2pnb163v2">>,
        <<<<1,2,840,10045,3,0,3>>, "c2pnb163v3">>,
        <<<<1,2,840,10045,3,0,4>>, "c2pnb176w1">>,
        <<<<1,2,840,10045,3,0,5>>, "c2tnb191v1">>,
        <<<<1,2,840,10045,3,0,6>>, "c2tnb191v2">>,
        <<<<1,2,840,10045,3,0,7>>, "c2tnb191v3">>,
        <<<<1,2,840,10045,3,0,8>>, "c2onb191v4">>,
        <<<<1,2,840,10045,3,0,9>>, "c2onb191v5">>,
        <<<<1,2,840,10045,3,0,10>>, "c2pnb208w1">>,
        <<<<1,2,840,10045,3,0,11>>, "c2tnb239v1">>,
        <<<<1,2,840,10045,3,0,12>>, "c2tnb239v2">>,
        <<<<1,2,840,10045,3,0,13>>, "c2tnb239v3">>,
        <<<<1,2,840,10045,3,0,14>>, "c2onb239v4">>,
        <<<<1,2,840,10045,3,0,15>>, "c2onb239v5">>,
        <<<<1,2,840,10045,3,0,16>>, "c2pnb272w1">>,
        <<<<1,2,840,10045,3,0,17>>, "c2pnb304w1">>,
        <<<<1,2,840,10045,3,0,18>>, "c2tnb359v1">>,
        <<<<1,2,840,10045,3,0,19>>, "c2pnb368w1">>,
        <<<<1,2,840,10045,3,0,20>>, "c2tnb431r1">>,
        <<<<1,2,840,10045,3,1,2>>, "prime192v2">>,
        <<<<1,2,840,10045,3,1,3>>, "prime192v3">>,
        <<<<1,2,840,10045,3,1,4>>, "prime239v1">>,
        <<<<1,2,840,10045,3,1,5>>, "prime239v2">>,
        <<<<1,2,840,10045,3,1,6>>, "prime239v3">>,
        <<<<1,2,840,10045,3,1,1>>, "secp192r1">>,
        <<<<1,2,840,10045,3,1,7>>, "secp256r1">>,
        <<<<1,3,132,0,1>>, "sect163k1">>,
        <<<<1,3,132,0,2>>, "sect163r1">>,
        <<<<1,3,132,0,3>>, "sect239k1">>,
        <<<<1,3,132,0,4>>, "sect113r1">>,
        <<<<1,3,132,0,5>>, "sect113r2">>,
        <<<<1,3,132,0,6>>, "secp112r1">>,
        <<<<1,3,132,0,7>>, "secp112r2">>,
        <<<<1,3,132,0,8>>, "secp160r1">>,
        <<<<1,3,132,0,9>>, "secp160k1">>,
        <<<<1,3,132,0,10>>, "secp256k1">>,
        <<<<1,3,132,0,15>>, "sect163r2">>,
        <<<<1,3,132,0,16>>, "sect283k1">>,
        <<<<1,3,132,0,17>>, "sect283r1">>,
        <<<<1,3,132,0,22>>, "sect131r1">>,
        <<<<1,3,132,0,23>>, "sect131r2">>,
        <<<<1,3,132,0,24>>, "sect193r1">>,
        <<<<1,3,132,0,25>>, "sect193r2">>,
        <<<<1,3,132,0,26>>, "sect233k1">>,
        <<<<1,3,132,0,27>>, "sect233r1">>,
        <<<<1,3,132,0,28>>, "secp128r1">>,
        <<<<1,3,132,0,29>>, "secp128r2">>,
        <<<<1,3,132,0,30>>, "secp160r2">>,
        <<<<1,3,132,0,31>>, "secp192k1">>,
        <<<<1,3,132,0,32>>, "secp224k1">>,
        <<<<1,3,132,0,33>>, "secp224r1">>,
        <<<<1,3,132,0,34>>, "secp384r1">>,
        <<<<1,3,132,0,35>>, "secp521r1">>,
        <<<<1,3,132,0,36>>, "sect409k1">>,
        <<<<1,3,132,0,37>>, "sect409r1">>,
        <<<<1,3,132,0,38>>, "sect571k1">>,
        <<<<1,3,132,0,39>>, "sect571r1">>,
        <<<<1,3,36,3,3,2,8,1,1,1>>, "brainpoolp160r1">>,
        <<<<1,3,36,3,3,2,8,1,1,2>>, "brainpoolp160t1">>,
        <<<<1,3,36,3,3,2,8,1,1,3>>, "brainpoolp192r1">>,
        <<<<1,3,36,3,3,2,8,1,1,4>>, "brainpoolp192t1">>,
        <<<<1,3,36,3,3,2,8,1,1,5>>, "brainpoolp224r1">>,
        <<<<1,3,36,3,3,2,8,1,1,6>>, "brainpoolp224t1">>,
        <<<<1,3,36,3,3,2,8,1,1,7>>, "brainpoolp256r1">>,
        <<<<1,3,36,3,3,2,8,1,1,8>>, "brainpoolp256t1">>,
        <<<<1,3,36,3,3,2,8,1,1,9>>, "brainpoolp320r1">>,
        <<<<1,3,36,3,3,2,8,1,1,10>>, "brainpoolp320t1">>,
        <<<<1,3,36,3,3,2,8,1,1,11>>, "brainpoolp384r1">>,
        <<<<1,3,36,3,3,2,8,1,1,12>>, "brainpoolp384t1">>,
        <<<<1,3,36,3,3,2,8,1,1,13>>, "brainpoolp512r1">>,
        <<<<1,3,36,3,3,2,8,1,1,14>>, "brainpoolp512t1">>>>),
  keys_ECDomainParameters |->
      ChoiceT(<<F("specified", "keys_SpecifiedECDomain"),
        F("named", "keys_NamedCurve"),
        F("implicit_ca", "core_Null")>>),
  keys_ECPrivateKeyVersion |->
      IntMapT(<<<<1, "ecPrivkeyVer1">>>>),
  keys_ECPrivateKey |->
      FixedWidth(SeqT(<<F("version", "keys_ECPrivateKeyVersion"),
        F("private_key", "core_IntegerOctetString"),
        Opt(Ex(0, F("parameters", "keys_ECDomainParameters"))),
        Opt(Ex(1, F("public_key", "keys_ECPointBitString")))>>)),
  keys_DSAParams |->
      SeqT(<<F("p", "core_Integer"),
        F("q", "core_Integer"),
        F("g", "core_Integer")>>),
  keys_Attribute |->
      SeqT(<<F("type", "core_ObjectIdentifier"),
        F("values", "keys_Attribute_values")>>),
  keys_Attributes |->
      SetOfT("keys_Attribute"),
  keys_PrivateKeyAlgorithmId |->
      OidT(<<<<<<1,2,840,113549,1,1,1>>, "rsa">>,
        <<<<1,2,840,113549,1,1,10>>, "rsassa_pss">>,
        <<<<1,2,840,10040,4,1>>, "dsa">>,
        <<<<1,2,840,10045,2,1>>, "ec">>,
        <<<<1,3,101,110>>, "x25519">>,
        <<<<1,3,101,111>>, "x448">>,
        <<<<1,3,101,112>>, "ed25519">>,
        <<<<1,3,101,113>>, "ed448">>>>),
  keys_PrivateKeyAlgorithm |->
      NullParams(Gov(<<"algorithm">>, "parameters", <<<<"dsa", "keys_DSAParams">>, <<"ec", "keys_ECDomainParameters">>, <<"rsassa_pss", "algos_RSASSAPSSParams">>>>,
      SeqT(<<F("algorithm", "keys_PrivateKeyAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>))),
  keys_PrivateKeyInfo |->
      Gov(<<"private_key_algorithm", "algorithm">>, "private_key", <<<<"rsa", "keys_RSAPrivateKey">>, <<"rsassa_pss", "keys_RSAPrivateKey">>, <<"dsa", "core_Integer">>,
      <<"ec", "keys_ECPrivateKey">>, <<"x25519", "core_OctetString">>, <<"x448", "core_OctetString">>, <<"ed25519", "core_OctetString">>, <<"ed448", "core_OctetString">>>>, SeqT(<<F("version", "core_Integer"),
        F("private_key_algorithm", "keys_PrivateKeyAlgorithm"),
        F("private_key", "core_ParsableOctetString"),
        Opt(Im(0, F("attributes", "keys_Attributes")))>>)),
  keys_EncryptedPrivateKeyInfo |->
      SeqT(<<F("encryption_algorithm", "algos_EncryptionAlgorithm"),
        F("encrypted_data", "core_OctetString")>>),
  keys_ValidationParms |->
      SeqT(<<F("seed", "core_BitString"),
        F("pgen_counter", "core_Integer")>>),
  keys_DomainParameters |->
      SeqT(<<F("p", "core_Integer"),
        F("g", "core_Integer"),
        F("q", "core_Integer"),
        Opt(F("j", "core_Integer")),
        Opt(F("validation_params", "keys_ValidationParms"))>>),
  keys_PublicKeyAlgorithmId |->
      OidT(<<<<<<1,2,840,113549,1,1,1>>, "rsa">>,
        <<<<1,2,840,113549,1,1,7>>, "rsaes_oaep">>,
        <<<<1,2,840,113549,1,1,10>>, "rsassa_pss">>,
        <<<<1,2,840,10040,4,1>>, "dsa">>,
        <<<<1,2,840,10045,2,1>>, "ec">>,
        <<<<1,2,840,10046,2,1>>, "dh">>,
        <<<<1,3,101,110>>, "x25519">>,
        <<<<1,3,101,111>>, "x448">>,
        <<<<1,3,101,112>>, "ed25519">>,
        <<<<1,3,101,113>>, "ed448">>>>),
  keys_PublicKeyAlgorithm |->
      NullParams(Gov(<<"algorithm">>, "parameters", <<<<"dsa", "keys_DSAParams">>, <<"ec", "keys_ECDomainParameters">>, <<"dh", "keys_DomainParameters">>, <<"rsaes_oaep", "algos_RSAESOAEPParams">>, <<"rsassa_pss", "algos_RSASSAPSSParams">>>>,
      SeqT(<<F("algorithm", "keys_PublicKeyAlgorithmId"),
        Opt(F("parameters", "core_Any"))>>))),
  keys_PublicKeyInfo |->
      Gov(<<"algorithm", "algorithm">>, "public_key", <<<<"rsa", "keys_RSAPublicKey">>, <<"rsaes_oaep", "keys_RSAPublicKey">>, <<"rsassa_pss", "keys_RSAPublicKey">>,
      <<"dsa", "core_Integer">>, <<"dh", "core_Integer">>, <<"ec", "keys_ECPointBitString">>, <<"x25519", "core_OctetBitString">>, <<"x448", "core_OctetBitString">>,
      <<"ed25519", "core_OctetBitString">>, <<"ed448", "core_OctetBitString">>>>, SeqT(<<F("algorithm", "keys_PublicKeyAlgorithm"),
        F("public_key", "core_ParsableOctetBitString")>>)),
  keys_Attribute_values |->
      SetOfT("core_Any")
]

S_ocsp == [
  ocsp_Version |->
      IntMapT(<<<<0, "v1">>>>),
  ocsp_CertId |->
      SeqT(<<F("hash_algorithm", "algos_DigestAlgorithm"),
        F("issuer_name_hash", "core_OctetString"),
        F("issuer_key_hash", "core_OctetString"),
        F("serial_number", "core_Integer")>>),
  ocsp_ServiceLocator |->
      SeqT(<<F("issuer", "x509_Name"),
        F("locator", "x509_AuthorityInfoAccessSyntax")>>),
  ocsp_RequestExtensionId |->
      OidT(<<<<<<1,3,6,1,5,5,7,48,1,7>>, "service_locator">>>>),
  ocsp_RequestExtension |->
      Gov(<<"extn_id">>, "extn_value", <<<<"service_locator", "ocsp_ServiceLocator">>>>,
      SeqT(<<F("extn_id", "ocsp_RequestExtensionId"),
        Def(VBool(FALSE), F("critical", "core_Boolean")),
        F("extn_value", "core_ParsableOctetString")>>)),
  ocsp_RequestExtensions |->
      SeqOfT("ocsp_RequestExtension"),
  ocsp_Request |->
      SeqT(<<F("req_cert", "ocsp_CertId"),
        Opt(Ex(0, F("single_request_extensions", "ocsp_RequestExtensions")))>>),
  ocsp_Requests |->
      SeqOfT("ocsp_Request"),
  ocsp_ResponseType |->
      OidT(<<<<<<1,3,6,1,5,5,7,48,1,1>>, "basic_ocsp_response">>>>),
  ocsp_AcceptableResponses |->
      SeqOfT("ocsp_ResponseType"),
  ocsp_PreferredSignatureAlgorithm |->
      SeqT(<<F("sig_identifier", "algos_SignedDigestAlgorithm"),
        Opt(F("cert_identifier", "keys_PublicKeyAlgorithm"))>>),
  ocsp_PreferredSignatureAlgorithms |->
      SeqOfT("ocsp_PreferredSignatureAlgorithm"),
  ocsp_TBSRequestExtensionId |->
      OidT(<<<<<<1,3,6,1,5,5,7,48,1,2>>, "nonce">>,
        <<<<1,3,6,1,5,5,7,48,1,4>>, "acceptable_responses">>,
        <<<<1,3,6,1,5,5,7,48,1,8>>, "preferred_signature_algorithms">>>>),
  ocsp_TBSRequestExtension |->
      Gov(<<"extn_id">>, "extn_value", <<<<"nonce", "core_OctetString">>, <<"acceptable_responses", "ocsp_AcceptableResponses">>, <<"preferred_signature_algorithms", "ocsp_PreferredSignatureAlgorithms">>>>,
      SeqT(<<F("extn_id", "ocsp_TBSRequestExtensionId"),
        Def(VBool(FALSE), F("critical", "core_Boolean")),
        F("extn_value", "core_ParsableOctetString")>>)),
  ocsp_TBSRequestExtensions |->
      SeqOfT("ocsp_TBSRequestExtension"),
  ocsp_TBSRequest |->
      SeqT(<<Def(VName("v1"), Ex(0, F("version", "ocsp_Version"))),
        Opt(Ex(1, F("requestor_name", "x509_GeneralName"))),
        F("request_list", "ocsp_Requests"),
        Opt(Ex(2, F("request_extensions", "ocsp_TBSRequestExtensions")))>>),
  ocsp_Certificates |->
      SeqOfT("x509_Certificate"),
  ocsp_Signature |->
      SeqT(<<F("signature_algorithm", "algos_SignedDigestAlgorithm"),
        F("signature", "core_OctetBitString"),
        Opt(Ex(0, F("certs", "ocsp_Certificates")))>>),
  ocsp_OCSPRequest |->
      SeqT(<<F("tbs_request", "ocsp_TBSRequest"),
        Opt(Ex(0, F("optional_signature", "ocsp_Signature")))>>),
  ocsp_OCSPResponseStatus |->
      EnumT(<<<<0, "successful">>, <<1, "malformed_request">>, <<2, "internal_error">>, <<3, "try_later">>, <<5, "sign_required">>, <<6, "unauthorized">>>>),
  ocsp_ResponderId |->
      ChoiceT(<<Ex(1, F("by_name", "x509_Name")),
        Ex(2, F("by_key", "core_OctetString"))>>),
  ocsp_StatusGood |->
      NullNameT("good"),
  ocsp_StatusUnknown |->
      NullNameT("unknown"),
  ocsp_RevokedInfo |->
      SeqT(<<F("revocation_time", "core_GeneralizedTime"),
        Opt(Ex(0, F("revocation_reason", "crl_CRLReason")))>>),
  ocsp_CertStatus |->
      ChoiceT(<<Im(0, F("good", "ocsp_StatusGood")),
        Im(1, F("revoked", "ocsp_RevokedInfo")),
        Im(2, F("unknown", "ocsp_StatusUnknown"))>>),
  ocsp_CrlId |->
      SeqT(<<Opt(Ex(0, F("crl_url", "core_IA5String"))),
        Opt(Ex(1, F("crl_num", "core_Integer"))),
        Opt(Ex(2, F("crl_time", "core_GeneralizedTime")))>>),
  ocsp_SingleResponseExtensionId |->
      OidT(<<<<<<1,3,6,1,5,5,7,48,1,3>>, "crl">>,
        <<<<1,3,6,1,5,5,7,48,1,6>>, "archive_cutoff">>,
        <<<<2,5,29,21>>, "crl_reason">>,
        <<<<2,5,29,24>>, "invalidity_date">>,
        <<<<2,5,29,29>>, "certificate_issuer">>,
        <<<<1,3,6,1,4,1,11129,2,4,5>>, "signed_certificate_timestamp_list">>>>),
  ocsp_SingleResponseExtension |->
      Gov(<<"extn_id">>, "extn_value", <<<<"crl", "ocsp_CrlId">>, <<"archive_cutoff", "core_GeneralizedTime">>, <<"crl_reason", "crl_CRLReason">>, <<"invalidity_date", "core_GeneralizedTime">>, <<"certificate_issuer", "x509_GeneralNames">>, <<"signed_certificate_timestamp_list", "core_OctetString">>>>,
      SeqT(<<F("extn_id", "ocsp_SingleResponseExtensionId"),
        Def(VBool(FALSE), F("critical", "core_Boolean")),
        F("extn_value", "core_ParsableOctetString")>>)),
  ocsp_SingleResponseExtensions |->
      SeqOfT("ocsp_SingleResponseExtension"),
  ocsp_SingleResponse |->
      SeqT(<<F("cert_id", "ocsp_CertId"),
        F("cert_status", "ocsp_CertStatus"),
        F("this_update", "core_GeneralizedTime"),
        Opt(Ex(0, F("next_update", "core_GeneralizedTime"))),
        Opt(Ex(1, F("single_extensions", "ocsp_SingleResponseExtensions")))>>),
  ocsp_Responses |->
      SeqOfT("ocsp_SingleResponse"),
  ocsp_ResponseDataExtensionId |->
      OidT(<<<<<<1,3,6,1,5,5,7,48,1,2>>, "nonce">>,
        <<<<1,3,6,1,5,5,7,48,1,9>>, "extended_revoke">>>>),
  ocsp_ResponseDataExtension |->
      Gov(<<"extn_id">>, "extn_value", <<<<"nonce", "core_OctetString">>, <<"extended_revoke", "core_Null">>>>,
      SeqT(<<F("extn_id", "ocsp_ResponseDataExtensionId"),
        Def(VBool(FALSE), F("critical", "core_Boolean")),
        F("extn_value", "core_ParsableOctetString")>>)),
  ocsp_ResponseDataExtensions |->
      SeqOfT("ocsp_ResponseDataExtension"),
  ocsp_ResponseData |->
      SeqT(<<Def(VName("v1"), Ex(0, F("version", "ocsp_Version"))),
        F("responder_id", "ocsp_ResponderId"),
        F("produced_at", "core_GeneralizedTime"),
        F("responses", "ocsp_Responses"),
        Opt(Ex(1, F("response_extensions", "ocsp_ResponseDataExtensions")))>>),
  ocsp_BasicOCSPResponse |->
      SeqT(<<F("tbs_response_data", "ocsp_ResponseData"),
        F("signature_algorithm", "algos_SignedDigestAlgorithm"),
        F("signature", "core_OctetBitString"),
        Opt(Ex(0, F("certs", "ocsp_Certificates")))>>),
  ocsp_ResponseBytes |->
      Gov(<<"response_type">>, "response", <<<<"basic_ocsp_response", "ocsp_BasicOCSPResponse">>>>,
      SeqT(<<F("response_type", "ocsp_ResponseType"),
        F("response", "core_ParsableOctetString")>>)),
  ocsp_OCSPResponse |->
      SeqT(<<F("response_status", "ocsp_OCSPResponseStatus"),
        Opt(Ex(0, F("response_bytes", "ocsp_ResponseBytes")))>>)
]

S_pdf == [
  pdf_AdobeArchiveRevInfo |->
      SeqT(<<F("version", "core_Integer")>>),
  pdf_AdobeTimestamp |->
      SeqT(<<F("version", "core_Integer"),
        F("location", "x509_GeneralName"),
        Def(VBool(FALSE), F("requires_auth", "core_Boolean"))>>),
  pdf_OtherRevInfo |->
      SeqT(<<F("type", "core_ObjectIdentifier"),
        F("value", "core_OctetString")>>),
  pdf_SequenceOfCertificateList |->
      SeqOfT("crl_CertificateList"),
  pdf_SequenceOfOCSPResponse |->
      SeqOfT("ocsp_OCSPResponse"),
  pdf_SequenceOfOtherRevInfo |->
      SeqOfT("pdf_OtherRevInfo"),
  pdf_RevocationInfoArchival |->
      SeqT(<<Opt(Ex(0, F("crl", "pdf_SequenceOfCertificateList"))),
        Opt(Ex(1, F("ocsp", "pdf_SequenceOfOCSPResponse"))),
        Opt(Ex(2, F("other_rev_info", "pdf_SequenceOfOtherRevInfo")))>>),
  pdf_SetOfRevocationInfoArchival |->
      SetOfT("pdf_RevocationInfoArchival")
]

S_pkcs12 == [
  pkcs12_MacData |->
      SeqT(<<F("mac", "algos_DigestInfo"),
        F("mac_salt", "core_OctetString"),
        Def(VNat(1), F("iterations", "core_Integer"))>>),
  pkcs12_Version |->
      IntMapT(<<<<3, "v3">>>>),
  pkcs12_AttributeType |->
      OidT(<<<<<<1,2,840,113549,1,9,20>>, "friendly_name">>,
        <<<<1,2,840,113549,1,9,21>>, "local_key_id">>,
        <<<<1,3,6,1,4,1,311,17,1>>, "microsoft_csp_name">>,
        <<<<1,3,6,1,4,1,311,17,2>>, "microsoft_local_machine_keyset">>,
        <<<<2,16,840,1,113894,746875,1,1>>, "trusted_key_usage">>>>),
  pkcs12_SetOfAny |->
      SetOfT("core_Any"),
  pkcs12_SetOfBMPString |->
      SetOfT("core_BMPString"),
  pkcs12_SetOfOctetString |->
      SetOfT("core_OctetString"),
  pkcs12_SetOfKeyPurposeId |->
      SetOfT("x509_KeyPurposeId"),
  pkcs12_Attribute |->
      Gov(<<"type">>, "values", <<<<"friendly_name", "pkcs12_SetOfBMPString">>, <<"local_key_id", "pkcs12_SetOfOctetString">>, <<"microsoft_csp_name", "pkcs12_SetOfBMPString">>, <<"trusted_key_usage", "pkcs12_SetOfKeyPurposeId">>>>,
      SeqT(<<F("type", "pkcs12_AttributeType"),
        F("values", "pkcs12_SetOfAny")>>)),
  pkcs12_Attributes |->
      SetOfT("pkcs12_Attribute"),
  pkcs12_Pfx |->
      SeqT(<<F("version", "pkcs12_Version"),
        F("auth_safe", "cms_ContentInfo"),
        Opt(F("mac_data", "pkcs12_MacData"))>>),
  pkcs12_AuthenticatedSafe |->
      SeqOfT("cms_ContentInfo"),
  pkcs12_BagId |->
      OidT(<<<<<<1,2,840,113549,1,12,10,1,1>>, "key_bag">>,
        <<<<1,2,840,113549,1,12,10,1,2>>, "pkcs8_shrouded_key_bag">>,
        <<<<1,2,840,113549,1,12,10,1,3>>, "cert_bag">>,
        <<<<1,2,840,113549,1,12,10,1,4>>, "crl_bag">>,
        <<<<1,2,840,113549,1,12,10,1,5>>, "secret_bag">>,
        <<<<1,2,840,113549,1,12,10,1,6>>, "safe_contents">>>>),
  pkcs12_CertId |->
      OidT(<<<<<<1,2,840,113549,1,9,22,1>>, "x509">>,
        <<<<1,2,840,113549,1,9,22,2>>, "sdsi">>>>),
  pkcs12_CertBag |->
      Gov(<<"cert_id">>, "cert_value", <<<<"x509", "x509_Certificate">>>>,
      SeqT(<<F("cert_id", "pkcs12_CertId"),
        Ex(0, F("cert_value", "core_ParsableOctetString"))>>)),
  pkcs12_CrlBag |->
      SeqT(<<F("crl_id", "core_ObjectIdentifier"),
        Ex(0, F("crl_value", "core_OctetString"))>>),
  pkcs12_SecretBag |->
      SeqT(<<F("secret_type_id", "core_ObjectIdentifier"),
        Ex(0, F("secret_value", "core_OctetString"))>>),
  pkcs12_SafeContents |->
      SeqOfT("pkcs12_SafeBag"),
  pkcs12_SafeBag |->
      Gov(<<"bag_id">>, "bag_value", <<<<"key_bag", "keys_PrivateKeyInfo">>, <<"pkcs8_shrouded_key_bag", "keys_EncryptedPrivateKeyInfo">>, <<"cert_bag", "pkcs12_CertBag">>, <<"crl_bag", "pkcs12_CrlBag">>, <<"secret_bag", "pkcs12_SecretBag">>, <<"safe_contents", "pkcs12_SafeContents">>>>,
      SeqT(<<F("bag_id", "pkcs12_BagId"),
        Ex(0, F("bag_value", "core_Any")),
        Opt(F("bag_attributes", "pkcs12_Attributes"))>>))
]

S_tsp == [
  tsp_Version |->
      IntMapT(<<<<0, "v0">>, <<1, "v1">>, <<2, "v2">>, <<3, "v3">>, <<4, "v4">>, <<5, "v5">>>>),
  tsp_MessageImprint |->
      SeqT(<<F("hash_algorithm", "algos_DigestAlgorithm"),
        F("hashed_message", "core_OctetString")>>),
  tsp_Accuracy |->
      SeqT(<<Opt(F("seconds", "core_Integer")),
        Opt(Im(0, F("millis", "core_Integer"))),
        Opt(Im(1, F("micros", "core_Integer")))>>),
  tsp_Extension |->
      SeqT(<<F("extn_id", "core_ObjectIdentifier"),
        Def(VBool(FALSE), F("critical", "core_Boolean")),
        F("extn_value", "core_OctetString")>>),
  tsp_Extensions |->
      SeqOfT("tsp_Extension"),
  tsp_TSTInfo |->
      SeqT(<<F("version", "tsp_Version"),
        F("policy", "core_ObjectIdentifier"),
        F("message_imprint", "tsp_MessageImprint"),
        F("serial_number", "core_Integer"),
        F("gen_time", "core_GeneralizedTime"),
        Opt(F("accuracy", "tsp_Accuracy")),
        Def(VBool(FALSE), F("ordering", "core_Boolean")),
        Opt(F("nonce", "core_Integer")),
        Opt(Ex(0, F("tsa", "x509_GeneralName"))),
        Opt(Im(1, F("extensions", "tsp_Extensions")))>>),
  tsp_TimeStampReq |->
      SeqT(<<F("version", "tsp_Version"),
        F("message_imprint", "tsp_MessageImprint"),
        Opt(F("req_policy", "core_ObjectIdentifier")),
        Opt(F("nonce", "core_Integer")),
        Def(VBool(FALSE), F("cert_req", "core_Boolean")),
        Opt(Im(0, F("extensions", "tsp_Extensions")))>>),
  tsp_PKIStatus |->
      IntMapT(<<<<0, "granted">>, <<1, "granted_with_mods">>, <<2, "rejection">>, <<3, "waiting">>, <<4, "revocation_warning">>, <<5, "revocation_notification">>>>),
  tsp_PKIFreeText |->
      SeqOfT("core_UTF8String"),
  tsp_PKIFailureInfo |->
      BitMapT(<<<<0, "bad_alg">>, <<2, "bad_request">>, <<5, "bad_data_format">>, <<14, "time_not_available">>, <<15, "unaccepted_policy">>, <<16, "unaccepted_extensions">>, <<17, "add_info_not_available">>, <<25, "system_failure">>>>),
  tsp_PKIStatusInfo |->
      SeqT(<<F("status", "tsp_PKIStatus"),
        Opt(F("status_string", "tsp_PKIFreeText")),
        Opt(F("fail_info", "tsp_PKIFailureInfo"))>>),
  tsp_TimeStampResp |->
      SeqT(<<F("status", "tsp_PKIStatusInfo"),
        Opt(F("time_stamp_token", "cms_ContentInfo"))>>),
  tsp_MetaData |->
      SeqT(<<F("hash_protected", "core_Boolean"),
        Opt(F("file_name", "core_UTF8String")),
        Opt(F("media_type", "core_IA5String")),
        Opt(F("other_meta_data", "x509_Attributes"))>>),
  tsp_TimeStampAndCRL |->
      SeqT(<<F("time_stamp", "cms_EncapsulatedContentInfo"),
        Opt(F("crl", "crl_CertificateList"))>>),
  tsp_TimeStampTokenEvidence |->
      SeqOfT("tsp_TimeStampAndCRL"),
  tsp_DigestAlgorithms |->
      SeqOfT("algos_DigestAlgorithm"),
  tsp_EncryptionInfo |->
      SeqT(<<F("encryption_info_type", "core_ObjectIdentifier"),
        F("encryption_info_value", "core_Any")>>),
  tsp_PartialHashtree |->
      SeqOfT("core_OctetString"),
  tsp_PartialHashtrees |->
      SeqOfT("tsp_PartialHashtree"),
  tsp_ArchiveTimeStamp |->
      SeqT(<<Opt(Im(0, F("digest_algorithm", "algos_DigestAlgorithm"))),
        Opt(Im(1, F("attributes", "x509_Attributes"))),
        Opt(Im(2, F("reduced_hashtree", "tsp_PartialHashtrees"))),
        F("time_stamp", "cms_ContentInfo")>>),
  tsp_ArchiveTimeStampSequence |->
      SeqOfT("tsp_ArchiveTimeStamp"),
  tsp_EvidenceRecord |->
      SeqT(<<F("version", "tsp_Version"),
        F("digest_algorithms", "tsp_DigestAlgorithms"),
        Opt(Im(0, F("crypto_infos", "x509_Attributes"))),
        Opt(Im(1, F("encryption_info", "tsp_EncryptionInfo"))),
        F("archive_time_stamp_sequence", "tsp_ArchiveTimeStampSequence")>>),
  tsp_OtherEvidence |->
      SeqT(<<F("oe_type", "core_ObjectIdentifier"),
        F("oe_value", "core_Any")>>),
  tsp_Evidence |->
      ChoiceT(<<Im(0, F("tst_evidence", "tsp_TimeStampTokenEvidence")),
        Im(1, F("ers_evidence", "tsp_EvidenceRecord")),
        Im(2, F("other_evidence", "tsp_OtherEvidence"))>>),
  tsp_TimeStampedData |->
      SeqT(<<F("version", "tsp_Version"),
        Opt(F("data_uri", "core_IA5String")),
        Opt(F("meta_data", "tsp_MetaData")),
        Opt(F("content", "core_OctetString")),
        F("temporal_evidence", "tsp_Evidence")>>),
  tsp_IssuerSerial |->
      SeqT(<<F("issuer", "x509_GeneralNames"),
        F("serial_number", "core_Integer")>>),
  tsp_ESSCertID |->
      SeqT(<<F("cert_hash", "core_OctetString"),
        Opt(F("issuer_serial", "tsp_IssuerSerial"))>>),
  tsp_ESSCertIDs |->
      SeqOfT("tsp_ESSCertID"),
  tsp_SigningCertificate |->
      SeqT(<<F("certs", "tsp_ESSCertIDs"),
        Opt(F("policies", "x509_CertificatePolicies"))>>),
  tsp_SetOfSigningCertificates |->
      SetOfT("tsp_SigningCertificate"),
  tsp_ESSCertIDv2 |->
      SeqT(<<Def(VMap(<<P("algorithm", VName("sha256"))>>), F("hash_algorithm", "algos_DigestAlgorithm")),
        F("cert_hash", "core_OctetString"),
        Opt(F("issuer_serial", "tsp_IssuerSerial"))>>),
  tsp_ESSCertIDv2s |->
      SeqOfT("tsp_ESSCertIDv2"),
  tsp_SigningCertificateV2 |->
      SeqT(<<F("certs", "tsp_ESSCertIDv2s"),
        Opt(F("policies", "x509_CertificatePolicies"))>>),
  tsp_SetOfSigningCertificatesV2 |->
      SetOfT("tsp_SigningCertificateV2")
]

S_x509 == [
  x509_DNSName |->
      PrimT("dns"),
  x509_URI |->
      PrimT("uri"),
  x509_EmailAddress |->
      PrimT("email"),
  x509_IPAddress |->
      PrimT("ip"),
  x509_Attribute |->
      SeqT(<<F("type", "core_ObjectIdentifier"),
        F("values", "x509_Attribute_values")>>),
  x509_Attributes |->
      SeqOfT("x509_Attribute"),
  x509_KeyUsage |->
      BitMapT(<<<<0, "digital_signature">>, <<1, "non_repudiation">>, <<2, "key_encipherment">>, <<3, "data_encipherment">>, <<4, "key_agreement">>, <<5, "key_cert_sign">>, <<6, "crl_sign">>, <<7, "encipher_only">>, <<8, "decipher_only">>>>),
  x509_PrivateKeyUsagePeriod |->
      SeqT(<<Opt(Im(0, F("not_before", "core_GeneralizedTime"))),
        Opt(Im(1, F("not_after", "core_GeneralizedTime")))>>),
  x509_NotReallyTeletexString |->
      PrimT("nrteletex"),
  x509_DirectoryString |->
      ChoiceT(<<F("teletex_string", "x509_NotReallyTeletexString"),
        F("printable_string", "core_PrintableString"),
        F("universal_string", "core_UniversalString"),
        F("utf8_string", "core_UTF8String"),
        F("bmp_string", "core_BMPString"),
        F("ia5_string", "core_IA5String")>>),
  x509_NameType |->
      OidT(<<<<<<2,5,4,3>>, "common_name">>,
        <<<<2,5,4,4>>, "surname">>,
        <<<<2,5,4,5>>, "serial_number">>,
        <<<<2,5,4,6>>, "country_name">>,
        <<<<2,5,4,7>>, "locality_name">>,
        <<<<2,5,4,8>>, "state_or_province_name">>,
        <<<<2,5,4,9>>, "street_address">>,
        <<<<2,5,4,10>>, "organization_name">>,
        <<<<2,5,4,11>>, "organizational_unit_name">>,
        <<<<2,5,4,12>>, "title">>,
        <<<<2,5,4,15>>, "business_category">>,
        <<<<2,5,4,17>>, "postal_code">>,
        <<<<2,5,4,20>>, "telephone_number">>,
        <<<<2,5,4,41>>, "name">>,
        <<<<2,5,4,42>>, "given_name">>,
        <<<<2,5,4,43>>, "initials">>,
        <<<<2,5,4,44>>, "generation_qualifier">>,
        <<<<2,5,4,45>>, "unique_identifier">>,
        <<<<2,5,4,46>>, "dn_qualifier">>,
        <<<<2,5,4,65>>, "pseudonym">>,
        <<<<2,5,4,97>>, "organization_identifier">>,
        <<<<2,23,133,2,1>>, "tpm_manufacturer">>,
        <<<<2,23,133,2,2>>, "tpm_model">>,
        <<<<2,23,133,2,3>>, "tpm_version">>,
        <<<<2,23,133,2,4>>, "platform_manufacturer">>,
        <<<<2,23,133,2,5>>, "platform_model">>,
        <<<<2,23,133,2,6>>, "platform_version">>,
        <<<<1,2,840,113549,1,9,1>>, "email_address">>,
        <<<<1,3,6,1,4,1,311,60,2,1,1>>, "incorporation_locality">>,
        <<<<1,3,6,1,4,1,311,60,2,1,2>>, "incorporation_state_or_province">>,
        <<<<1,3,6,1,4,1,311,60,2,1,3>>, "incorporation_country">>,
        <<<<0,9,2342,19200300,100,1,1>>, "user_id">>,
        <<<<0,9,2342,19200300,100,1,25>>, "domain_component">>,
        <<<<0,2,262,1,10,7,20>>, "name_distinguisher">>>>),
  x509_NameTypeAndValue |->
      Gov(<<"type">>, "value", <<<<"common_name", "x509_DirectoryString">>, <<"surname", "x509_DirectoryString">>, <<"serial_number", "x509_DirectoryString">>, <<"country_name", "x509_DirectoryString">>, <<"locality_name", "x509_DirectoryString">>, <<"state_or_province_name", "x509_DirectoryString">>, <<"street_address", "x509_DirectoryString">>, <<"organization_name", "x509_DirectoryString">>, <<"organizational_unit_name", "x509_DirectoryString">>, <<"title", "x509_DirectoryString">>, <<"business_category", "x509_DirectoryString">>, <<"postal_code", "x509_DirectoryString">>, <<"telephone_number", "core_PrintableString">>, <<"name", "x509_DirectoryString">>, <<"given_name", "x509_DirectoryString">>, <<"initials", "x509_DirectoryString">>, <<"generation_qualifier", "x509_DirectoryString">>, <<"unique_identifier", "core_OctetBitString">>, <<"dn_qualifier", "x509_DirectoryString">>, <<"pseudonym", "x509_DirectoryString">>, <<"email_address", "x509_EmailAddress">>, <<"incorporation_locality", "x509_DirectoryString">>, <<"incorporation_state_or_province", "x509_DirectoryString">>, <<"incorporation_country", "x509_DirectoryString">>, <<"domain_component", "x509_DNSName">>, <<"name_distinguisher", "x509_DirectoryString">>, <<"organization_identifier", "x509_DirectoryString">>, <<"tpm_manufacturer", "core_UTF8String">>, <<"tpm_model", "core_UTF8String">>, <<"tpm_version", "core_UTF8String">>, <<"platform_manufacturer", "core_UTF8String">>, <<"platform_model", "core_UTF8String">>, <<"platform_version", "core_UTF8String">>, <<"user_id", "x509_DirectoryString">>>>,
      SeqT(<<F("type", "x509_NameType"),
        F("value", "core_Any")>>)),
  x509_RelativeDistinguishedName |->
      SetOfT("x509_NameTypeAndValue"),
  x509_RDNSequence |->
      SeqOfT("x509_RelativeDistinguishedName"),
  x509_Name |->
      ChoiceT(<<F("", "x509_RDNSequence")>>),
  x509_AnotherName |->
      SeqT(<<F("type_id", "core_ObjectIdentifier"),
        Ex(0, F("value", "core_Any"))>>),
  x509_CountryName |->
      Wrapped(1, 1, ChoiceT(<<F("x121_dcc_code", "core_NumericString"),
        F("iso_3166_alpha2_code", "core_PrintableString")>>)),
  x509_AdministrationDomainName |->
      Wrapped(1, 2, ChoiceT(<<F("numeric", "core_NumericString"),
        F("printable", "core_PrintableString")>>)),
  x509_PrivateDomainName |->
      ChoiceT(<<F("numeric", "core_NumericString"),
        F("printable", "core_PrintableString")>>),
  x509_PersonalName |->
      SetT(<<Im(0, F("surname", "core_PrintableString")),
        Opt(Im(1, F("given_name", "core_PrintableString"))),
        Opt(Im(2, F("initials", "core_PrintableString"))),
        Opt(Im(3, F("generation_qualifier", "core_PrintableString")))>>),
  x509_TeletexPersonalName |->
      SetT(<<Im(0, F("surname", "core_TeletexString")),
        Opt(Im(1, F("given_name", "core_TeletexString"))),
        Opt(Im(2, F("initials", "core_TeletexString"))),
        Opt(Im(3, F("generation_qualifier", "core_TeletexString")))>>),
  x509_OrganizationalUnitNames |->
      SeqOfT("core_PrintableString"),
  x509_TeletexOrganizationalUnitNames |->
      SeqOfT("core_TeletexString"),
  x509_BuiltInStandardAttributes |->
      SeqT(<<Opt(F("country_name", "x509_CountryName")),
        Opt(F("administration_domain_name", "x509_AdministrationDomainName")),
        Opt(Im(0, F("network_address", "core_NumericString"))),
        Opt(Im(1, F("terminal_identifier", "core_PrintableString"))),
        Opt(Ex(2, F("private_domain_name", "x509_PrivateDomainName"))),
        Opt(Im(3, F("organization_name", "core_PrintableString"))),
        Opt(Im(4, F("numeric_user_identifier", "core_NumericString"))),
        Opt(Im(5, F("personal_name", "x509_PersonalName"))),
        Opt(Im(6, F("organizational_unit_names", "x509_OrganizationalUnitNames")))>>),
  x509_BuiltInDomainDefinedAttribute |->
      SeqT(<<F("type", "core_PrintableString"),
        F("value", "core_PrintableString")>>),
  x509_BuiltInDomainDefinedAttributes |->
      SeqOfT("x509_BuiltInDomainDefinedAttribute"),
  x509_TeletexDomainDefinedAttribute |->
      SeqT(<<F("type", "core_TeletexString"),
        F("value", "core_TeletexString")>>),
  x509_TeletexDomainDefinedAttributes |->
      SeqOfT("x509_TeletexDomainDefinedAttribute"),
  x509_PhysicalDeliveryCountryName |->
      ChoiceT(<<F("x121_dcc_code", "core_NumericString"),
        F("iso_3166_alpha2_code", "core_PrintableString")>>),
  x509_PostalCode |->
      ChoiceT(<<F("numeric_code", "core_NumericString"),
        F("printable_code", "core_PrintableString")>>),
  x509_PDSParameter |->
      SetT(<<Opt(F("printable_string", "core_PrintableString")),
        Opt(F("teletex_string", "core_TeletexString"))>>),
  x509_PrintableAddress |->
      SeqOfT("core_PrintableString"),
  x509_UnformattedPostalAddress |->
      SetT(<<Opt(F("printable_address", "x509_PrintableAddress")),
        Opt(F("teletex_string", "core_TeletexString"))>>),
  x509_E1634Address |->
      SeqT(<<Im(0, F("number", "core_NumericString")),
        Opt(Im(1, F("sub_address", "core_NumericString")))>>),
  x509_NAddresses |->
      SetOfT("core_OctetString"),
  x509_PresentationAddress |->
      SeqT(<<Opt(Ex(0, F("p_selector", "core_OctetString"))),
        Opt(Ex(1, F("s_selector", "core_OctetString"))),
        Opt(Ex(2, F("t_selector", "core_OctetString"))),
        Ex(3, F("n_addresses", "x509_NAddresses"))>>),
  x509_ExtendedNetworkAddress |->
      ChoiceT(<<F("e163_4_address", "x509_E1634Address"),
        Im(0, F("psap_address", "x509_PresentationAddress"))>>),
  x509_TerminalType |->
      IntMapT(<<<<3, "telex">>, <<4, "teletex">>, <<5, "g3_facsimile">>, <<6, "g4_facsimile">>, <<7, "ia5_terminal">>, <<8, "videotex">>>>),
  x509_ExtensionAttributeType |->
      IntMapT(<<<<1, "common_name">>, <<2, "teletex_common_name">>, <<3, "teletex_organization_name">>, <<4, "teletex_personal_name">>, <<5, "teletex_organization_unit_names">>, <<6, "teletex_domain_defined_attributes">>, <<7, "pds_name">>, <<8, "physical_delivery_country_name">>, <<9, "postal_code">>, <<10, "physical_delivery_office_name">>, <<11, "physical_delivery_office_number">>, <<12, "extension_of_address_components">>, <<13, "physical_delivery_personal_name">>, <<14, "physical_delivery_organization_name">>, <<15, "extension_physical_delivery_address_components">>, <<16, "unformatted_postal_address">>, <<17, "street_address">>, <<18, "post_office_box_address">>, <<19, "poste_restante_address">>, <<20, "unique_postal_name">>, <<21, "local_postal_attributes">>, <<22, "extended_network_address">>, <<23, "terminal_type">>>>),
  x509_ExtensionAttribute |->
      Gov(<<"extension_attribute_type">>, "extension_attribute_value", <<<<"common_name", "core_PrintableString">>, <<"teletex_common_name", "core_TeletexString">>, <<"teletex_organization_name", "core_TeletexString">>, <<"teletex_personal_name", "x509_TeletexPersonalName">>, <<"teletex_organization_unit_names", "x509_TeletexOrganizationalUnitNames">>, <<"teletex_domain_defined_attributes", "x509_TeletexDomainDefinedAttributes">>, <<"pds_name", "core_PrintableString">>, <<"physical_delivery_country_name", "x509_PhysicalDeliveryCountryName">>, <<"postal_code", "x509_PostalCode">>, <<"physical_delivery_office_name", "x509_PDSParameter">>, <<"physical_delivery_office_number", "x509_PDSParameter">>, <<"extension_of_address_components", "x509_PDSParameter">>, <<"physical_delivery_personal_name", "x509_PDSParameter">>, <<"physical_delivery_organization_name", "x509_PDSParameter">>, <<"extension_physical_delivery_address_components", "x509_PDSParameter">>, <<"unformatted_postal_address", "x509_UnformattedPostalAddress">>, <<"street_address", "x509_PDSParameter">>, <<"post_office_box_address", "x509_PDSParameter">>, <<"poste_restante_address", "x509_PDSParameter">>, <<"unique_postal_name", "x509_PDSParameter">>, <<"local_postal_attributes", "x509_PDSParameter">>, <<"extended_network_address", "x509_ExtendedNetworkAddress">>, <<"terminal_type", "x509_TerminalType">>>>,
      SeqT(<<Im(0, F("extension_attribute_type", "x509_ExtensionAttributeType")),
        Ex(1, F("extension_attribute_value", "core_Any"))>>)),
  x509_ExtensionAttributes |->
      SetOfT("x509_ExtensionAttribute"),
  x509_ORAddress |->
      SeqT(<<F("built_in_standard_attributes", "x509_BuiltInStandardAttributes"),
        Opt(F("built_in_domain_defined_attributes", "x509_BuiltInDomainDefinedAttributes")),
        Opt(F("extension_attributes", "x509_ExtensionAttributes"))>>),
  x509_EDIPartyName |->
      SeqT(<<Opt(Ex(0, F("name_assigner", "x509_DirectoryString"))),
        Ex(1, F("party_name", "x509_DirectoryString"))>>),
  x509_GeneralName |->
      ChoiceT(<<Im(0, F("other_name", "x509_AnotherName")),
        Im(1, F("rfc822_name", "x509_EmailAddress")),
        Im(2, F("dns_name", "x509_DNSName")),
        Im(3, F("x400_address", "x509_ORAddress")),
        Ex(4, F("directory_name", "x509_Name")),
        Im(5, F("edi_party_name", "x509_EDIPartyName")),
        Im(6, F("uniform_resource_identifier", "x509_URI")),
        Im(7, F("ip_address", "x509_IPAddress")),
        Im(8, F("registered_id", "core_ObjectIdentifier"))>>),
  x509_GeneralNames |->
      SeqOfT("x509_GeneralName"),
  x509_Time |->
      ChoiceT(<<F("utc_time", "core_UTCTime"),
        F("general_time", "core_GeneralizedTime")>>),
  x509_Validity |->
      SeqT(<<F("not_before", "x509_Time"),
        F("not_after", "x509_Time")>>),
  x509_BasicConstraints |->
      SeqT(<<Def(VBool(FALSE), F("ca", "core_Boolean")),
        Opt(F("path_len_constraint", "core_Integer"))>>),
  x509_AuthorityKeyIdentifier |->
      SeqT(<<Opt(Im(0, F("key_identifier", "core_OctetString"))),
        Opt(Im(1, F("authority_cert_issuer", "x509_GeneralNames"))),
        Opt(Im(2, F("authority_cert_serial_number", "core_Integer")))>>),
  x509_DistributionPointName |->
      ChoiceT(<<Im(0, F("full_name", "x509_GeneralNames")),
        Im(1, F("name_relative_to_crl_issuer", "x509_RelativeDistinguishedName"))>>),
  x509_ReasonFlags |->
      BitMapT(<<<<0, "unused">>, <<1, "key_compromise">>, <<2, "ca_compromise">>, <<3, "affiliation_changed">>, <<4, "superseded">>, <<5, "cessation_of_operation">>, <<6, "certificate_hold">>, <<7, "privilege_withdrawn">>, <<8, "aa_compromise">>>>),
  x509_GeneralSubtree |->
      SeqT(<<F("base", "x509_GeneralName"),
        Def(VNat(0), Im(0, F("minimum", "core_Integer"))),
        Opt(Im(1, F("maximum", "core_Integer")))>>),
  x509_GeneralSubtrees |->
      SeqOfT("x509_GeneralSubtree"),
  x509_NameConstraints |->
      SeqT(<<Opt(Im(0, F("permitted_subtrees", "x509_GeneralSubtrees"))),
        Opt(Im(1, F("excluded_subtrees", "x509_GeneralSubtrees")))>>),
  x509_DistributionPoint |->
      SeqT(<<Opt(Ex(0, F("distribution_point", "x509_DistributionPointName"))),
        Opt(Im(1, F("reasons", "x509_ReasonFlags"))),
        Opt(Im(2, F("crl_issuer", "x509_GeneralNames")))>>),
  x509_CRLDistributionPoints |->
      SeqOfT("x509_DistributionPoint"),
  x509_DisplayText |->
      ChoiceT(<<F("ia5_string", "core_IA5String"),
        F("visible_string", "core_VisibleString"),
        F("bmp_string", "core_BMPString"),
        F("utf8_string", "core_UTF8String")>>),
  x509_NoticeNumbers |->
      SeqOfT("core_Integer"),
  x509_NoticeReference |->
      SeqT(<<F("organization", "x509_DisplayText"),
        F("notice_numbers", "x509_NoticeNumbers")>>),
  x509_UserNotice |->
      SeqT(<<Opt(F("notice_ref", "x509_NoticeReference")),
        Opt(F("explicit_text", "x509_DisplayText"))>>),
  x509_PolicyQualifierId |->
      OidT(<<<<<<1,3,6,1,5,5,7,2,1>>, "certification_practice_statement">>,
        <<<<1,3,6,1,5,5,7,2,2>>, "user_notice">>>>),
  x509_PolicyQualifierInfo |->
      Gov(<<"policy_qualifier_id">>, "qualifier", <<<<"certification_practice_statement", "core_IA5String">>, <<"user_notice", "x509_UserNotice">>>>,
      SeqT(<<F("policy_qualifier_id", "x509_PolicyQualifierId"),
        F("qualifier", "core_Any")>>)),
  x509_PolicyQualifierInfos |->
      SeqOfT("x509_PolicyQualifierInfo"),
  x509_PolicyIdentifier |->
      OidT(<<<<<<2,5,29,32,0>>, "any_policy">>>>),
  x509_PolicyInformation |->
      SeqT(<<F("policy_identifier", "x509_PolicyIdentifier"),
        Opt(F("policy_qualifiers", "x509_PolicyQualifierInfos"))>>),
  x509_CertificatePolicies |->
      SeqOfT("x509_PolicyInformation"),
  x509_PolicyMapping |->
      SeqT(<<F("issuer_domain_policy", "x509_PolicyIdentifier"),
        F("subject_domain_policy", "x509_PolicyIdentifier")>>),
  x509_PolicyMappings |->
      SeqOfT("x509_PolicyMapping"),
  x509_PolicyConstraints |->
      SeqT(<<Opt(Im(0, F("require_explicit_policy", "core_Integer"))),
        Opt(Im(1, F("inhibit_policy_mapping", "core_Integer")))>>),
  x509_KeyPurposeId |->
      OidT(<<<<<<2,5,29,37,0>>, "any_extended_key_usage">>,
        <<<<1,3,6,1,5,5,7,3,1>>, "server_auth">>,
        <<<<1,3,6,1,5,5,7,3,2>>, "client_auth">>,
        <<<<1,3,6,1,5,5,7,3,3>>, "code_signing">>,
        <<<<1,3,6,1,5,5,7,3,4>>, "email_protection">>,
        <<<<1,3,6,1,5,5,7,3,5>>, "ipsec_end_system">>,
        <<<<1,3,6,1,5,5,7,3,6>>, "ipsec_tunnel">>,
        <<<<1,3,6,1,5,5,7,3,7>>, "ipsec_user">>,
        <<<<1,3,6,1,5,5,7,3,8>>, "time_stamping">>,
        <<<<1,3,6,1,5,5,7,3,9>>, "ocsp_signing">>,
        <<<<1,3,6,1,5,5,7,3,10>>, "dvcs">>,
        <<<<1,3,6,1,5,5,7,3,13>>, "eap_over_ppp">>,
        <<<<1,3,6,1,5,5,7,3,14>>, "eap_over_lan">>,
        <<<<1,3,6,1,5,5,7,3,15>>, "scvp_server">>,
        <<<<1,3,6,1,5,5,7,3,16>>, "scvp_client">>,
        <<<<1,3,6,1,5,5,7,3,17>>, "ipsec_ike">>,
        <<<<1,3,6,1,5,5,7,3,18>>, "capwap_ac">>,
        <<<<1,3,6,1,5,5,7,3,19>>, "capwap_wtp">>,
        <<<<1,3,6,1,5,5,7,3,20>>, "sip_domain">>,
        <<<<1,3,6,1,5,5,7,3,21>>, "secure_shell_client">>,
        <<<<1,3,6,1,5,5,7,3,22>>, "secure_shell_server">>,
        <<<<1,3,6,1,5,5,7,3,23>>, "send_router">>,
        <<<<1,3,6,1,5,5,7,3,24>>, "send_proxied_router">>,
        <<<<1,3,6,1,5,5,7,3,25>>, "send_owner">>,
        <<<<1,3,6,1,5,5,7,3,26>>, "send_proxied_owner">>,
        <<<<1,3,6,1,5,5,7,3,27>>, "cmc_ca">>,
        <<<<1,3,6,1,5,5,7,3,28>>, "cmc_ra">>,
        <<<<1,3,6,1,5,5,7,3,29>>, "cmc_archive">>,
        <<<<1,3,6,1,5,5,7,3,30>>, "bgpspec_router">>,
        <<<<1,3,6,1,5,5,8,2,2>>, "ike_intermediate">>,
        <<<<1,3,6,1,4,1,311,10,3,1>>, "microsoft_trust_list_signing">>,
        <<<<1,3,6,1,4,1,311,10,3,2>>, "microsoft_time_stamp_signing">>,
        <<<<1,3,6,1,4,1,311,10,3,3>>, "microsoft_server_gated">>,
        <<<<1,3,6,1,4,1,311,10,3,3,1>>, "microsoft_serialized">>,
        <<<<1,3,6,1,4,1,311,10,3,4>>, "microsoft_efs">>,
        <<<<1,3,6,1,4,1,311,10,3,4,1>>, "microsoft_efs_recovery">>,
        <<<<1,3,6,1,4,1,311,10,3,5>>, "microsoft_whql">>,
        <<<<1,3,6,1,4,1,311,10,3,6>>, "microsoft_nt5">>,
        <<<<1,3,6,1,4,1,311,10,3,7>>, "microsoft_oem_whql">>,
        <<<<1,3,6,1,4,1,311,10,3,8>>, "microsoft_embedded_nt">>,
        <<<<1,3,6,1,4,1,311,10,3,9>>, "microsoft_root_list_signer">>,
        <<<<1,3,6,1,4,1,311,10,3,10>>, "microsoft_qualified_subordination">>,
        <<<<1,3,6,1,4,1,311,10,3,11>>, "microsoft_key_recovery">>,
        <<<<1,3,6,1,4,1,311,10,3,12>>, "microsoft_document_signing">>,
        <<<<1,3,6,1,4,1,311,10,3,13>>, "microsoft_lifetime_signing">>,
        <<<<1,3,6,1,4,1,311,10,3,14>>, "microsoft_mobile_device_software">>,
        <<<<1,3,6,1,4,1,311,20,2,2>>, "microsoft_smart_card_logon">>,
        <<<<1,2,840,113635,100,1,2>>, "apple_x509_basic">>,
        <<<<1,2,840,113635,100,1,3>>, "apple_ssl">>,
        <<<<1,2,840,113635,100,1,4>>, "apple_local_cert_gen">>,
        <<<<1,2,840,113635,100,1,5>>, "apple_csr_gen">>,
        <<<<1,2,840,113635,100,1,6>>, "apple_revocation_crl">>,
        <<<<1,2,840,113635,100,1,7>>, "apple_revocation_ocsp">>,
        <<<<1,2,840,113635,100,1,8>>, "apple_smime">>,
        <<<<1,2,840,113635,100,1,9>>, "apple_eap">>,
        <<<<1,2,840,113635,100,1,10>>, "apple_software_update_signing">>,
        <<<<1,2,840,113635,100,1,11>>, "apple_ipsec">>,
        <<<<1,2,840,113635,100,1,12>>, "apple_ichat">>,
        <<<<1,2,840,113635,100,1,13>>, "apple_resource_signing">>,
        <<<<1,2,840,113635,100,1,14>>, "apple_pkinit_client">>,
        <<<<1,2,840,113635,100,1,15>>, "apple_pkinit_server">>,
        <<<<1,2,840,113635,100,1,16>>, "apple_code_signing">>,
        <<<<1,2,840,113635,100,1,17>>, "apple_package_signing">>,
        <<<<1,2,840,113635,100,1,18>>, "apple_id_validation">>,
        <<<<1,2,840,113635,100,1,20>>, "apple_time_stamping">>,
        <<<<1,2,840,113635,100,1,21>>, "apple_revocation">>,
        <<<<1,2,840,113635,100,1,22>>, "apple_passbook_signing">>,
        <<<<1,2,840,113635,100,1,23>>, "apple_mobile_store">>,
        <<<<1,2,840,113635,100,1,24>>, "apple_escrow_service">>,
        <<<<1,2,840,113635,100,1,25>>, "apple_profile_signer">>,
        <<<<1,2,840,113635,100,1,26>>, "apple_qa_profile_signer">>,
        <<<<1,2,840,113635,100,1,27>>, "apple_test_mobile_store">>,
        <<<<1,2,840,113635,100,1,28>>, "apple_otapki_signer">>,
        <<<<1,2,840,113635,100,1,29>>, "apple_test_otapki_signer">>,
        <<<<1,2,840,113635,100,1,30>>, "apple_id_validation_record_signing_policy">>,
        <<<<1,2,840,113635,100,1,31>>, "apple_smp_encryption">>,
        <<<<1,2,840,113635,100,1,32>>, "apple_test_smp_encryption">>,
        <<<<1,2,840,113635,100,1,33>>, "apple_server_authentication">>,
        <<<<1,2,840,113635,100,1,34>>, "apple_pcs_escrow_service">>,
        <<<<2,16,840,1,101,3,6,8>>, "piv_card_authentication">>,
        <<<<2,16,840,1,101,3,6,7>>, "piv_content_signing">>,
        <<<<1,3,6,1,5,2,3,4>>, "pkinit_kpclientauth">>,
        <<<<1,3,6,1,5,2,3,5>>, "pkinit_kpkdc">>,
        <<<<1,2,840,113583,1,1,5>>, "pdf_signing">>,
        <<<<2,16,840,1,101,3,8,7>>, "fpki_pivi_content_signing">>>>),
  x509_ExtKeyUsageSyntax |->
      SeqOfT("x509_KeyPurposeId"),
  x509_AccessMethod |->
      OidT(<<<<<<1,3,6,1,5,5,7,48,1>>, "ocsp">>,
        <<<<1,3,6,1,5,5,7,48,2>>, "ca_issuers">>,
        <<<<1,3,6,1,5,5,7,48,3>>, "time_stamping">>,
        <<<<1,3,6,1,5,5,7,48,5>>, "ca_repository">>>>),
  x509_AccessDescription |->
      SeqT(<<F("access_method", "x509_AccessMethod"),
        F("access_location", "x509_GeneralName")>>),
  x509_AuthorityInfoAccessSyntax |->
      SeqOfT("x509_AccessDescription"),
  x509_SubjectInfoAccessSyntax |->
      SeqOfT("x509_AccessDescription"),
  x509_Features |->
      SeqOfT("core_Integer"),
  x509_EntrustVersionInfo |->
      SeqT(<<F("entrust_vers", "core_GeneralString"),
        F("entrust_info_flags", "core_BitString")>>),
  x509_NetscapeCertificateType |->
      BitMapT(<<<<0, "ssl_client">>, <<1, "ssl_server">>, <<2, "email">>, <<3, "object_signing">>, <<4, "reserved">>, <<5, "ssl_ca">>, <<6, "email_ca">>, <<7, "object_signing_ca">>>>),
  x509_Version |->
      IntMapT(<<<<0, "v1">>, <<1, "v2">>, <<2, "v3">>>>),
  x509_TPMSpecification |->
      SeqT(<<F("family", "core_UTF8String"),
        F("level", "core_Integer"),
        F("revision", "core_Integer")>>),
  x509_SetOfTPMSpecification |->
      SetOfT("x509_TPMSpecification"),
  x509_TCGSpecificationVersion |->
      SeqT(<<F("major_version", "core_Integer"),
        F("minor_version", "core_Integer"),
        F("revision", "core_Integer")>>),
  x509_TCGPlatformSpecification |->
      SeqT(<<F("version", "x509_TCGSpecificationVersion"),
        F("platform_class", "core_OctetString")>>),
  x509_SetOfTCGPlatformSpecification |->
      SetOfT("x509_TCGPlatformSpecification"),
  x509_EKGenerationType |->
      EnumT(<<<<0, "internal">>, <<1, "injected">>, <<2, "internal_revocable">>, <<3, "injected_revocable">>>>),
  x509_EKGenerationLocation |->
      EnumT(<<<<0, "tpm_manufacturer">>, <<1, "platform_manufacturer">>, <<2, "ek_cert_signer">>>>),
  x509_EKCertificateGenerationLocation |->
      EnumT(<<<<0, "tpm_manufacturer">>, <<1, "platform_manufacturer">>, <<2, "ek_cert_signer">>>>),
  x509_EvaluationAssuranceLevel |->
      EnumT(<<<<1, "level1">>, <<2, "level2">>, <<3, "level3">>, <<4, "level4">>, <<5, "level5">>, <<6, "level6">>, <<7, "level7">>>>),
  x509_EvaluationStatus |->
      EnumT(<<<<0, "designed_to_meet">>, <<1, "evaluation_in_progress">>, <<2, "evaluation_completed">>>>),
  x509_StrengthOfFunction |->
      EnumT(<<<<0, "basic">>, <<1, "medium">>, <<2, "high">>>>),
  x509_URIReference |->
      SeqT(<<F("uniform_resource_identifier", "core_IA5String"),
        Opt(F("hash_algorithm", "algos_DigestAlgorithm")),
        Opt(F("hash_value", "core_BitString"))>>),
  x509_CommonCriteriaMeasures |->
      SeqT(<<F("version", "core_IA5String"),
        F("assurance_level", "x509_EvaluationAssuranceLevel"),
        F("evaluation_status", "x509_EvaluationStatus"),
        Def(VBool(FALSE), F("plus", "core_Boolean")),
        Opt(Im(0, F("strengh_of_function", "x509_StrengthOfFunction"))),
        Opt(Im(1, F("profile_oid", "core_ObjectIdentifier"))),
        Opt(Im(2, F("profile_url", "x509_URIReference"))),
        Opt(Im(3, F("target_oid", "core_ObjectIdentifier"))),
        Opt(Im(4, F("target_uri", "x509_URIReference")))>>),
  x509_SecurityLevel |->
      EnumT(<<<<1, "level1">>, <<2, "level2">>, <<3, "level3">>, <<4, "level4">>>>),
  x509_FIPSLevel |->
      SeqT(<<F("version", "core_IA5String"),
        F("level", "x509_SecurityLevel"),
        Def(VBool(FALSE), F("plus", "core_Boolean"))>>),
  x509_TPMSecurityAssertions |->
      SeqT(<<Def(VName("v1"), F("version", "x509_Version")),
        Def(VBool(FALSE), F("field_upgradable", "core_Boolean")),
        Opt(Im(0, F("ek_generation_type", "x509_EKGenerationType"))),
        Opt(Im(1, F("ek_generation_location", "x509_EKGenerationLocation"))),
        Opt(Im(2, F("ek_certificate_generation_location", "x509_EKCertificateGenerationLocation"))),
        Opt(Im(3, F("cc_info", "x509_CommonCriteriaMeasures"))),
        Opt(Im(4, F("fips_level", "x509_FIPSLevel"))),
        Def(VBool(FALSE), Im(5, F("iso_9000_certified", "core_Boolean"))),
        Opt(F("iso_9000_uri", "core_IA5String"))>>),
  x509_SetOfTPMSecurityAssertions |->
      SetOfT("x509_TPMSecurityAssertions"),
  x509_SubjectDirectoryAttributeId |->
      OidT(<<<<<<2,5,4,52>>, "supported_algorithms">>,
        <<<<2,23,133,2,16>>, "tpm_specification">>,
        <<<<2,23,133,2,17>>, "tcg_platform_specification">>,
        <<<<2,23,133,2,18>>, "tpm_security_assertions">>,
        <<<<1,3,6,1,5,5,7,9,1>>, "pda_date_of_birth">>,
        <<<<1,3,6,1,5,5,7,9,2>>, "pda_place_of_birth">>,
        <<<<1,3,6,1,5,5,7,9,3>>, "pda_gender">>,
        <<<<1,3,6,1,5,5,7,9,4>>, "pda_country_of_citizenship">>,
        <<<<1,3,6,1,5,5,7,9,5>>, "pda_country_of_residence">>,
        <<<<1,2,840,113533,7,68,29>>, "entrust_user_role">>>>),
  x509_SetOfGeneralizedTime |->
      SetOfT("core_GeneralizedTime"),
  x509_SetOfDirectoryString |->
      SetOfT("x509_DirectoryString"),
  x509_SetOfPrintableString |->
      SetOfT("core_PrintableString"),
  x509_SupportedAlgorithm |->
      SeqT(<<F("algorithm_identifier", "algos_AnyAlgorithmIdentifier"),
        Opt(Ex(0, F("intended_usage", "x509_KeyUsage"))),
        Opt(Ex(1, F("intended_certificate_policies", "x509_CertificatePolicies")))>>),
  x509_SetOfSupportedAlgorithm |->
      SetOfT("x509_SupportedAlgorithm"),
  x509_SubjectDirectoryAttribute |->
      Gov(<<"type">>, "values", <<<<"supported_algorithms", "x509_SetOfSupportedAlgorithm">>, <<"tpm_specification", "x509_SetOfTPMSpecification">>, <<"tcg_platform_specification", "x509_SetOfTCGPlatformSpecification">>, <<"tpm_security_assertions", "x509_SetOfTPMSecurityAssertions">>, <<"pda_date_of_birth", "x509_SetOfGeneralizedTime">>, <<"pda_place_of_birth", "x509_SetOfDirectoryString">>, <<"pda_gender", "x509_SetOfPrintableString">>, <<"pda_country_of_citizenship", "x509_SetOfPrintableString">>, <<"pda_country_of_residence", "x509_SetOfPrintableString">>>>,
      SeqT(<<F("type", "x509_SubjectDirectoryAttributeId"),
        F("values", "core_SetOf")>>)),
  x509_SubjectDirectoryAttributes |->
      SeqOfT("x509_SubjectDirectoryAttribute"),
  x509_ExtensionId |->
      OidT(<<<<<<2,5,29,9>>, "subject_directory_attributes">>,
        <<<<2,5,29,14>>, "key_identifier">>,
        <<<<2,5,29,15>>, "key_usage">>,
        <<<<2,5,29,16>>, "private_key_usage_period">>,
        <<<<2,5,29,17>>, "subject_alt_name">>,
        <<<<2,5,29,18>>, "issuer_alt_name">>,
        <<<<2,5,29,19>>, "basic_constraints">>,
        <<<<2,5,29,30>>, "name_constraints">>,
        <<<<2,5,29,31>>, "crl_distribution_points">>,
        <<<<2,5,29,32>>, "certificate_policies">>,
        <<<<2,5,29,33>>, "policy_mappings">>,
        <<<<2,5,29,35>>, "authority_key_identifier">>,
        <<<<2,5,29,36>>, "policy_constraints">>,
        <<<<2,5,29,37>>, "extended_key_usage">>,
        <<<<2,5,29,46>>, "freshest_crl">>,
        <<<<2,5,29,54>>, "inhibit_any_policy">>,
        <<<<1,3,6,1,5,5,7,1,1>>, "authority_information_access">>,
        <<<<1,3,6,1,5,5,7,1,11>>, "subject_information_access">>,
        <<<<1,3,6,1,5,5,7,1,24>>, "tls_feature">>,
        <<<<1,3,6,1,5,5,7,48,1,5>>, "ocsp_no_check">>,
        <<<<1,2,840,113533,7,65,0>>, "entrust_version_extension">>,
        <<<<2,16,840,1,113730,1,1>>, "netscape_certificate_type">>,
        <<<<1,3,6,1,4,1,11129,2,4,2>>, "signed_certificate_timestamp_list">>,
        <<<<1,3,6,1,4,1,311,20,2>>, "microsoft_enroll_certtype">>,
        <<<<1,2,840,113583,1,1,9,2>>, "adobe_archive_rev_info">>,
        <<<<1,2,840,113583,1,1,9,1>>, "adobe_timestamp">>,
        <<<<1,2,840,113583,1,1,10>>, "adobe_ppklite_credential">>>>),
  x509_Extension |->
      Gov(<<"extn_id">>, "extn_value", <<<<"subject_directory_attributes", "x509_SubjectDirectoryAttributes">>, <<"key_identifier", "core_OctetString">>, <<"key_usage", "x509_KeyUsage">>, <<"private_key_usage_period", "x509_PrivateKeyUsagePeriod">>, <<"subject_alt_name", "x509_GeneralNames">>, <<"issuer_alt_name", "x509_GeneralNames">>, <<"basic_constraints", "x509_BasicConstraints">>, <<"name_constraints", "x509_NameConstraints">>, <<"crl_distribution_points", "x509_CRLDistributionPoints">>, <<"certificate_policies", "x509_CertificatePolicies">>, <<"policy_mappings", "x509_PolicyMappings">>, <<"authority_key_identifier", "x509_AuthorityKeyIdentifier">>, <<"policy_constraints", "x509_PolicyConstraints">>, <<"extended_key_usage", "x509_ExtKeyUsageSyntax">>, <<"freshest_crl", "x509_CRLDistributionPoints">>, <<"inhibit_any_policy", "core_Integer">>, <<"authority_information_access", "x509_AuthorityInfoAccessSyntax">>, <<"subject_information_access", "x509_SubjectInfoAccessSyntax">>, <<"tls_feature", "x509_Features">>, <<"ocsp_no_check", "core_Null">>, <<"entrust_version_extension", "x509_EntrustVersionInfo">>, <<"netscape_certificate_type", "x509_NetscapeCertificateType">>, <<"signed_certificate_timestamp_list", "core_OctetString">>, <<"microsoft_enroll_certtype", "core_BMPString">>, <<"adobe_archive_rev_info", "pdf_AdobeArchiveRevInfo">>, <<"adobe_timestamp", "pdf_AdobeTimestamp">>, <<"adobe_ppklite_credential", "core_Null">>>>,
      SeqT(<<F("extn_id", "x509_ExtensionId"),
        Def(VBool(FALSE), F("critical", "core_Boolean")),
        F("extn_value", "core_ParsableOctetString")>>)),
  x509_Extensions |->
      SeqOfT("x509_Extension"),
  x509_TbsCertificate |->
      SeqT(<<Def(VName("v1"), Ex(0, F("version", "x509_Version"))),
        F("serial_number", "core_Integer"),
        F("signature", "algos_SignedDigestAlgorithm"),
        F("issuer", "x509_Name"),
        F("validity", "x509_Validity"),
        F("subject", "x509_Name"),
        F("subject_public_key_info", "keys_PublicKeyInfo"),
        Opt(Im(1, F("issuer_unique_id", "core_OctetBitString"))),
        Opt(Im(2, F("subject_unique_id", "core_OctetBitString"))),
        Opt(Ex(3, F("extensions", "x509_Extensions")))>>),
  x509_Certificate |->
      SeqT(<<F("tbs_certificate", "x509_TbsCertificate"),
        F("signature_algorithm", "algos_SignedDigestAlgorithm"),
        F("signature_value", "core_OctetBitString")>>),
  x509_KeyPurposeIdentifiers |->
      SeqOfT("x509_KeyPurposeId"),
  x509_SequenceOfAlgorithmIdentifiers |->
      SeqOfT("algos_AlgorithmIdentifier"),
  x509_CertificateAux |->
      SeqT(<<Opt(F("trust", "x509_KeyPurposeIdentifiers")),
        Opt(Im(0, F("reject", "x509_KeyPurposeIdentifiers"))),
        Opt(F("alias", "core_UTF8String")),
        Opt(F("keyid", "core_OctetString")),
        Opt(Im(1, F("other", "x509_SequenceOfAlgorithmIdentifiers")))>>),
  x509_Attribute_values |->
      SetOfT("core_Any")
]

S_all == <<S_core, S_algos, S_cms, S_crl, S_csr, S_keys, S_ocsp, S_pdf, S_pkcs12, S_tsp, S_x509>>
=============================================================================
