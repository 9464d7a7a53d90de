------------------------------- MODULE Curves -------------------------------
(* Octets of the private keys (of the order) of the registered curves:      *)
(* SEC 2, X9.62 annex J, RFC 5639.                                           *)
EXTENDS TLC
CurveSize ==
    ("secp112r1" :> 14) @@ ("secp112r2" :> 14) @@ ("secp128r1" :> 16) @@ ("secp128r2" :> 16) @@ ("secp160k1" :> 21) @@
    ("secp160r1" :> 21) @@ ("secp160r2" :> 21) @@ ("secp192k1" :> 24) @@ ("secp192r1" :> 24) @@ ("secp224k1" :> 29) @@
    ("secp224r1" :> 28) @@ ("secp256k1" :> 32) @@ ("secp256r1" :> 32) @@ ("secp384r1" :> 48) @@ ("secp521r1" :> 66) @@
    ("sect113r1" :> 15) @@ ("sect113r2" :> 15) @@ ("sect131r1" :> 17) @@ ("sect131r2" :> 17) @@ ("sect163k1" :> 21) @@
    ("sect163r1" :> 21) @@ ("sect163r2" :> 21) @@ ("sect193r1" :> 25) @@ ("sect193r2" :> 25) @@ ("sect233k1" :> 29) @@
    ("sect233r1" :> 30) @@ ("sect239k1" :> 30) @@ ("sect283k1" :> 36) @@ ("sect283r1" :> 36) @@ ("sect409k1" :> 51) @@
    ("sect409r1" :> 52) @@ ("sect571k1" :> 72) @@ ("sect571r1" :> 72) @@
    ("prime192v2" :> 24) @@ ("prime192v3" :> 24) @@ ("prime239v1" :> 30) @@ ("prime239v2" :> 30) @@ ("prime239v3" :> 30) @@
    ("c2pnb163v1" :> 21) @@ ("c2pnb163v2" :> 21) @@ ("c2pnb163v3" :> 21) @@ ("c2pnb176w1" :> 21) @@ ("c2tnb191v1" :> 24) @@
    ("c2tnb191v2" :> 24) @@ ("c2tnb191v3" :> 24) @@ ("c2onb191v4" :> 24) @@ ("c2onb191v5" :> 24) @@ ("c2pnb208w1" :> 25) @@
    ("c2tnb239v1" :> 30) @@ ("c2tnb239v2" :> 30) @@ ("c2tnb239v3" :> 30) @@ ("c2onb239v4" :> 30) @@ ("c2onb239v5" :> 30) @@
    ("c2pnb272w1" :> 33) @@ ("c2pnb304w1" :> 37) @@ ("c2tnb359v1" :> 45) @@ ("c2pnb368w1" :> 45) @@ ("c2tnb431r1" :> 53) @@
    ("brainpoolp160r1" :> 20) @@ ("brainpoolp160t1" :> 20) @@ ("brainpoolp192r1" :> 24) @@ ("brainpoolp192t1" :> 24) @@
    ("brainpoolp224r1" :> 28) @@ ("brainpoolp224t1" :> 28) @@ ("brainpoolp256r1" :> 32) @@ ("brainpoolp256t1" :> 32) @@
    ("brainpoolp320r1" :> 40) @@ ("brainpoolp320t1" :> 40) @@ ("brainpoolp384r1" :> 48) @@ ("brainpoolp384t1" :> 48) @@
    ("brainpoolp512r1" :> 64) @@ ("brainpoolp512t1" :> 64)
=============================================================================
