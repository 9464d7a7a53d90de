------------------------------- MODULE Types -------------------------------
(* The notation the type tables (Schema.tla, UserTypes.tla) are written in, *)
(* and the abstract values the specification computes with.                 *)
EXTENDS Prim

(* ------------------------------------------------ abstract values ------- *)
VNone     == [k |-> "none"]
VNull     == [k |-> "null"]
VBool(b)  == [k |-> "bool", b |-> b]
VNum(x)   == [k |-> "int", neg |-> x.neg, m |-> x.m]
VNat(n)   == VNum(NatNum(n))
VName(s)  == [k |-> "name", s |-> s]         \* a registered name (number, OID, value)
VOid(a)   == [k |-> "oid", a |-> a]
VBitSeq(b) == [k |-> "bits", bits |-> b]
VBits(S)  == [k |-> "bset", ns |-> SetToSeq(S), ix |-> <<>>]
VOct(o)   == [k |-> "oct", o |-> o]
VStr(c)   == [k |-> "str", c |-> c]
VTime(t)  == [k |-> "time", t |-> t]
VList(l)  == [k |-> "list", l |-> l]
VMap(f)   == [k |-> "map", f |-> f]
VCh(n, v) == [k |-> "ch", n |-> n, v |-> v]
VRaw(o)   == [k |-> "raw", o |-> o]          \* one complete encoded element
VTyped(t, v) == [k |-> "typed", n |-> t, v |-> v]
P(n, v)   == [n |-> n, v |-> v]

Has(m, n) == \E j \in 1..Len(m.f) : m.f[j].n = n
Get(m, n) == LET js == {j \in 1..Len(m.f) : m.f[j].n = n} IN
             IF js = {} THEN VNone ELSE m.f[CHOOSE j \in js : TRUE].v

(* ------------------------------------------------ type descriptors ------ *)
NoGov == [by |-> <<>>, of |-> "", tab |-> <<>>]
Ty0 == [k |-> "", f |-> <<>>, of |-> "", m |-> <<>>, om |-> <<>>, nn |-> "",
        im |-> <<>>, ex |-> <<>>, g |-> NoGov, np |-> FALSE, fw |-> FALSE]
PrimT(k)     == [Ty0 EXCEPT !.k = k]
SeqT(f)      == [Ty0 EXCEPT !.k = "seq", !.f = f]
SetT(f)      == [Ty0 EXCEPT !.k = "set", !.f = f]
SeqOfT(t)    == [Ty0 EXCEPT !.k = "seqof", !.of = t]
SetOfT(t)    == [Ty0 EXCEPT !.k = "setof", !.of = t]
ChoiceT(f)   == [Ty0 EXCEPT !.k = "choice", !.f = f]
IntMapT(m)   == [Ty0 EXCEPT !.k = "int", !.m = m]
EnumT(m)     == [Ty0 EXCEPT !.k = "enum", !.m = m]
BitMapT(m)   == [Ty0 EXCEPT !.k = "bits", !.m = m]
OidT(m)      == [Ty0 EXCEPT !.k = "oid", !.om = m]
NullNameT(n) == [Ty0 EXCEPT !.k = "null", !.nn = n]
Tagged(c, t, ty) == [ty EXCEPT !.im = <<c, t>>]
Wrapped(c, t, ty) == [ty EXCEPT !.ex = <<<<c, t>>>> \o @]
(* member "of" is typed by the name found at path "by"                      *)
Gov(by, of, tab, ty) == [ty EXCEPT !.g = [by |-> by, of |-> of, tab |-> tab]]
(* RFC 5915: the private key has the width of its curve                      *)
FixedWidth(ty) == [ty EXCEPT !.fw = TRUE]
(* AlgorithmIdentifier whose parameters are NULL, not absent, for the OIDs  *)
(* of RFC 4055 / RFC 5754                                                   *)
NullParams(ty)     == [ty EXCEPT !.np = TRUE]
NullParamsOnly(ty) == [ty EXCEPT !.np = TRUE, !.g = [by |-> <<"algorithm">>, of |-> "parameters", tab |-> <<>>]]

F(n, t)   == [n |-> n, t |-> t, im |-> <<>>, ex |-> <<>>, opt |-> FALSE, hd |-> FALSE, def |-> VNone]
Im(n, f)  == [f EXCEPT !.im = <<2, n>>]
Ex(n, f)  == [f EXCEPT !.ex = <<<<2, n>>>>]
ImC(c, n, f) == [f EXCEPT !.im = <<c, n>>]
ExC(l, f) == [f EXCEPT !.ex = l]
Opt(f)    == [f EXCEPT !.opt = TRUE]
Def(d, f) == [f EXCEPT !.hd = TRUE, !.def = d]
=============================================================================
