--------------------------------- MODULE Ip ---------------------------------
(* Text forms of IP addresses (RFC 4291 section 2.2, RFC 5952, CIDR).       *)
EXTENDS Bytes
LOCAL HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN HexD[n + 1] ELSE HexText(n \div 16) \o HexD[(n % 16) + 1]
Join(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, ss[1], Tail(ss))
Ip4Text(o) == Join([j \in 1..4 |-> ToString(o[j])], ".")
Groups(o) == [j \in 1..8 |-> o[2 * j - 1] * 256 + o[2 * j]]
(* length of the run of zero groups starting at j                           *)
RECURSIVE ZRun(_, _)
ZRun(g, j) == IF j > Len(g) THEN 0 ELSE IF g[j] # 0 THEN 0 ELSE 1 + ZRun(g, j + 1)
(* dotted: whether the last 32 bits of a mapped or compatible IPv4 address  *)
(* are shown as one                                                         *)
Ip6Form(o, dotted) ==
    LET g == Groups(o)
        best == FoldLeft(LAMBDA b, j : IF ZRun(g, j) > b[2] THEN <<j, ZRun(g, j)>> ELSE b, <<0, 1>>, [j \in 1..8 |-> j])
        v4 == dotted /\ best[1] = 1 /\ (best[2] = 6 \/ (best[2] = 5 /\ g[6] = 65535))
        upto == IF v4 THEN 6 ELSE 8
        tail == IF v4 THEN <<Ip4Text(SubSeq(o, 13, 16))>> ELSE <<>>
        hx(a, z) == [j \in 1..(IF z < a THEN 0 ELSE z - a + 1) |-> HexText(g[a + j - 1])]
    IN IF best[1] = 0 THEN Join(hx(1, upto) \o tail, ":")
       ELSE Join(hx(1, best[1] - 1), ":") \o "::" \o Join(hx(best[1] + best[2], upto) \o tail, ":")
Ip6Text(o) == Ip6Form(o, TRUE)
(* mask octets -> prefix length, -1 if the ones are not contiguous          *)
MaskLen(m) == LET b == BitsOf(m)
                  n == Len(SelectSeq(b, LAMBDA x : x = 1))
              IN IF \A j \in 1..Len(b) : (b[j] = 1) <=> (j <= n) THEN n ELSE -1
IpOk(o) == \/ Len(o) \in {4, 16}
           \/ Len(o) = 8 /\ MaskLen(Drop(o, 4)) # -1
           \/ Len(o) = 32 /\ MaskLen(Drop(o, 16)) # -1
IpText(o) == CASE Len(o) = 4 -> Ip4Text(o)
               [] Len(o) = 16 -> Ip6Text(o)
               [] Len(o) = 8 -> Ip4Text(Take(o, 4)) \o "/" \o ToString(MaskLen(Drop(o, 4)))
               [] Len(o) = 32 -> Ip6Text(Take(o, 16)) \o "/" \o ToString(MaskLen(Drop(o, 16)))
               [] OTHER -> ""
=============================================================================
