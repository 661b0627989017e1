------------------------------ MODULE FaslCodec ------------------------------
(* The documented byte format, over a small universe of data: writing then reading *)
(* gives the datum and leaves what follows; no proper prefix is a datum.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Depth
VARIABLE d
Null == 1  True == 2  Sym == 3  Str == 4  Fix == 5  PairT == 6  EmptyVec == 7  VecT == 8
Chars == {0, 64}
Nums == {0, 1, 63, 64, 100, 4095}             \* a word of two 6-bit groups
RECURSIVE Uptr(_)
Uptr(u) == IF u < 64 THEN <<u * 2>> ELSE <<(u % 64) * 2 + 1>> \o Uptr(u \div 64)
Atoms == {[k |-> "null"], [k |-> "true"]} \cup {[k |-> "fix", n |-> n] : n \in Nums}
  \cup {[k |-> x, s |-> s] : x \in {"sym", "str"}, s \in {<<>>} \cup {<<c>> : c \in Chars} \cup {<<a, b>> : a \in Chars, b \in Chars}}
RECURSIVE Data(_)
Small == {[k |-> "null"], [k |-> "fix", n |-> 64], [k |-> "str", s |-> <<64>>], [k |-> "sym", s |-> <<>>]}
Data(n) == IF n = 0 THEN Atoms
  ELSE LET S == IF n = 1 THEN Small ELSE Small \cup {[k |-> "pair", items |-> <<x>>, tail |-> y] : x \in Small, y \in Small} \cup {[k |-> "vec", items |-> <<x>>] : x \in Small}
           Ss == {<<x>> : x \in S} \cup {<<x, y>> : x \in S, y \in S}
       IN Atoms \cup {[k |-> "vec", items |-> s] : s \in Ss \cup {<<>>}}
                \cup {[k |-> "pair", items |-> s, tail |-> t] : s \in Ss, t \in Small}
RECURSIVE Enc(_), EncAll(_)
EncAll(ds) == IF ds = <<>> THEN <<>> ELSE Enc(Head(ds)) \o EncAll(Tail(ds))
Enc(x) == CASE x.k = "null" -> <<Null>>
            [] x.k = "true" -> <<True>>
            [] x.k = "fix" -> <<Fix>> \o Uptr(x.n)
            [] x.k = "sym" -> <<Sym>> \o Uptr(Len(x.s)) \o x.s
            [] x.k = "str" -> <<Str>> \o Uptr(Len(x.s)) \o x.s
            [] x.k = "vec" -> IF x.items = <<>> THEN <<EmptyVec>> ELSE <<VecT>> \o Uptr(Len(x.items)) \o EncAll(x.items)
            [] x.k = "pair" -> <<PairT>> \o Uptr(Len(x.items)) \o EncAll(x.items) \o Enc(x.tail)
Bad == [ok |-> FALSE, v |-> 0, p |-> 0]
Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
RECURSIVE DecU(_, _, _), Dec(_, _), DecAll(_, _, _, _)
DecU(b, p, w) == IF p > Len(b) THEN Bad
                 ELSE IF b[p] % 2 = 0 THEN Good((b[p] \div 2) * w, p + 1)
                 ELSE LET r == DecU(b, p + 1, w * 64) IN IF r.ok THEN Good((b[p] \div 2) * w + r.v, r.p) ELSE Bad
DecAll(b, p, n, acc) == IF n = 0 THEN Good(acc, p)
                        ELSE LET r == Dec(b, p) IN IF r.ok THEN DecAll(b, r.p, n - 1, Append(acc, r.v)) ELSE Bad
(* a pair whose tail is a pair is the longer pair *)
Dec(b, p) ==
  IF p > Len(b) THEN Bad
  ELSE LET u == DecU(b, p + 1, 1)
       IN CASE b[p] = Null -> Good([k |-> "null"], p + 1)
            [] b[p] = True -> Good([k |-> "true"], p + 1)
            [] b[p] = EmptyVec -> Good([k |-> "vec", items |-> <<>>], p + 1)
            [] b[p] = Fix -> IF u.ok THEN Good([k |-> "fix", n |-> u.v], u.p) ELSE Bad
            [] b[p] \in {Sym, Str} -> IF u.ok /\ u.p + u.v - 1 <= Len(b)
                                      THEN Good([k |-> IF b[p] = Sym THEN "sym" ELSE "str", s |-> SubSeq(b, u.p, u.p + u.v - 1)], u.p + u.v) ELSE Bad
            [] b[p] = VecT -> IF ~u.ok THEN Bad ELSE LET r == DecAll(b, u.p, u.v, <<>>)
                                                     IN IF r.ok THEN Good([k |-> "vec", items |-> r.v], r.p) ELSE Bad
            [] b[p] = PairT -> IF ~u.ok THEN Bad
                 ELSE LET r == DecAll(b, u.p, u.v, <<>>)
                          t == Dec(b, r.p)
                      IN IF r.ok /\ t.ok THEN Good([k |-> "pair", items |-> r.v, tail |-> t.v], t.p) ELSE Bad
            [] OTHER -> Bad
Init == d \in Data(Depth)
Next == UNCHANGED d
RoundTrip == LET b == Enc(d) IN \A rest \in {<<>>, <<Null>>, <<0, 127, 5>>} : Dec(b \o rest, 1) = Good(d, Len(b) + 1)
Truncated == LET b == Enc(d) IN \A n \in 0..Len(b) - 1 : ~Dec(SubSeq(b, 1, n), 1).ok
=============================================================================
