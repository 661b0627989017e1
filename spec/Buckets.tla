-------------------------------- MODULE Buckets --------------------------------
(* The chained representation of a hashtable, checked to implement a finite     *)
(* map for every hash function: buckets of entries, growth when entries exceed  *)
(* buckets, shrinking when few are left, cells shared by old and new buckets.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, Vals, Sizes, MinSize, MaxHash
VARIABLES hash, buckets, count, abs
vars == <<hash, buckets, count, abs>>

None == [x \in {} |-> 0]
N == Len(buckets)
Idx(h, n) == (h % n) + 1
Fit(n) == LET S == {i \in DOMAIN Sizes : Sizes[i] >= n}
          IN Sizes[CHOOSE i \in S : \A j \in S : i <= j]
Blank(n) == [i \in 1..n |-> <<>>]

RECURSIVE Cells(_, _)
Cells(bs, i) == IF i > Len(bs) THEN <<>> ELSE bs[i] \o Cells(bs, i + 1)
RECURSIVE Fill(_, _)
Fill(bs, cs) == IF cs = <<>> THEN bs
                ELSE LET c == Head(cs)
                         j == Idx(hash[c[1]], Len(bs))
                     IN Fill([bs EXCEPT ![j] = <<c>> \o @], Tail(cs))
Rehash(bs, n) == Fill(Blank(Fit(n)), Cells(bs, 1))

Pos(b, k) == IF \E i \in DOMAIN b : b[i][1] = k THEN CHOOSE i \in DOMAIN b : b[i][1] = k /\ \A j \in 1..(i - 1) : b[j][1] # k ELSE 0
Find(k) == Pos(buckets[Idx(hash[k], N)], k)

Init == /\ hash \in [Keys -> 0..MaxHash]
        /\ buckets = Blank(Sizes[1]) /\ count = 0 /\ abs = None

SetK(k, v) ==
  LET j == Idx(hash[k], N)
      p == Find(k)
      bs == [buckets EXCEPT ![j] = <<<<k, v>>>> \o @]
  IN /\ abs' = [x \in DOMAIN abs \cup {k} |-> IF x = k THEN v ELSE abs[x]]
     /\ IF p > 0 THEN buckets' = [buckets EXCEPT ![j][p] = <<k, v>>] /\ count' = count
        ELSE /\ count' = count + 1
             /\ buckets' = IF count + 1 > N THEN Rehash(bs, count + 1) ELSE bs
DelK(k) ==
  LET j == Idx(hash[k], N)
      p == Find(k)
      b == buckets[j]
      bs == [buckets EXCEPT ![j] = SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b))]
  IN /\ abs' = [x \in DOMAIN abs \ {k} |-> abs[x]]
     /\ IF p = 0 THEN UNCHANGED <<buckets, count>>
        ELSE /\ count' = count - 1
             /\ buckets' = IF (count - 1) * 4 < N /\ count - 1 > MinSize THEN Rehash(bs, count - 1) ELSE bs
Clear == abs' = None /\ buckets' = Blank(Sizes[1]) /\ count' = 0

Next == /\ UNCHANGED hash
        /\ \/ \E k \in Keys, v \in Vals : SetK(k, v)
           \/ \E k \in Keys : DelK(k)
           \/ Clear

Content == {Cells(buckets, 1)[i] : i \in DOMAIN Cells(buckets, 1)}
Implements == /\ Content = {<<k, abs[k]>> : k \in DOMAIN abs}
              /\ Len(Cells(buckets, 1)) = Cardinality(DOMAIN abs)
              /\ count = Cardinality(DOMAIN abs)
Placed == \A i \in 1..N : \A p \in DOMAIN buckets[i] : Idx(hash[buckets[i][p][1]], N) = i
Lookup == \A k \in Keys : (Find(k) > 0) = (k \in DOMAIN abs)
=============================================================================
