-------------------------------- MODULE Intern --------------------------------
(* The intern table: chained buckets, grown before an insertion that finds them *)
(* too full.  Checked for every hash function: interning a spelling a second     *)
(* time finds the object made the first time.                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Spellings, MaxHash, Sizes, Num, Den   \* load factor Num/Den
VARIABLES hash, buckets, size, level, made
vars == <<hash, buckets, size, level, made>>
N == Sizes[level]
Idx(h, n) == (h % n) + 1
Init == /\ hash \in [Spellings -> 0..MaxHash] /\ level = 1 /\ size = 0
        /\ buckets = [i \in 1..Sizes[1] |-> <<>>] /\ made = [s \in Spellings |-> 0]
RECURSIVE Cells(_, _), Fill(_, _)
Cells(bs, i) == IF i > Len(bs) THEN <<>> ELSE bs[i] \o Cells(bs, i + 1)
Fill(bs, cs) == IF cs = <<>> THEN bs
                ELSE LET j == Idx(hash[Head(cs)], Len(bs)) IN Fill([bs EXCEPT ![j] = <<Head(cs)>> \o @], Tail(cs))
Found(s) == \E i \in DOMAIN buckets[Idx(hash[s], N)] : buckets[Idx(hash[s], N)][i] = s
Intern(s) ==
  IF Found(s) THEN UNCHANGED vars
  ELSE LET grow == size * Den > N * Num
           l == IF grow THEN level + 1 ELSE level
           bs == IF grow THEN Fill([i \in 1..Sizes[l] |-> <<>>], Cells(buckets, 1)) ELSE buckets
           j == Idx(hash[s], Sizes[l])
       IN /\ level' = l /\ size' = size + 1 /\ made' = [made EXCEPT ![s] = @ + 1]
          /\ buckets' = [bs EXCEPT ![j] = <<s>> \o @] /\ UNCHANGED hash
Next == \E s \in Spellings : Intern(s)
OnceOnly == \A s \in Spellings : made[s] <= 1
Findable == \A s \in Spellings : made[s] = 1 => Found(s)
Exact == Len(Cells(buckets, 1)) = size
=============================================================================
