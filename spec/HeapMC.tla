------------------------------- MODULE HeapMC -------------------------------
(* The collector's algorithm: a table of chains of records whose link carries  *)
(* the mark and root bits, marking with a work list, sweeping, rehashing.      *)
(* Checked against what Heap.tla says of reachability.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Regs, Tables          \* block addresses 1..N, registers, table sizes
VARIABLES table,   \* index in Tables
          head,    \* bucket -> address or 0
          link,    \* address -> [next, mark, root]
          live,    \* addresses allocated and not freed (ghost)
          kind,    \* address -> "scan" or "atomic"
          slot,    \* address -> the one word of the block
          reg,     \* register -> word
          dtors,   \* address -> destructor calls of the current block
          rooted   \* addresses rooted (ghost)
vars == <<table, head, link, live, kind, slot, reg, dtors, rooted>>
A == 1..N
Size(t) == Tables[t]
Hash(a, t) == a % Size(t)
NoLink == [next |-> 0, mark |-> FALSE, root |-> FALSE]
Max == Len(Tables)

RECURSIVE Chain(_, _)
Chain(a, l) == IF a = 0 THEN <<>> ELSE <<a>> \o Chain(l[a].next, l)
Ran(q) == {q[i] : i \in DOMAIN q}
InTable(h, l) == UNION {Ran(Chain(h[i], l)) : i \in DOMAIN h}
Count == Cardinality(InTable(head, link))

Insert(a, t, h, l) == LET i == Hash(a, t) IN <<[h EXCEPT ![i] = a], [l EXCEPT ![a].next = h[i]]>>
RECURSIVE InsertAll(_, _, _)
InsertAll(q, t, hl) == IF q = <<>> THEN hl ELSE InsertAll(Tail(q), t, Insert(q[1], t, hl[1], hl[2]))
RECURSIVE Cat(_, _, _)
Cat(i, h, l) == IF i \notin DOMAIN h THEN <<>> ELSE Chain(h[i], l) \o Cat(i + 1, h, l)
Resize(t, h, l) == InsertAll(Cat(0, h, l), t, <<[i \in 0..(Size(t) - 1) |-> 0], l>>)

(* unlink a, keeping the predecessor's bits *)
RemoveFrom(a, t, h, l) ==
  LET i == Hash(a, t) c == Chain(h[i], l) k == CHOOSE k \in DOMAIN c : c[k] = a
  IN IF k = 1 THEN <<[h EXCEPT ![i] = l[a].next], l>> ELSE <<h, [l EXCEPT ![c[k - 1]].next = l[a].next]>>

(* marking with a work list *)
RECURSIVE Mark(_, _, _)
Mark(work, h, l) ==
  IF work = <<>> THEN l
  ELSE LET a == work[Len(work)] rest == SubSeq(work, 1, Len(work) - 1)
       IN IF a \notin InTable(h, l) THEN Mark(rest, h, l)
          ELSE IF l[a].mark THEN Mark(rest, h, l)
          ELSE Mark(IF kind[a] = "atomic" THEN rest ELSE Append(rest, slot[a]), h, [l EXCEPT ![a].mark = TRUE])
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Marked(h, l) == Mark(SeqOf({a \in InTable(h, l) : l[a].root}) \o SeqOf({reg[r] : r \in Regs}), h, l)

RECURSIVE SweepChain(_, _, _)
SweepChain(q, h, l) ==
  IF q = <<>> THEN <<h, l>>
  ELSE IF l[q[1]].mark THEN SweepChain(Tail(q), h, [l EXCEPT ![q[1]].mark = FALSE])
  ELSE LET r == RemoveFrom(q[1], table, h, l) IN SweepChain(Tail(q), r[1], [r[2] EXCEPT ![q[1]] = NoLink])
Swept(h, l) == SweepChain(Cat(0, h, l), h, l)
RECURSIVE Shrunk(_, _)
Shrunk(t, n) == IF t > 1 /\ Size(t) > 4 * n THEN Shrunk(t - 1, n) ELSE t

(* reachability, as in Heap.tla *)
RECURSIVE Close(_, _)
Close(seen, front) == IF front = {} THEN seen
  ELSE LET next == {slot[a] : a \in {x \in front : kind[x] = "scan"}} \cap live IN Close(seen \cup front, next \ (seen \cup front))
Reach == Close({}, ({reg[r] : r \in Regs} \cap live) \cup rooted)

Init == /\ table = 1 /\ head = [i \in 0..(Size(1) - 1) |-> 0] /\ link = [a \in A |-> NoLink]
        /\ live = {} /\ kind = [a \in A |-> "scan"] /\ slot = [a \in A |-> 0] /\ reg = [r \in Regs |-> 0]
        /\ dtors = [a \in A |-> 0] /\ rooted = {}

Add(a, l) == LET grow == 4 * Count > 3 * Size(table) /\ table < Max
                 t == IF grow THEN table + 1 ELSE table
                 hl == IF grow THEN Resize(t, head, l) ELSE <<head, l>>
                 r == Insert(a, t, hl[1], hl[2])
             IN table' = t /\ head' = r[1] /\ link' = r[2]
Alloc(r, a, k) ==
  /\ a \notin live
  /\ Add(a, [link EXCEPT ![a] = NoLink])
  /\ live' = live \cup {a} /\ kind' = [kind EXCEPT ![a] = k] /\ slot' = [slot EXCEPT ![a] = 0] /\ reg' = [reg EXCEPT ![r] = a]
  /\ dtors' = [dtors EXCEPT ![a] = 0] /\ UNCHANGED rooted
Store(r, q) == /\ reg[r] \in live /\ slot' = [slot EXCEPT ![reg[r]] = reg[q]] /\ UNCHANGED <<table, head, link, live, kind, reg, dtors, rooted>>
Load(r, q) == /\ reg[q] \in live /\ reg' = [reg EXCEPT ![r] = slot[reg[q]]] /\ UNCHANGED <<table, head, link, live, kind, slot, dtors, rooted>>
Clear(r) == /\ reg' = [reg EXCEPT ![r] = 0] /\ UNCHANGED <<table, head, link, live, kind, slot, dtors, rooted>>
Root(r) == /\ reg[r] \in live /\ link' = [link EXCEPT ![reg[r]].root = TRUE] /\ rooted' = rooted \cup {reg[r]}
           /\ UNCHANGED <<table, head, live, kind, slot, reg, dtors>>
Forget(a, b) == /\ reg' = [r \in Regs |-> IF reg[r] = a THEN b ELSE reg[r]]
                /\ slot' = [x \in A |-> IF x = b /\ b # 0 THEN (IF slot[a] = a THEN b ELSE slot[a]) ELSE IF slot[x] = a THEN b ELSE slot[x]]
Free(r) == LET a == reg[r] IN
  /\ a \in live
  /\ LET x == RemoveFrom(a, table, head, link) IN head' = x[1] /\ link' = [x[2] EXCEPT ![a] = NoLink]
  /\ live' = live \ {a} /\ rooted' = rooted \ {a} /\ dtors' = [dtors EXCEPT ![a] = @ + 1] /\ Forget(a, 0) /\ UNCHANGED <<table, kind>>
Move(r, b) == LET a == reg[r] IN       \* realloc
  /\ a \in live /\ b \notin live
  /\ LET x == RemoveFrom(a, table, head, link) IN
       head' = Insert(b, table, x[1], x[2])[1]
       /\ link' = [Insert(b, table, x[1], [x[2] EXCEPT ![b] = [NoLink EXCEPT !.root = link[a].root]])[2] EXCEPT ![a] = NoLink]
  /\ live' = (live \ {a}) \cup {b} /\ rooted' = IF a \in rooted THEN (rooted \ {a}) \cup {b} ELSE rooted
  /\ kind' = [kind EXCEPT ![b] = kind[a]] /\ dtors' = [dtors EXCEPT ![b] = 0] /\ Forget(a, b) /\ UNCHANGED table
Collect ==
  LET s == Swept(head, Marked(head, link))
      kept == InTable(s[1], s[2])
      t == Shrunk(table, Cardinality(kept))
      z == IF t = table THEN s ELSE Resize(t, s[1], s[2])
  IN /\ table' = t /\ head' = z[1] /\ link' = z[2]
     /\ live' = live \cap kept /\ rooted' = rooted \cap kept
     /\ dtors' = [a \in A |-> IF a \in live \ kept THEN dtors[a] + 1 ELSE dtors[a]]
     /\ slot' = [a \in A |-> IF slot[a] \in live \ kept THEN 0 ELSE slot[a]] /\ UNCHANGED <<kind, reg>>

Next == \/ \E r \in Regs : \/ \E a \in A : Move(r, a) \/ \E k \in {"scan", "atomic"} : Alloc(r, a, k)
                           \/ \E q \in Regs : Store(r, q) \/ Load(r, q)
                           \/ Clear(r) \/ Root(r) \/ Free(r)
        \/ Collect

TypeOK == /\ InTable(head, link) = live                               \* each live block is in the table
          /\ \A i \in DOMAIN head : \A a \in Ran(Chain(head[i], link)) : Hash(a, table) = i
          /\ \A a \in live : link[a].root = (a \in rooted) /\ ~link[a].mark
Safe == \A a \in live : dtors[a] = 0                                  \* nothing live was destroyed
OnceOnly == \A a \in A : dtors[a] <= 1
(* a collection keeps what is reachable and nothing else, and destroys the rest once *)
Exact == [][Collect => /\ live' = Reach
                       /\ \A a \in live \ Reach : dtors'[a] = dtors[a] + 1
                       /\ \A a \in Reach : dtors'[a] = dtors[a] /\ (slot[a] \in Reach => slot'[a] = slot[a])]_vars
=============================================================================
