-------------------------------- MODULE Heap --------------------------------
(* Minim's own collector: what may happen to the blocks of a mutator.          *)
(* Each operation carries what was observed (obs): the blocks freed during it, *)
(* the destructors run, blocks altered, and the accounting functions.  The     *)
(* result is "ok" or what is wrong.  The collector may be conservative, so an  *)
(* unreachable block may stay for K collections, and then must be gone.        *)
(* An object stands for one block, or for a chain of cnt equal blocks.         *)
EXTENDS Script, FiniteSets
K == 2
HStart(s) == [S |-> [i \in 1..8 |-> 0], o |-> <<>>, n |-> 0, paused |-> FALSE]
(* o: identity -> [size, kind, slots, root, dtor, cnt, age, group]; references *)
(* are identity + 1, 0 is null and negative numbers are other words            *)

Live(s) == DOMAIN s.o
Succ(b) == IF b.kind = 1 \/ b.group THEN {}
           ELSE IF b.kind = 2 THEN (IF b.slots = <<>> THEN {} ELSE {b.slots[1]})
           ELSE {b.slots[i] : i \in DOMAIN b.slots}
RECURSIVE Close(_, _, _)
Close(o, seen, front) ==
  IF front = {} THEN seen
  ELSE LET next == {r - 1 : r \in UNION {Succ(o[i]) : i \in front}} \cap DOMAIN o
       IN Close(o, seen \cup front, next \ (seen \cup front))
Reach(s, extra) == LET r0 == (({s.S[i] - 1 : i \in 1..8} \cup {i \in Live(s) : s.o[i].root}) \cap Live(s)) \cup extra
                   IN Close(s.o, {}, r0)

RECURSIVE Sum(_, _)
Sum(o, is) == IF is = {} THEN 0 ELSE LET i == CHOOSE x \in is : TRUE IN o[i].cnt * o[i].size + Sum(o, is \ {i})
MaxSize(o, is) == IF is = {} THEN 0 ELSE LET i == CHOOSE x \in is : \A y \in is : o[y].size <= o[x].size IN o[i].size

FreedSet(obs) == {obs.freed[i][1] : i \in DOMAIN obs.freed}
FreedCnt(obs, i) == obs.freed[CHOOSE k \in DOMAIN obs.freed : obs.freed[k][1] = i][2]
Pairs(q) == {q[i] : i \in DOMAIN q}

(* the blocks that went, removed from the state; references to an explicitly freed block are cleared *)
Without(s, obs) ==
  LET f == FreedSet(obs)
      left == {i \in Live(s) : i \notin f \/ s.o[i].cnt > FreedCnt(obs, i)}
      Ref(r) == IF r > 0 /\ r - 1 \notin left THEN 0 ELSE r
  IN IF f = {} THEN s ELSE
     [s EXCEPT !.S = [i \in 1..8 |-> Ref(s.S[i])],
               !.o = [i \in left |-> IF i \in f THEN [s.o[i] EXCEPT !.cnt = @ - FreedCnt(obs, i)]
                                      ELSE [s.o[i] EXCEPT !.slots = [k \in DOMAIN @ |-> Ref(@[k])]]]]

(* what is wrong with an observation: in state s (with all the blocks that can be freed), keep must stay and explicit is freed by the mutator *)
Wrong(s, obs, keep, explicit, free) ==
  CASE obs.bad = 1 -> "a block is freed twice or was never allocated"
    [] obs.bad = 2 -> "a destructor is called on something that is not a live block"
    [] obs.bad = 3 -> "an allocation returned nothing"
    [] obs.bad = 4 -> "an allocation returned memory that it does not own"
    [] obs.bad = 5 -> "calloc returned memory that is not zero"
    [] obs.bad = 6 -> "realloc to size zero returned a block"
    [] obs.alt # 0 -> "a block changed"
    [] \E i \in FreedSet(obs) : i \notin Live(s) -> "a block was freed again"
    [] \E i \in FreedSet(obs) : i \in Live(s) /\ FreedCnt(obs, i) > s.o[i].cnt -> "a block was freed again"
    [] \E i \in FreedSet(obs) : i \in keep -> "a reachable block was reclaimed"
    [] ~(explicit \subseteq FreedSet(obs)) -> "free did not free the block"
    [] ~free /\ FreedSet(obs) # explicit -> "a block was reclaimed while collection is paused"
    [] Pairs(obs.dtors) # {p \in Pairs(obs.freed) : s.o[p[1]].dtor} -> "destructors run do not match the blocks freed"
    [] OTHER -> "ok"
Account(s, obs) ==
  IF obs.al # Sum(s.o, Live(s)) THEN "allocated bytes are wrong"
  ELSE IF "re" \notin DOMAIN obs THEN "ok"
  ELSE LET r == Reach(s, {}) must == Sum(s.o, r) slack == 2 * MaxSize(s.o, Live(s) \ r)
       IN IF obs.re < must \/ obs.re > must + slack THEN "reachable bytes are wrong"
          ELSE IF obs.co # obs.al - obs.re THEN "collectable bytes are wrong" ELSE "ok"

Blank(size, kind, d) == [size |-> size, kind |-> kind, slots |-> [i \in 1..(size \div 8) |-> 0], root |-> FALSE, dtor |-> d, cnt |-> 1, age |-> 0, group |-> FALSE]
With(f, i, v) == [x \in DOMAIN f \cup {i} |-> IF x = i THEN v ELSE f[x]]
Single(s, r) == r - 1 \in Live(s) /\ ~s.o[r - 1].group

(* s: state in which the operation's collections happen; t: state after it *)
Out(s, t, op, keep, explicit, free) ==
  LET w == Wrong(s, op.obs, keep, explicit, free)
      u == Without(t, op.obs)
      a == IF w = "ok" THEN Account(u, op.obs) ELSE w
  IN <<u, IF a = "ok" THEN <<"ok">> ELSE <<"stop", a>>>>
Auto(s) == ~s.paused
Plain(s, t, op) == Out(s, t, op, Live(s), {}, FALSE)
Same(s, op) == Plain(s, s, op)

Collected(s, op, extra) ==
  LET r == Reach(s, extra)
      t == [s EXCEPT !.o = [i \in Live(s) |-> [s.o[i] EXCEPT !.age = IF i \in r THEN 0 ELSE @ + 1]]]
      x == Out(s, t, op, r, {}, TRUE)
  IN IF x[2][1] = "ok" /\ \E i \in Live(x[1]) : x[1].o[i].age >= K THEN <<x[1], <<"stop", "garbage is kept">>>> ELSE x

HStep(s, op) ==
  CASE op.k = "alloc" ->
         LET b == Blank(op.size, op.kind, op.d)
             t == [s EXCEPT !.o = With(@, s.n, b), !.n = @ + 1, !.S[op.s] = s.n + 1]
         IN Out(s, t, op, Reach(s, {}), {}, Auto(s))
    [] op.k = "chain" ->
         LET p == IF op.loose THEN s ELSE [s EXCEPT !.S[op.s] = 0]
             b == [Blank(8, op.kind, op.d) EXCEPT !.size = op.size, !.slots = <<>>, !.cnt = op.cnt, !.group = TRUE]
             t == [p EXCEPT !.o = With(@, s.n, b), !.n = @ + 1, !.S[op.s] = IF op.loose THEN @ ELSE IF op.cnt = 0 THEN 0 ELSE s.n + 1]
             x == Out([t EXCEPT !.S[op.s] = p.S[op.s]], t, op, Reach(p, {}) \cup (IF op.loose THEN {} ELSE {s.n}), {}, Auto(s))
         IN IF x[2][1] = "ok" /\ Auto(s) /\ op.obs.al > 100000000 /\ op.loose THEN <<x[1], <<"stop", "garbage is never collected">>>> ELSE x
    [] op.k = "realloc" ->
         LET r == s.S[op.s] IN
         IF r # 0 /\ r - 1 \in Live(s) /\ s.o[r - 1].group THEN Same(s, op)
         ELSE IF op.size = 0 THEN
           IF Single(s, r) THEN Out(s, [s EXCEPT !.S[op.s] = 0], op, Live(s) \ {r - 1}, {r - 1}, FALSE)
           ELSE Plain(s, [s EXCEPT !.S[op.s] = 0], op)
         ELSE IF ~Single(s, r) THEN
           Out(s, [s EXCEPT !.o = With(@, s.n, Blank(op.size, op.kind, op.d)), !.n = @ + 1, !.S[op.s] = s.n + 1], op, Reach(s, {}), {}, Auto(s))
         ELSE LET old == s.o[r - 1]
                  b == [Blank(op.size, op.kind, op.d) EXCEPT !.slots = [i \in DOMAIN @ |-> IF i \in DOMAIN old.slots THEN old.slots[i] ELSE 0],
                                                            !.root = old.root, !.age = old.age]
              IN Out(s, [s EXCEPT !.o[r - 1] = b], op, Reach(s, {}), {}, Auto(s))
    [] op.k = "free" ->
         LET r == s.S[op.s] IN
         IF Single(s, r) THEN Out(s, s, op, Live(s) \ {r - 1}, {r - 1}, FALSE) ELSE Same(s, op)
    [] op.k = "store" ->
         LET r == s.S[op.s] IN
         IF Single(s, r) THEN IF op.i <= Len(s.o[r - 1].slots) THEN Plain(s, [s EXCEPT !.o[r - 1].slots[op.i] = IF op.t < 0 THEN op.t ELSE IF Single(s, s.S[op.t]) THEN s.S[op.t] ELSE 0], op) ELSE Same(s, op) ELSE Same(s, op)
    [] op.k = "load" ->
         LET r == s.S[op.t] IN
         IF Single(s, r) THEN IF op.i <= Len(s.o[r - 1].slots)
                              THEN LET v == s.o[r - 1].slots[op.i] IN Plain(s, [s EXCEPT !.S[op.s] = IF Single(s, v) THEN v ELSE 0], op) ELSE Same(s, op) ELSE Same(s, op)
    [] op.k = "copy" -> Plain(s, [s EXCEPT !.S[op.s] = s.S[op.t]], op)
    [] op.k = "clear" -> Plain(s, [s EXCEPT !.S[op.s] = 0], op)
    [] op.k = "root" -> IF Single(s, s.S[op.s]) THEN Plain(s, [s EXCEPT !.o[s.S[op.s] - 1].root = TRUE], op) ELSE Same(s, op)
    [] op.k = "dtor" -> IF Single(s, s.S[op.s]) THEN Plain(s, [s EXCEPT !.o[s.S[op.s] - 1].dtor = op.d], op) ELSE Same(s, op)
    [] op.k = "mrk" -> IF Single(s, s.S[op.s]) THEN Plain(s, [s EXCEPT !.o[s.S[op.s] - 1].kind = op.kind], op) ELSE Same(s, op)
    [] op.k = "collect" -> Collected(s, op, {})
    [] op.k = "reg" -> Collected(s, op, {})
    [] op.k = "pause" -> Plain(s, [s EXCEPT !.paused = TRUE], op)
    [] op.k = "resume" -> Plain(s, [s EXCEPT !.paused = FALSE], op)
    [] op.k \in {"stats", "mode"} -> Same(s, op)
    [] op.k = "died" -> <<s, <<"stop", "the process died: " \o op.what>>>>
    [] op.k = "end" ->
         LET w == Wrong(s, op.obs, {}, Live(s), TRUE)
         IN <<s, IF w # "ok" THEN <<"stop", w>>
                 ELSE IF \E i \in Live(s) : FreedCnt(op.obs, i) # s.o[i].cnt THEN <<"stop", "blocks are left after the end">> ELSE <<"ok">>>>
=============================================================================
