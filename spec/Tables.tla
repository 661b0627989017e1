-------------------------------- MODULE Tables --------------------------------
(* Hashtables as finite maps.  A script gives the key universe: keys[i] has an *)
(* object identity .id, a structure .cls (what equal? sees) and a number .n.   *)
(* A table is [eqv, map]: eqv names the equivalence of its keys                *)
(*   "eq" by identity, "equal" by structure, <m> numbers modulo m             *)
(* and map takes a class representative to the value stored last.              *)
EXTENDS Script, FiniteSets
Cardinal(t) == Cardinality(DOMAIN t.map)

Rep(s, t, i) == LET k == s.keys[i]
                IN CASE t.eqv = "eq" -> k.id
                     [] t.eqv = "equal" -> k.cls
                     [] OTHER -> ToString(k.n % t.m)
Empty == [x \in {} |-> 0]
TStart(s) == [keys |-> s.keys, tabs |-> <<>>]

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
Has(s, t, k) == Rep(s, t, k) \in DOMAIN t.map
Get(s, t, k) == t.map[Rep(s, t, k)]
PutK(s, t, k, v) == LET r == Rep(s, t, k)
                    IN IF r \in DOMAIN t.map THEN [t EXCEPT !.map[r] = v] ELSE [t EXCEPT !.map = @ @@ (r :> v)]
Del(s, t, k) == LET r == Rep(s, t, k) IN [t EXCEPT !.map = [x \in DOMAIN @ \ {r} |-> @[x]]]
SetTab(s, i, t) == [s EXCEPT !.tabs[i] = t]

(* "view": size, the sum of the values, and for every key of the universe *)
(* the value of its entry *)

Shown(s, t, k) == IF Has(s, t, k) THEN ToString(Get(s, t, k)) ELSE "-"
B(b) == IF b THEN "#t" ELSE "#f"
Same(s, a, b) == a.eqv = b.eqv /\ a.m = b.m /\ a.map = b.map

RECURSIVE TStep(_, _), TAll(_, _)
(* nested operations: those a callback performs; a failing one fails the whole *)
TAll(s, ops) == IF ops = <<>> THEN <<s, <<"ok", "">>>>
                ELSE LET q == TStep(s, Head(ops))
                     IN IF IsStop(q[2]) THEN q ELSE TAll(q[1], Tail(ops))

TStep(s, op) ==
  LET o == op.op
      t == s.tabs[op.t]
      ok(x) == <<"ok", x>>
  IN CASE o = "make" -> <<[s EXCEPT !.tabs = Append(@, [eqv |-> op.eqv, m |-> op.m, map |-> Empty])], ok("V")>>
       [] o = "set" -> <<SetTab(s, op.t, PutK(s, t, op.k, op.v)), ok("V")>>
       [] o = "del" -> <<SetTab(s, op.t, Del(s, t, op.k)), ok("V")>>
       [] o = "ref" -> IF Has(s, t, op.k) THEN <<s, ok(ToString(Get(s, t, op.k)))>> ELSE <<s, <<"stop", "missing">>>>
       [] o = "refd" -> <<s, ok(ToString(IF Has(s, t, op.k) THEN Get(s, t, op.k) ELSE op.v))>>
       [] o = "reft" ->            \* default computed by a procedure that performs operations
            IF Has(s, t, op.k) THEN <<s, ok(ToString(Get(s, t, op.k)))>>
            ELSE LET q == TAll(s, op.sub) IN IF IsStop(q[2]) THEN q ELSE <<q[1], ok(ToString(op.v))>>
       [] o = "has" -> <<s, ok(B(Has(s, t, op.k)))>>
       [] o = "upd" ->             \* op.d = "none": no default; op.sub: what the updater does before it returns
            IF ~Has(s, t, op.k) /\ op.d = "none" THEN <<s, <<"stop", "missing">>>>
            ELSE LET old == IF Has(s, t, op.k) THEN Get(s, t, op.k) ELSE op.dv
                     q == TAll(s, op.sub)
                 IN IF IsStop(q[2]) THEN q
                    ELSE <<SetTab(q[1], op.t, PutK(q[1], q[1].tabs[op.t], op.k, old + op.v)), ok("V")>>
       [] o = "size" -> <<s, ok(ToString(Cardinal(t)))>>
       [] o = "clear" -> <<SetTab(s, op.t, [t EXCEPT !.map = Empty]), ok("V")>>
       [] o = "copy" -> <<[s EXCEPT !.tabs = Append(@, t)], ok("V")>>
       [] o = "view" -> <<s, <<"ok", [i \in DOMAIN s.keys |-> Shown(s, t, i)],
                              ToString(Cardinal(t)), ToString(SumF(t.map, DOMAIN t.map))>>>>
       [] o = "equal" -> <<s, ok(B(Same(s, t, s.tabs[op.u])))>>
       [] o = "hash" -> <<s, ok(IF Same(s, t, s.tabs[op.u]) THEN "#t" ELSE "?")>>

(* invariants of the specification itself *)
OneEntryPerKey == \A i \in DOMAIN st.tabs : \A a, b \in DOMAIN st.keys :
   Rep(st, st.tabs[i], a) = Rep(st, st.tabs[i], b) => Shown(st, st.tabs[i], a) = Shown(st, st.tabs[i], b)
SizeBound == \A i \in DOMAIN st.tabs : Cardinal(st.tabs[i]) <= Len(st.keys)
=============================================================================
