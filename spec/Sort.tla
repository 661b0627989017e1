--------------------------------- MODULE Sort ---------------------------------
(* Sequences of elements (numbers of objects of a pool) and orderings on them,  *)
(* given by ranks: x comes before y when rank(x) < rank(y), and elements of one *)
(* rank compare equal.  vars: the sequences made so far, [kind, xs].            *)
EXTENDS Script, FiniteSets
SoStart(s) == [vars |-> <<>>, ords |-> s.ords]

SortBy(rk, xs) ==      \* counting sort: stable by construction
  LET Ranks == {rk[xs[i]] : i \in DOMAIN xs}
      RECURSIVE Go1(_)
      Go1(R) == IF R = {} THEN <<>>
                ELSE LET m == CHOOSE r \in R : \A q \in R : r <= q
                     IN SelectSeq(xs, LAMBDA e : rk[e] = m) \o Go1(R \ {m})
  IN Go1(Ranks)

SoStep(s, op) ==
  LET o == op.op
      New(k, xs) == <<[s EXCEPT !.vars = Append(@, [kind |-> k, xs |-> xs, from |-> 0, ord |-> 0])], <<"ok", k, xs>>>>
      v == s.vars[op.v]
      sorted == TLCEval(SortBy(s.ords[op.o], v.xs))
  IN CASE o = "make" -> New(op.kind, op.es)
       [] o \in {"sort", "nest"} -> <<[s EXCEPT !.vars = Append(@, [kind |-> v.kind, xs |-> sorted, from |-> op.v, ord |-> op.o])], <<"ok", v.kind, sorted>>>>
       [] o = "look" -> <<s, <<"ok", v.kind, v.xs>>>>             \* the ordering looks at the input, which stays as it was
       [] o = "raise" -> <<s, IF Len(v.xs) < 2 THEN <<"ok", v.kind, v.xs>> ELSE <<"stop">>>>
       [] o = "show" -> <<s, <<"ok", v.kind, v.xs>>>>

CONSTANT Small
(* the definition of the sorted sequence: a permutation of the input, given by the positions, that is ordered and stable *)
IsSorted(rk, xs, ys) ==
  /\ Len(xs) = Len(ys)
  /\ \A i, j \in 1..Len(ys) : i < j => rk[ys[i]] <= rk[ys[j]]
  /\ \A e \in {xs[i] : i \in DOMAIN xs} \cup {ys[i] : i \in DOMAIN ys} :
        Cardinality({i \in DOMAIN xs : xs[i] = e}) = Cardinality({i \in DOMAIN ys : ys[i] = e})
  /\ \A r \in {rk[xs[i]] : i \in DOMAIN xs} :
        SelectSeq(xs, LAMBDA e : rk[e] = r) = SelectSeq(ys, LAMBDA e : rk[e] = r)
SortOK == \A k \in DOMAIN st.vars :
             LET w == st.vars[k] IN
             w.from # 0 /\ Len(w.xs) <= Small =>
               /\ w.kind = st.vars[w.from].kind
               /\ IsSorted(st.ords[w.ord], st.vars[w.from].xs, w.xs)
===============================================================================
