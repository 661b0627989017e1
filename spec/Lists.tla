-------------------------------- MODULE Lists --------------------------------
(* Lists are sequences of values; vars - the lists made so far.  A procedure   *)
(* argument records each call (its arguments) and is described by two sets of  *)
(* elements: sel (it returns a true value) and boom (it raises).               *)
(* Values: <<"e", i>> element i, <<"n", k>> integer, <<"b", 0/1>> boolean,     *)
(*         <<"l", seq>> list, <<"p", a, d>> pair, <<"v">> no value.            *)
EXTENDS Script
LStart(s) == [vars |-> <<>>]
E(i) == <<"e", i>>
IsE(x, i) == x[1] = "e" /\ x[2] = i
In(x, S) == x[1] = "e" /\ x[2] \in S
L(xs) == <<"l", xs>>
F == <<"b", 0>>
T == <<"b", 1>>
Bool(b) == IF b THEN T ELSE F
SetMin(S) == CHOOSE i \in S : \A j \in S : i <= j
SetMax(S) == CHOOSE i \in S : \A j \in S : i >= j
Rev(xs) == [i \in DOMAIN xs |-> xs[Len(xs) + 1 - i]]
Stop(log) == <<"stop", log>>
Val(s, v) == <<s, <<"ok", <<>>, v>>>>
LVal(s, log, v) == <<s, <<"ok", log, v>>>>
NewL(s, log, xs) == <<[s EXCEPT !.vars = Append(@, xs)], <<"ok", log, L(xs)>>>>
RECURSIVE Cat(_), Cxr(_, _)
Cat(xs) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1]
           ELSE LET m == Len(xs) \div 2 IN Cat(SubSeq(xs, 1, m)) \o Cat(SubSeq(xs, m + 1, Len(xs)))
(* letters: the selectors, in the order in which they are applied *)
Cxr(t, ls) == IF ls = <<>> THEN <<"ok", <<>>, t>>
              ELSE IF t[1] # "p" THEN Stop(<<>>)
              ELSE Cxr(IF ls[1] = "a" THEN t[2] ELSE t[3], Tail(ls))

LStep(s, op) ==
  LET o == op.op
      X(k) == s.vars[op.vs[k]]
      xs == TLCEval(IF Len(op.vs) > 0 THEN X(1) ELSE <<>>)
      n == Len(xs)
      S == TLCEval({op.sel[k] : k \in DOMAIN op.sel})
      B == TLCEval({op.boom[k] : k \in DOMAIN op.boom})
      same == \A k \in DOMAIN op.vs : Len(X(k)) = n
      ts == [i \in 1..n |-> [k \in DOMAIN op.vs |-> X(k)[i]]]           \* argument lists of the calls
      hit(i) == \E k \in DOMAIN op.vs : In(X(k)[i], S)
      boom(i) == \E k \in DOMAIN op.vs : In(X(k)[i], B)
      booms == {i \in 1..n : boom(i)}
      \* a procedure that stops after the first call in D or raises; d is the value then, e the value at the end
      upto(D, d, e) == LET E0 == TLCEval(booms \cup D)
                           last == TLCEval(IF E0 = {} THEN n ELSE SetMin(E0))
                           log == SubSeq(ts, 1, last)
                       IN IF E0 # {} /\ boom(last) THEN <<s, Stop(log)>>
                          ELSE LVal(s, log, IF E0 = {} THEN e ELSE d)
      all(v) == IF booms = {} THEN NewL(s, ts, v) ELSE <<s, Stop(SubSeq(ts, 1, SetMin(booms)))>>
      at(e) == {i \in 1..n : IsE(xs[i], e)}
      first(e, v, none) == LET A == TLCEval(at(e)) IN Val(s, IF A = {} THEN none ELSE v[SetMin(A)])
      sized(r) == IF same THEN r ELSE <<s, Stop(<<>>)>>
  IN CASE o = "list" -> NewL(s, <<>>, [i \in DOMAIN op.es |-> E(op.es[i])])
       [] o = "iota" -> NewL(s, <<>>, [i \in 1..op.n |-> <<"n", i - 1>>])
       [] o = "make-list" -> IF op.n < 0 THEN <<s, Stop(<<>>)>> ELSE NewL(s, <<>>, [i \in 1..op.n |-> E(op.e)])
       [] o = "cons*" -> NewL(s, <<>>, [i \in DOMAIN op.es |-> E(op.es[i])] \o xs)
       [] o = "length" -> Val(s, <<"n", n>>)
       [] o = "reverse" -> NewL(s, <<>>, Rev(xs))
       [] o = "append" -> NewL(s, <<>>, Cat([k \in DOMAIN op.vs |-> X(k)]))
       [] o = "list-ref" -> IF op.n \in 0..(n - 1) THEN Val(s, xs[op.n + 1]) ELSE <<s, Stop(<<>>)>>
       [] o = "nth" -> IF op.n <= n THEN Val(s, xs[op.n]) ELSE <<s, Stop(<<>>)>>
       [] o = "list-set" -> IF op.n \in 0..(n - 1) THEN NewL(s, <<>>, [xs EXCEPT ![op.n + 1] = E(op.e)]) ELSE <<s, Stop(<<>>)>>
       [] o = "member" -> first(op.e, [i \in 1..n |-> L(SubSeq(xs, i, n))], F)
       [] o = "index-of" -> first(op.e, [i \in 1..n |-> <<"n", i - 1>>], F)
       [] o = "assoc" -> sized(first(op.e, [i \in 1..n |-> <<"p", xs[i], X(2)[i]>>], F))
       [] o = "remove" -> NewL(s, <<>>, SelectSeq(xs, LAMBDA x : ~IsE(x, op.e)))
       [] o = "remove*" -> NewL(s, <<>>, SelectSeq(xs, LAMBDA x : ~In(x, S)))
       [] o = "filter" -> all(SelectSeq(xs, LAMBDA x : In(x, S)))
       [] o = "map" -> sized(all([i \in 1..n |-> L(ts[i])]))
       [] o = "for-each" -> sized(upto({}, <<"v">>, <<"v">>))
       [] o = "andmap" -> sized(upto({i \in 1..n : ~hit(i)}, F, T))
       [] o = "ormap" -> sized(upto({i \in 1..n : hit(i)}, T, F))
       [] o = "foldl" -> all(Rev(xs) \o <<E(op.e)>>)          \* f(acc, x) = (cons x acc), from the left
       [] o = "foldr" -> IF booms = {} THEN NewL(s, Rev(ts), xs \o <<E(op.e)>>) ELSE <<s, Stop(Rev(SubSeq(ts, SetMax(booms), n)))>>
       [] o = "nest" ->         \* for each x of the first list: visit the second list, then pair x with each of its elements
            LET ys == TLCEval(X(2))
                ly == TLCEval([i \in DOMAIN ys |-> <<ys[i]>>])
            IN NewL(s, Cat([i \in 1..n |-> <<<<xs[i]>>>> \o ly \o ly]), [i \in 1..n |-> L([j \in DOMAIN ys |-> L(<<xs[i], ys[j]>>)])])
       [] o = "show" -> Val(s, L(xs))
       [] o = "cxr" -> <<s, Cxr(op.t, op.ls)>>
ListsOK == \A v \in DOMAIN st.vars : LET x == st.vars[v] IN Len(x) < 30 => Rev(Rev(x)) = x
=============================================================================
