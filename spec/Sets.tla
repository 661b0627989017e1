--------------------------------- MODULE Sets ---------------------------------
(* Sets of elements (numbers of a pool of objects no two of which are equal?)    *)
(* and enumeration sets (members of a universe, which is a sequence of symbols). *)
(* sets: the sets made so far; univs: the universes; enums: [u, m], a set of     *)
(* numbers m of universe u.  Results: <<"s", set>>, <<"b", 0/1>>, <<"n", k>>,    *)
(* <<"l", sequence>>, <<"u">> no value.                                          *)
EXTENDS Script, FiniteSets
XStart(s) == [sets |-> <<>>, univs |-> <<>>, enums |-> <<>>]
ToSet(xs) == {xs[i] : i \in DOMAIN xs}
BoolV(b) == <<"b", IF b THEN 1 ELSE 0>>
OK(s, v) == <<s, <<"ok", v>>>>
Fail(s) == <<s, <<"stop", "error">>>>
RECURSIVE Fold(_, _, _)
Fold(F(_, _), z, xs) == IF xs = <<>> THEN z ELSE Fold(F, F(z, Head(xs)), Tail(xs))
SymDiff(A, B) == (A \ B) \cup (B \ A)
Inter(A, B) == A \cap B
Minus(A, B) == A \ B
Union2(A, B) == A \cup B
Order(u, m) == SelectSeq(u, LAMBDA e : e \in m)
PosIn(u, e) == CHOOSE i \in DOMAIN u : u[i] = e

XStep(s, op) ==
  LET o == op.op
      X(k) == s.sets[op.vs[k]]
      xs == [k \in DOMAIN op.vs |-> X(k)]
      NewS(m) == <<[s EXCEPT !.sets = Append(@, m)], <<"ok", <<"s", m>>>>>>
      SetV(m) == <<[s EXCEPT !.sets[op.vs[1]] = m], <<"ok", <<"s", m>>>>>>
      E(k) == s.enums[op.vs[k]]
      u == s.univs[E(1).u]
      u2 == s.univs[E(2).u]
      NewE(n, m) == <<[s EXCEPT !.enums = Append(@, [u |-> n, m |-> m])], <<"ok", <<"l", Order(s.univs[n], m)>>>>>>
      Merge(m) == IF E(1).u = E(2).u THEN NewE(E(1).u, m) ELSE Fail(s)
      SubE(a, b) == ToSet(s.univs[a.u]) \subseteq ToSet(s.univs[b.u]) /\ a.m \subseteq b.m
  IN CASE o = "make" -> NewS(ToSet(op.es))
       [] o = "copy" -> NewS(X(1))
       [] o = "add!" -> SetV(X(1) \cup {op.e})
       [] o = "remove!" -> SetV(X(1) \ {op.e})
       [] o = "clear!" -> SetV({})
       [] o = "member?" -> OK(s, BoolV(op.e \in X(1)))
       [] o = "count" -> OK(s, <<"n", Cardinality(X(1))>>)
       [] o = "empty?" -> OK(s, BoolV(X(1) = {}))
       [] o \in {"list", "map", "for-each"} -> OK(s, <<"s", X(1)>>)
       [] o = "subset?" -> OK(s, BoolV(X(1) \subseteq X(2)))
       [] o = "proper-subset?" -> OK(s, BoolV(X(1) \subseteq X(2) /\ X(1) # X(2)))
       [] o \in {"set=?", "equal?"} -> OK(s, BoolV(X(1) = X(2)))
       [] o = "union" -> NewS(Fold(Union2, {}, xs))
       [] o = "intersect" -> NewS(IF xs = <<>> THEN {} ELSE Fold(Inter, X(1), xs))
       [] o = "subtract" -> NewS(Fold(Minus, X(1), Tail(xs)))
       [] o = "symmetric-difference" -> NewS(Fold(SymDiff, X(1), Tail(xs)))
       \* enumeration sets
       [] o = "universe" -> <<[s EXCEPT !.univs = Append(@, op.es), !.enums = Append(@, [u |-> Len(s.univs) + 1, m |-> ToSet(op.es)])], <<"ok", <<"l", op.es>>>>>>
       [] o = "e-list" -> OK(s, <<"l", Order(u, E(1).m)>>)
       [] o = "e-universe" -> NewE(E(1).u, ToSet(u))
       [] o = "e-construct" -> NewE(E(1).u, ToSet(op.es))
       [] o = "e-index" -> OK(s, IF op.e \in ToSet(u) THEN <<"n", PosIn(u, op.e) - 1>> ELSE <<"b", 0>>)
       [] o = "e-member?" -> OK(s, BoolV(op.e \in E(1).m))
       [] o = "e-subset?" -> OK(s, BoolV(SubE(E(1), E(2))))
       [] o = "e=?" -> OK(s, BoolV(SubE(E(1), E(2)) /\ SubE(E(2), E(1))))
       [] o = "e-union" -> Merge(E(1).m \cup E(2).m)
       [] o = "e-intersect" -> Merge(E(1).m \cap E(2).m)
       [] o = "e-difference" -> Merge(E(1).m \ E(2).m)
       [] o = "e-complement" -> NewE(E(1).u, ToSet(u) \ E(1).m)
       [] o = "e-project" -> NewE(E(2).u, E(1).m \cap ToSet(u2))

(* members belong to their universe, and are listed once and in its order *)
SetsOK ==
  \A k \in DOMAIN st.enums :
    LET e == st.enums[k]  u == st.univs[e.u]  l == Order(u, e.m)
    IN e.m \subseteq ToSet(u) /\ Len(l) = Cardinality(e.m)

(* the laws of the algebra, for the operations as defined above, over all subsets of a small universe *)
CONSTANT Law
ASSUME LET P == SUBSET Law
       IN \A A, B \in P :
            /\ Union2(A, B) = Union2(B, A) /\ Inter(A, B) = Inter(B, A) /\ SymDiff(A, B) = SymDiff(B, A)
            /\ Minus(Law, Union2(A, B)) = Inter(Minus(Law, A), Minus(Law, B))
            /\ Minus(Law, Inter(A, B)) = Union2(Minus(Law, A), Minus(Law, B))
            /\ SymDiff(A, B) = Minus(Union2(A, B), Inter(A, B))
            /\ (A \subseteq B) = (Inter(A, B) = A)
            /\ \A C \in P : /\ SymDiff(SymDiff(A, B), C) = SymDiff(A, SymDiff(B, C))
                            /\ Minus(Minus(A, B), C) = Minus(A, Union2(B, C))
===============================================================================
