------------------------------- MODULE MacrosMC -------------------------------
(* Matching against its declarative definition, for all small patterns and forms: *)
(* a form matches exactly when some bindings turn the pattern, read as a template, *)
(* into the form, and then the bindings are those found (an ellipsis before a dot  *)
(* takes every element: the tail is not a pair).                                   *)
EXTENDS Macros
CONSTANTS Size, MaxVars
VARIABLES pat, form
S(x) == <<"s", x>>
RECURSIVE Data(_, _)
Data(A, n) == IF n = 0 THEN A
  ELSE LET D == Data(A, n - 1) IN A \cup {<<"p", a, d>> : a \in D, d \in D}
PAtoms == {S("a"), S("b"), S("k"), S("..."), Nil, <<"a", "1">>}
FAtoms == {S("x"), S("k"), Nil, <<"a", "1">>}
Elems(A) == A \cup {<<"p", a, d>> : a \in A \ {Nil}, d \in A \cap {Nil, S("x"), S("b")}}
PElems == {S("a"), S("b"), S("k"), <<"a", "1">>, Build(<<S("a"), S("b")>>, Nil), Build(<<S("a"), S("...")>>, Nil), Build(<<S("b"), S("...")>>, S("a"))}
Lists(E, Ends, n) == UNION {{Build(q, e) : q \in [1..k -> E], e \in Ends} : k \in 0..n}
Patterns == {p \in Lists(PElems \cup {S("...")}, {Nil, S("b")}, Size) : Pattern(p) = "ok" /\ Distinct(Vars(p, {"k"}, 0)) /\ ~Wild(p, {"k"}, 0)}
Forms == Lists({S("x"), S("k"), <<"a", "1">>, Build(<<S("x"), S("k")>>, Nil), Build(<<S("x")>>, Nil)}, {Nil, S("x")}, Size)
RECURSIVE Subs(_)
Subs(d) == {d} \cup (IF Pair(d) THEN Subs(d[2]) \cup Subs(d[3]) ELSE {})
Seqs(X, n) == UNION {[1..k -> X] : k \in 0..n}
Values(f, d) == CASE d = 0 -> Subs(f) [] d = 1 -> Seqs(Subs(f), Size) [] OTHER -> Seqs(Seqs(Subs(f), 2), Size)
RECURSIVE Envs(_, _)
Envs(f, vs) == IF vs = <<>> THEN {<<>>}
               ELSE {<<<<vs[1][1], vs[1][2], v>>>> \o r : v \in Values(f, vs[1][2]), r \in Envs(f, Tail(vs))}
RECURSIVE Greedy(_, _)
Greedy(p, env) ==     \* no tail after an ellipsis and a dot is a pair
  CASE Dots(p) -> (LET e == EndOf(p) IN Sym(e) /\ Bound(env, e[2]) /\ At(env, e[2])[2] = 0 => ~Pair(At(env, e[2])[3])) /\ Greedy(Rest(p), env)
    [] Pair(p) -> Greedy(p[3], env)
    [] OTHER -> TRUE
Init0 == pat \in Patterns /\ form \in Forms /\ sid = 1 /\ pos = 0 /\ st = 0 /\ res = <<>>
Next0 == UNCHANGED <<pat, form, svars>>
Shallow(p) == Len(Vars(p, {"k"}, 0)) <= MaxVars /\ \A i \in DOMAIN Vars(p, {"k"}, 0) : Vars(p, {"k"}, 0)[i][2] = 0 \/ (Vars(p, {"k"}, 0)[i][2] = 1 /\ ~\E j \in DOMAIN Spine(p) : Pair(Spine(p)[j]))
Declared ==
  LET vs == Vars(pat, {"k"}, 0)
      m == Match(pat, form, {"k"})
  IN /\ m[1] => RoundTrip(pat, {"k"}, form, m[2]) /\ Greedy(pat, m[2])
     /\ Shallow(pat) => LET es == {e \in Envs(form, vs) : LET r == Inst(pat, e) IN r[1] /\ Same(r[2], form) /\ Greedy(pat, e)}
                        IN IF m[1] THEN es = {m[2]} ELSE es = {}
=============================================================================
