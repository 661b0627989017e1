-------------------------------- MODULE Macros --------------------------------
(* syntax-case: patterns, the bindings of a match, and templates, over data      *)
(*   <<"s", name>>  <<"a", text>> another atom  <<"n", 0>> the empty list         *)
(*   <<"p", car, cdr>>  <<"v", elements>>                                         *)
(* A pattern and a template are data too; the symbols ... and _ have their        *)
(* meaning.  A binding is <<name, depth, value>>: the value of depth 0 is a       *)
(* datum, the value of depth d + 1 a sequence of values of depth d.               *)
EXTENDS Script, FiniteSets
Nil == <<"n", 0>>
Pair(d) == d[1] = "p"
Sym(d) == d[1] = "s"
IsSym(d, x) == d[1] = "s" /\ d[2] = x
Range(xs) == {xs[i] : i \in DOMAIN xs}
RECURSIVE Spine(_), EndOf(_), Build(_, _), Flat(_)
Spine(d) == IF Pair(d) THEN <<d[2]>> \o Spine(d[3]) ELSE <<>>
EndOf(d) == IF Pair(d) THEN EndOf(d[3]) ELSE d
Build(xs, e) == IF xs = <<>> THEN e ELSE <<"p", Head(xs), Build(Tail(xs), e)>>
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Dots(d) == Pair(d) /\ Pair(d[3]) /\ IsSym(d[3][2], "...")
Rest(d) == d[3][3]               \* what follows the ellipsis
RECURSIVE Same(_, _)
Same(d, e) ==
  IF d[1] # e[1] THEN FALSE
  ELSE IF d[1] = "p" THEN Same(d[2], e[2]) /\ Same(d[3], e[3])
  ELSE IF d[1] = "v" THEN Len(d[2]) = Len(e[2]) /\ \A i \in DOMAIN d[2] : Same(d[2][i], e[2][i])
  ELSE d[2] = e[2]

----------------------------------------------------------------------------
\* which patterns there are
RECURSIVE Vars(_, _, _)          \* <<name, depth>>, in order
Vars(p, lits, n) ==
  CASE p[1] = "s" -> IF p[2] = "_" \/ p[2] \in lits THEN <<>> ELSE <<<<p[2], n>>>>
    [] Dots(p) -> Vars(p[2], lits, n + 1) \o Vars(Rest(p), lits, n)
    [] p[1] = "p" -> Vars(p[2], lits, n) \o Vars(p[3], lits, n)
    [] p[1] = "v" -> Vars(Build(p[2], Nil), lits, n)
    [] OTHER -> <<>>
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "open" \in S THEN "open" ELSE "ok"
RECURSIVE Pattern(_)
Pattern(p) ==
  CASE p[1] = "s" -> IF p[2] = "..." THEN "bad" ELSE "ok"
    [] p[1] = "p" ->
         LET s == Spine(p)
             m == {i \in DOMAIN s : IsSym(s[i], "...")}
         IN IF Cardinality(m) > 1 \/ 1 \in m THEN "bad"        \* two, or nothing before it
            ELSE Worst({Pattern(s[i]) : i \in DOMAIN s \ m} \cup {Pattern(EndOf(p))})
    [] p[1] = "v" -> IF p[2] = <<>> THEN "ok" ELSE Pattern(Build(p[2], Nil))
    [] OTHER -> "ok"
Distinct(xs) == \A i, j \in DOMAIN xs : i = j \/ xs[i][1] # xs[j][1]

----------------------------------------------------------------------------
\* matching: <<TRUE, bindings>> or <<FALSE, <<>>>>
No == <<FALSE, <<>>>>
Both(x, y) == IF x[1] /\ y[1] THEN <<TRUE, x[2] \o y[2]>> ELSE No
RECURSIVE Match(_, _, _), Many(_, _, _, _)
Match(p, f, lits) ==
  CASE p[1] = "s" -> IF p[2] = "_" THEN <<TRUE, <<>>>>
                     ELSE IF p[2] \in lits THEN (IF IsSym(f, p[2]) THEN <<TRUE, <<>>>> ELSE No)
                     ELSE <<TRUE, <<<<p[2], 0, f>>>>>>
    [] Dots(p) -> LET s == Spine(f)
                      k == Len(s) - Len(Spine(Rest(p)))
                  IN IF k < 0 THEN No
                     ELSE Both(Many(p[2], SubSeq(s, 1, k), lits, Vars(p[2], lits, 0)),
                               Match(Rest(p), Build(SubSeq(s, k + 1, Len(s)), EndOf(f)), lits))
    [] p[1] = "p" -> IF Pair(f) THEN Both(Match(p[2], f[2], lits), Match(p[3], f[3], lits)) ELSE No
    [] p[1] = "v" -> IF f[1] = "v" THEN Match(Build(p[2], Nil), Build(f[2], Nil), lits) ELSE No
    [] OTHER -> IF Same(p, f) THEN <<TRUE, <<>>>> ELSE No
Many(h, fs, lits, vs) ==
  LET ms == [i \in DOMAIN fs |-> Match(h, fs[i], lits)]
  IN IF \E i \in DOMAIN fs : ~ms[i][1] THEN No
     ELSE <<TRUE, [j \in DOMAIN vs |-> <<vs[j][1], vs[j][2] + 1, [i \in DOMAIN fs |-> ms[i][2][j][3]]>>]>>

----------------------------------------------------------------------------
\* templates
Bound(env, x) == \E i \in DOMAIN env : env[i][1] = x
At(env, x) == env[CHOOSE i \in DOMAIN env : env[i][1] = x /\ \A j \in DOMAIN env : env[j][1] = x => j <= i]   \* the innermost
RECURSIVE Syms(_)
Syms(d) == CASE d[1] = "s" -> {d[2]} [] d[1] = "p" -> Syms(d[2]) \cup Syms(d[3])
             [] d[1] = "v" -> UNION {Syms(d[2][i]) : i \in DOMAIN d[2]} [] OTHER -> {}
(* env: <<name, depth, ...>>; n ellipses follow *)
RECURSIVE Template(_, _, _)
Template(t, env, n) ==
  CASE t[1] = "s" -> IF t[2] = "..." THEN "open"
                     ELSE IF ~Bound(env, t[2]) THEN "ok"
                     ELSE LET d == At(env, t[2])[2] IN IF d > n THEN "bad" ELSE IF d = n \/ d = 0 THEN "ok" ELSE "open"
    [] Dots(t) -> IF Pair(Rest(t)) /\ IsSym(Rest(t)[2], "...") THEN "open"
                  ELSE Worst({Template(t[2], env, n + 1), Template(Rest(t), env, n),
                              IF \E x \in Syms(t[2]) : Bound(env, x) /\ At(env, x)[2] > n THEN "ok" ELSE "bad"})
    [] t[1] = "p" -> Worst({Template(t[2], env, n), Template(t[3], env, n)})
    [] t[1] = "v" -> IF t[2] = <<>> THEN "ok" ELSE Template(Build(t[2], Nil), env, n)
    [] OTHER -> "ok"
(* <<TRUE, datum>>, or <<FALSE, ..>> when the sequences under an ellipsis differ in length *)
Fail == <<FALSE, Nil>>
RECURSIVE Inst(_, _)
Inst(t, env) ==
  CASE t[1] = "s" -> <<TRUE, IF Bound(env, t[2]) THEN At(env, t[2])[3] ELSE t>>
    [] Dots(t) ->
         LET vs == {x \in Syms(t[2]) : Bound(env, x) /\ At(env, x)[2] > 0}
             ns == {Len(At(env, x)[3]) : x \in vs}
             k == CHOOSE k \in ns : TRUE
             sub(i) == [j \in DOMAIN env |-> IF env[j][1] \in vs /\ At(env, env[j][1]) = env[j]
                                              THEN <<env[j][1], env[j][2] - 1, env[j][3][i]>> ELSE env[j]]
             hs == [i \in 1..k |-> Inst(t[2], sub(i))]
             r == Inst(Rest(t), env)
         IN IF Cardinality(ns) # 1 THEN Fail
            ELSE IF ~r[1] \/ \E i \in 1..k : ~hs[i][1] THEN Fail
            ELSE <<TRUE, Build([i \in 1..k |-> hs[i][2]], r[2])>>
    [] t[1] = "p" -> LET a == Inst(t[2], env)
                         d == Inst(t[3], env)
                     IN IF a[1] /\ d[1] THEN <<TRUE, <<"p", a[2], d[2]>>>> ELSE Fail
    [] t[1] = "v" -> LET r == Inst(Build(t[2], Nil), env)
                     IN IF r[1] THEN <<TRUE, <<"v", Spine(r[2])>>>> ELSE Fail
    [] OTHER -> <<TRUE, t>>

----------------------------------------------------------------------------
(* A macro: literals and clauses [pat, fender, with, tmpl]; fenders are            *)
(* <<"none">>, <<"id", x>>, <<"eq", x, y>>, <<"len", x, k>>, <<"not", fender>>;     *)
(* with is a sequence of <<pattern, template>> (with-syntax).                       *)
RECURSIVE Fender(_, _)
Fender(g, env) ==
  CASE g[1] = "none" -> TRUE
    [] g[1] = "id" -> Sym(At(env, g[2])[3])
    [] g[1] = "eq" -> LET a == At(env, g[2])[3]
                          b == At(env, g[3])[3] IN Sym(a) /\ Sym(b) /\ a[2] = b[2]
    [] g[1] = "len" -> Len(At(env, g[2])[3]) = g[3]
    [] g[1] = "not" -> ~Fender(g[2], env)
Lits(m) == Range(m.lits)
WithPat(c) == Build([i \in DOMAIN c.with |-> c.with[i][1]], Nil)
WithVars(c) == Vars(WithPat(c), {}, 0)
ClauseC(m, c) ==
  LET vs == Vars(c.pat, Lits(m), 0)
      ws == WithVars(c)
  IN IF Pattern(c.pat) # "ok" THEN Pattern(c.pat)
     ELSE IF ~Distinct(vs) \/ "..." \in Lits(m) \/ "_" \in Lits(m) THEN "open"
     ELSE IF c.with = <<>> THEN Template(c.tmpl, vs, 0)
     ELSE Worst({IF Distinct(ws) THEN Pattern(WithPat(c)) ELSE "open",
                 Worst({Template(c.with[i][2], vs, 0) : i \in DOMAIN c.with}),
                 Template(c.tmpl, vs \o ws, 0)})
MacroC(m) == Worst({ClauseC(m, m.clauses[i]) : i \in DOMAIN m.clauses})

RECURSIVE Try(_, _, _)
Try(m, f, i) ==       \* <<clause, bindings>>; clause 0 when none matches
  IF i > Len(m.clauses) THEN <<0, <<>>>>
  ELSE LET x == Match(m.clauses[i].pat, f, Lits(m))
       IN IF x[1] /\ Fender(m.clauses[i].fender, x[2]) THEN <<i, x[2]>> ELSE Try(m, f, i + 1)
Output(c, env) ==
  IF c.with = <<>> THEN Inst(c.tmpl, env)
  ELSE LET vals == [i \in DOMAIN c.with |-> Inst(c.with[i][2], env)]
           x == Match(WithPat(c), Build([i \in DOMAIN vals |-> vals[i][2]], Nil), {})
       IN IF \E i \in DOMAIN vals : ~vals[i][1] THEN Fail ELSE IF ~x[1] THEN Fail
          ELSE Inst(c.tmpl, env \o x[2])
Expand(m, f) ==
  LET x == Try(m, f, 1)
  IN IF x[1] = 0 THEN <<"none", 0, Nil>>
     ELSE LET o == Output(m.clauses[x[1]], x[2])
          IN IF o[1] THEN <<"ok", x[1], o[2]>> ELSE <<"bad", x[1], Nil>>

(* What a macro makes is the use of another one, when s.then = "list":                *)
(*   (syntax-rules () [(_ x ...) '(list x ...)] [(_ x ... . y) '(dot (x ...) y)])      *)
Cl(p, t) == [pat |-> p, fender |-> <<"none">>, with |-> <<>>, tmpl |-> t]
VX == <<"s", "x">>
D3 == <<"s", "...">>
ListIt == [lits |-> <<>>,
  clauses |-> <<Cl(Build(<<<<"s", "_">>, VX, D3>>, Nil), Build(<<<<"s", "list">>, VX, D3>>, Nil)),
                Cl(Build(<<<<"s", "_">>, VX, D3>>, <<"s", "y">>), Build(<<<<"s", "dot">>, Build(<<VX, D3>>, Nil), <<"s", "y">>>>, Nil))>>]
Then(s, r) == IF s.then = "list" /\ r[1] = "ok"
              THEN <<"ok", r[2], Expand(ListIt, <<"p", <<"s", "list-it">>, r[3]>>)[3]>> ELSE r
MStart(s) == [m |-> s.macro, then |-> s.then, class |-> MacroC(s.macro), i |-> 0, f |-> Nil, b |-> <<>>]
MStep(s, op) ==
  IF s.class # "ok" THEN <<s, <<"stop", s.class>>>>
  ELSE LET x == Try(s.m, op.f, 1) IN <<[s EXCEPT !.i = x[1], !.f = op.f, !.b = x[2]], Then(s, Expand(s.m, op.f))>>
(* A match says what the form is: the pattern, read as a template, is the form.   *)
RECURSIVE Wild(_, _, _)
Wild(p, lits, n) ==
  CASE p[1] = "s" -> p[2] = "_"
    [] Dots(p) -> Vars(p[2], lits, 0) = <<>> \/ Wild(p[2], lits, n) \/ Wild(Rest(p), lits, n)
    [] p[1] = "p" -> Wild(p[2], lits, n) \/ Wild(p[3], lits, n)
    [] p[1] = "v" -> p[2] # <<>> /\ Wild(Build(p[2], Nil), lits, n)
    [] OTHER -> FALSE
RoundTrip(p, lits, f, env) ==
  /\ ~Wild(p, lits, 0) => LET r == Inst(p, env) IN r[1] /\ Same(r[2], f)
  /\ [j \in DOMAIN env |-> <<env[j][1], env[j][2]>>] = Vars(p, lits, 0)
MacrosOK ==
  st.i > 0 => /\ RoundTrip(st.m.clauses[st.i].pat, Lits(st.m), st.f, st.b)
              /\ \A j \in 1..st.i - 1 : LET x == Match(st.m.clauses[j].pat, st.f, Lits(st.m))
                                        IN x[1] => ~Fender(st.m.clauses[j].fender, x[2])
=============================================================================
