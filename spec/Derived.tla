------------------------------- MODULE Derived -------------------------------
(* A definitional interpreter of the derived forms: each form by its own rule,   *)
(* not by what it expands to.  An evaluation takes a state s (store st, effects  *)
(* log, fuel) and gives [s, v].  Environments map names to places of the store;  *)
(* closures keep theirs.  A program that uses up the fuel is left out.  Values: <<"n", k>>, <<"b", 0/1>>, <<"q", k>> constant  *)
(* k, <<"c", params, body, env>>, <<"u">> void.                                  *)
(* "say" writes its label and its value, so the order and the number of          *)
(* evaluations show; "plus" takes anything but a number for 0.                   *)
EXTENDS Script
Fuel == 3000
U == <<"u">>
B(x) == <<"b", IF x THEN 1 ELSE 0>>
True(v) == v # <<"b", 0>>
Num(v) == IF v[1] = "n" THEN v[2] ELSE 0
R(s, v) == [s |-> s, v |-> v]
Burn(s) == [s EXCEPT !.fuel = IF @ = 0 THEN 0 ELSE @ - 1]
Shown(v) == IF v[1] = "c" THEN <<"c">> ELSE v

RECURSIVE Ev(_, _, _), EvList(_, _, _, _), BindSeq(_, _, _), Body(_, _, _), And(_, _, _), Or(_, _, _), Cond(_, _, _), Seq_(_, _, _), DoLoop(_, _, _), Enter(_, _, _, _)

EvList(s, env, es, acc) ==
  IF es = <<>> THEN [s |-> s, vs |-> acc]
  ELSE LET r == TLCEval(Ev(s, env, Head(es))) IN EvList(r.s, env, Tail(es), Append(acc, r.v))

(* binds names to values, in a new part of the environment *)
Enter(s, env, xs, vs) ==
  [s |-> [s EXCEPT !.st = @ \o vs],
   env |-> [x \in {xs[i] : i \in DOMAIN xs} |-> Len(s.st) + (CHOOSE i \in DOMAIN xs : xs[i] = x)] @@ env]

Names(bs) == [i \in DOMAIN bs |-> bs[i][1]]
Exprs(bs) == [i \in DOMAIN bs |-> bs[i][2]]

(* let*: one binding after the other, each in the scope of the ones before *)
BindSeq(s, env, bs) ==
  IF bs = <<>> THEN [s |-> s, env |-> env]
  ELSE LET r == TLCEval(Ev(s, env, bs[1][2]))
           e == TLCEval(Enter(r.s, env, <<bs[1][1]>>, <<r.v>>))
       IN BindSeq(e.s, e.env, Tail(bs))

(* letrec: places first, then the values in order, all in the scope of all names *)
Rec(s, env, bs) ==
  LET n == Len(bs)
      e == TLCEval(Enter(s, env, Names(bs), [i \in 1..n |-> U]))
      RECURSIVE Fill(_, _)
      Fill(t, i) == IF i > n THEN t
                    ELSE LET r == TLCEval(Ev(t, e.env, bs[i][2])) IN Fill([r.s EXCEPT !.st[e.env[bs[i][1]]] = r.v], i + 1)
  IN [s |-> Fill(e.s, 1), env |-> e.env]

(* a body: definitions are in the scope of each other and of all that follows *)
Defined(items) == SelectSeq(items, LAMBDA i : i[1] \in {"def", "defn"})
DefName(i) == i[2]
DefExpr(i) == IF i[1] = "def" THEN i[3] ELSE <<"lam", i[3], i[4]>>
Body(s, env, items) ==
  LET ds == Defined(items)
      e == TLCEval(Enter(s, env, [i \in DOMAIN ds |-> DefName(ds[i])], [i \in DOMAIN ds |-> U]))
      RECURSIVE Run(_, _, _)
      Run(t, k, v) == IF k > Len(items) THEN R(t, v)
                      ELSE IF items[k][1] \in {"def", "defn"}
                           THEN LET r == TLCEval(Ev(t, e.env, DefExpr(items[k]))) IN Run([r.s EXCEPT !.st[e.env[DefName(items[k])]] = r.v], k + 1, U)
                      ELSE LET r == TLCEval(Ev(t, e.env, items[k])) IN Run(r.s, k + 1, r.v)
  IN Run(e.s, 1, U)

Seq_(s, env, es) ==
  IF es = <<>> THEN R(s, U)
  ELSE LET r == TLCEval(Ev(s, env, Head(es))) IN IF Len(es) = 1 THEN r ELSE Seq_(r.s, env, Tail(es))

Apply(s, f, vs) ==
  IF f[1] # "c" \/ Len(f[2]) # Len(vs) \/ s.fuel = 0 THEN R(s, U)
  ELSE LET e == TLCEval(Enter(Burn(s), f[4], f[2], vs)) IN Body(e.s, e.env, f[3])

And(s, env, es) ==
  IF es = <<>> THEN R(s, B(TRUE))
  ELSE LET r == TLCEval(Ev(s, env, Head(es))) IN
       IF Len(es) = 1 \/ ~True(r.v) THEN r ELSE And(r.s, env, Tail(es))
Or(s, env, es) ==
  IF es = <<>> THEN R(s, B(FALSE))
  ELSE LET r == TLCEval(Ev(s, env, Head(es))) IN
       IF Len(es) = 1 \/ True(r.v) THEN r ELSE Or(r.s, env, Tail(es))
(* clauses <<test, body>>; a last clause with test <<"else">> *)
Cond(s, env, cs) ==
  IF cs = <<>> THEN R(s, U)
  ELSE IF cs[1][1][1] = "else" THEN Body(s, env, cs[1][2])
  ELSE LET r == TLCEval(Ev(s, env, cs[1][1])) IN
       IF True(r.v) THEN Body(r.s, env, cs[1][2]) ELSE Cond(r.s, env, Tail(cs))
Lit(l) == IF l[1] = "q" THEN <<"q", l[2]>> ELSE <<l[1], l[2]>>
(* d: [vars, steps, test, exprs, commands]; every round binds the variables anew *)
DoLoop(s, env, d) ==
  LET t == TLCEval(Ev(Burn(s), env, d[3])) IN
  IF True(t.v) \/ t.s.fuel = 0 THEN Seq_(t.s, env, d[4])
  ELSE LET c == TLCEval(Seq_(t.s, env, d[5]))
           r == TLCEval(EvList(c.s, env, d[2], <<>>))
           e == TLCEval(Enter(r.s, env, d[1], r.vs))
       IN DoLoop(e.s, e.env, d)

Ev(s, env, e) ==
  LET k == e[1] IN
  CASE k \in {"n", "b", "q"} -> R(s, <<k, e[2]>>)
    [] k = "v" -> R(s, s.st[env[e[2]]])
    [] k = "say" -> LET r == TLCEval(Ev(s, env, e[3])) IN R([r.s EXCEPT !.log = Append(@, <<e[2], Shown(r.v)>>)], r.v)
    [] k = "set" -> LET r == TLCEval(Ev(s, env, e[3])) IN R([r.s EXCEPT !.st[env[e[2]]] = r.v], U)
    [] k = "plus" -> LET r == TLCEval(EvList(s, env, <<e[2], e[3]>>, <<>>)) IN R(r.s, <<"n", Num(r.vs[1]) + Num(r.vs[2])>>)
    [] k = "less" -> LET r == TLCEval(EvList(s, env, <<e[2], e[3]>>, <<>>)) IN R(r.s, B(Num(r.vs[1]) < Num(r.vs[2])))
    [] k = "same" -> LET r == TLCEval(EvList(s, env, <<e[2], e[3]>>, <<>>)) IN R(r.s, B(Shown(r.vs[1]) = Shown(r.vs[2]) /\ r.vs[1][1] # "c"))
    [] k = "lam" -> R(s, <<"c", e[2], e[3], env>>)
    [] k = "app" -> LET f == TLCEval(Ev(s, env, e[2]))
                        r == TLCEval(EvList(f.s, env, e[3], <<>>))
                    IN Apply(r.s, f.v, r.vs)
    [] k = "if" -> LET r == TLCEval(Ev(s, env, e[2])) IN Ev(r.s, env, IF True(r.v) THEN e[3] ELSE e[4])
    [] k = "begin" -> Seq_(s, env, e[2])
    [] k = "let" -> LET r == TLCEval(EvList(s, env, Exprs(e[2]), <<>>))
                        n == TLCEval(Enter(r.s, env, Names(e[2]), r.vs))
                    IN Body(n.s, n.env, e[3])
    [] k = "let*" -> LET n == TLCEval(BindSeq(s, env, e[2])) IN Body(n.s, n.env, e[3])
    [] k = "letrec" -> LET n == TLCEval(Rec(s, env, e[2])) IN Body(n.s, n.env, e[3])
    [] k = "nlet" -> LET r == TLCEval(EvList(s, env, Exprs(e[3]), <<>>))
                         p == TLCEval(Enter(r.s, env, <<e[2]>>, <<U>>))
                         f == <<"c", Names(e[3]), e[4], p.env>>
                     IN Apply([p.s EXCEPT !.st[p.env[e[2]]] = f], f, r.vs)
    [] k = "cond" -> Cond(s, env, e[2])
    [] k = "case" -> LET r == TLCEval(Ev(s, env, e[2]))
                         hits == SelectSeq(e[3], LAMBDA c : \E i \in DOMAIN c[1] : Lit(c[1][i]) = r.v)
                     IN IF hits # <<>> THEN Body(r.s, env, hits[1][2])
                        ELSE IF e[4] # <<>> THEN Body(r.s, env, e[4]) ELSE R(r.s, U)
    [] k = "and" -> And(s, env, e[2])
    [] k = "or" -> Or(s, env, e[2])
    [] k = "when" -> LET r == TLCEval(Ev(s, env, e[2])) IN IF True(r.v) THEN Body(r.s, env, e[3]) ELSE R(r.s, U)
    [] k = "unless" -> LET r == TLCEval(Ev(s, env, e[2])) IN IF True(r.v) THEN R(r.s, U) ELSE Body(r.s, env, e[3])
    [] k = "do" -> LET bs == e[2]
                       r == TLCEval(EvList(s, env, Exprs(bs), <<>>))
                       n == TLCEval(Enter(r.s, env, Names(bs), r.vs))
                   IN DoLoop(n.s, n.env, <<Names(bs), [i \in DOMAIN bs |-> bs[i][3]], e[3], e[4], e[5]>>)

(* a program: a body at the top; each operation is one item of it *)
DStart(p) == LET xs == p.defined IN
             [fuel |-> Fuel, log |-> <<>>, st |-> [i \in DOMAIN xs |-> U],
              env |-> [x \in {xs[i] : i \in DOMAIN xs} |-> CHOOSE i \in DOMAIN xs : xs[i] = x]]
DStep(s, op) ==
  LET i == op.item
      r == TLCEval(Ev([st |-> s.st, log |-> <<>>, fuel |-> s.fuel], s.env, IF i[1] \in {"def", "defn"} THEN DefExpr(i) ELSE i))
      t == IF i[1] \in {"def", "defn"} THEN [r.s.st EXCEPT ![s.env[DefName(i)]] = r.v] ELSE r.s.st
  IN <<[s EXCEPT !.st = t, !.fuel = r.s.fuel], <<IF r.s.fuel = 0 THEN "stop" ELSE "ok", r.s.log>>>>
===============================================================================
