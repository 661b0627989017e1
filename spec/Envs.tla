--------------------------------- MODULE Envs ---------------------------------
(* Environments as maps from names to values; eval runs in the environment given. *)
(*   envs[1] is the environment of the program itself.                            *)
(*   A closure remembers the environment and the local variables of its creation. *)
(* Values: [k |-> "num", n], [k |-> "proc", env, loc, ps, body], [k |-> "env", e], *)
(*         [k |-> "built", name] a procedure of the base environment              *)
EXTENDS Script, FiniteSets
Num(n) == [k |-> "num", n |-> n]
EnvV(e) == [k |-> "env", e |-> e]
Void == [k |-> "void"]
Built(x) == [k |-> "built", name |-> x]
BaseNames == {"+", "car", "cdr", "list", "add1"}      \* those the scripts use
Base == [x \in BaseNames |-> Built(x)]
Empty == [x \in {} |-> 0]
Put(m, x, v) == [y \in DOMAIN m \cup {x} |-> IF y = x THEN v ELSE m[y]]
Ok(s, v) == [ok |-> TRUE, s |-> s, v |-> v]
Err(s, m) == [ok |-> FALSE, s |-> s, v |-> m]
Fuel == 200

RECURSIVE Ev(_, _, _, _, _), EvAll(_, _, _, _, _, _), App(_, _, _, _)
(* s: all environments; e: current environment; loc: local variables; f: fuel *)
EvAll(s, e, loc, xs, acc, f) ==
  IF xs = <<>> THEN Ok(s, acc)
  ELSE LET r == Ev(s, e, loc, Head(xs), f) IN IF r.ok THEN EvAll(r.s, e, loc, Tail(xs), Append(acc, r.v), f) ELSE r
App(s, p, vs, f) ==
  CASE f = 0 -> Err(s, "fuel")
    [] p.k = "proc" -> IF Len(vs) # Len(p.ps) THEN Err(s, "arity")
                       ELSE Ev(s, p.env, [x \in DOMAIN p.loc \cup {p.ps[i] : i \in DOMAIN p.ps} |->
                               IF \E i \in DOMAIN p.ps : p.ps[i] = x THEN vs[CHOOSE i \in DOMAIN p.ps : p.ps[i] = x] ELSE p.loc[x]], p.body, f - 1)
    [] p.k = "built" /\ p.name = "+" -> IF \A i \in DOMAIN vs : vs[i].k = "num" THEN Ok(s, Num(vs[1].n + vs[2].n)) ELSE Err(s, "argument")
    [] p.k = "built" /\ p.name = "add1" -> IF vs[1].k = "num" THEN Ok(s, Num(vs[1].n + 1)) ELSE Err(s, "argument")
    [] OTHER -> Err(s, "procedure")
Names(m) == DOMAIN m \ BaseNames
Ev(s, e, loc, x, f) ==
  CASE f = 0 -> Err(s, "fuel")
    [] x.t = "num" -> Ok(s, Num(x.n))
    [] x.t = "ref" -> IF x.x \in DOMAIN loc THEN Ok(s, loc[x.x])
                      ELSE IF x.x \in DOMAIN s[e] THEN Ok(s, s[e][x.x]) ELSE Err(s, "undefined")
    [] x.t = "def" -> LET r == Ev(s, e, loc, x.e, f) IN IF r.ok THEN Ok([r.s EXCEPT ![e] = Put(@, x.x, r.v)], Void) ELSE r
    [] x.t = "set" -> LET r == Ev(s, e, loc, x.e, f)
                      IN IF ~r.ok THEN r ELSE IF x.x \in DOMAIN r.s[e] THEN Ok([r.s EXCEPT ![e] = Put(@, x.x, r.v)], Void) ELSE Err(r.s, "undefined")
    [] x.t = "let" -> LET r == Ev(s, e, loc, x.e, f) IN IF r.ok THEN Ev(r.s, e, Put(loc, x.x, r.v), x.body, f) ELSE r
    [] x.t = "lam" -> Ok(s, [k |-> "proc", env |-> e, loc |-> loc, ps |-> x.ps, body |-> x.body])
    [] x.t = "seq" -> LET r == EvAll(s, e, loc, x.es, <<>>, f) IN IF r.ok THEN Ok(r.s, r.v[Len(r.v)]) ELSE r
    [] x.t = "call" -> LET r == EvAll(s, e, loc, <<x.f>> \o x.args, <<>>, f)
                       IN IF r.ok THEN App(r.s, r.v[1], Tail(r.v), f) ELSE r
    (* host operations: the names eval, environment-ref, ... of the program *)
    [] x.t = "eval" -> LET q == Ev(s, x.env, Empty, x.e, f - 1) IN q
    [] x.t = "eset" -> LET r == Ev(s, e, loc, x.e, f) IN IF r.ok THEN Ok([r.s EXCEPT ![x.env] = Put(@, x.x, r.v)], Void) ELSE r
    [] x.t = "eref" -> Ok(s, IF x.x \in DOMAIN s[x.env] THEN s[x.env][x.x] ELSE Num(x.d))
    [] x.t = "cur" -> Ok(s, EnvV(e))
Show(v) == CASE v.k = "num" -> ToString(v.n) [] v.k = "env" -> "env" \o ToString(v.e) [] v.k = "void" -> "void" [] OTHER -> "proc"

Range(lo, hi) == {"n" \o ToString(i) : i \in lo..hi}
EStart(s) == <<Base>>           \* the environment of the program; its helper procedures are not counted
EStep(s, op) ==
  CASE op.op = "make" -> <<Append(s, IF op.base THEN Base ELSE Empty), <<"ok", "env">>>>
    [] op.op = "copy" -> <<Append(s, s[op.env]), <<"ok", "env">>>>
    [] op.op = "copysyms" -> <<Append(s, [x \in {op.syms[i] : i \in DOMAIN op.syms} \cap DOMAIN s[op.env] |-> s[op.env][x]]), <<"ok", "env">>>>
    [] op.op = "do" -> LET r == Ev(s, 1, Empty, op.e, Fuel)
                       IN IF r.ok THEN <<r.s, <<"ok", Show(r.v)>>>> ELSE <<r.s, <<"stop", r.v>>>>
    [] op.op = "fill" -> <<[s EXCEPT ![op.env] = [x \in DOMAIN @ \cup Range(op.lo, op.hi) |-> IF x \in Range(op.lo, op.hi) THEN Num(op.v) ELSE @[x]]], <<"ok", "void">>>>
    (* what an environment holds: the names of the universe with their values, the number of others *)
    [] op.op = "view" -> <<s, <<"ok", [i \in DOMAIN op.names |-> IF op.names[i] \in DOMAIN s[op.env] THEN Show(s[op.env][op.names[i]]) ELSE "-"],
                               ToString(Cardinality(DOMAIN s[op.env] \ BaseNames)), ToString(Cardinality(DOMAIN s[op.env] \cap BaseNames))>>>>
(* an operation on one environment leaves the others alone unless it evaluates in them *)
WellFormed == \A i \in DOMAIN st : \A x \in DOMAIN st[i] : st[i][x].k \in {"num", "proc", "built", "env", "void"}
=============================================================================
