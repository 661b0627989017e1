-------------------------------- MODULE Core --------------------------------
(* Reference semantics of Minim's core language: an abstract machine whose     *)
(* state is control, environment, store, continuation, error handler and       *)
(* output.  Expressions are tuples (see tools: lib/corelang.py renders the     *)
(* same tuples as Minim text):                                                  *)
(*   <<"q",d>> <<"v",x>> <<"lam",xs,rest,body>> <<"cl",<< <<xs,rest,body>> >> >>*)
(*   <<"if",a,b,c>> <<"seq",es>> <<"letv",<< <<xs,e>> >>,body>>                 *)
(*   <<"letrec",<< <<xs,e>> >>,body>> <<"set",x,e>> <<"app",f,args>>            *)
(*   <<"values",es>> <<"cwv",p,c>> and, at top level, <<"def",xs,e>>            *)
(* Values: <<"int",n>> <<"bool",b>> <<"null">> <<"void">> <<"sym",s>>           *)
(* <<"char",c>> <<"str",a>> <<"pair",a>> <<"vec",a>> <<"box",a>> <<"clo",a>>    *)
(* <<"prim",name>> <<"exn",kind,who,fields>>; a is a store address.             *)
EXTENDS Integers, Sequences, TLC

Range(f) == {f[x] : x \in DOMAIN f}
TRUEV == <<"bool", TRUE>>
FALSEV == <<"bool", FALSE>>
Bool(b) == <<"bool", b>>
Num(n) == <<"int", n>>
NULLV == <<"null">>
VOIDV == <<"void">>
UNBOUND == <<"unbound">>
Limit == 1000000

Done == <<>>                                  \* the empty continuation
Push(fr, k) == <<fr, k>>

---------------------------------------------------------------------------
(* Store *)
Alloc(st, cell) == [st EXCEPT !.store = Append(@, cell)]
Top(st) == Len(st.store)

RECURSIVE AllocList(_, _)                     \* <<store, value>>
AllocList(store, vs) ==
  IF vs = <<>> THEN <<store, NULLV>>
  ELSE LET r == AllocList(store, Tail(vs))
           s == Append(r[1], <<"pair", Head(vs), r[2]>>)
       IN <<s, <<"pair", Len(s)>>>>

(* a proper list as a sequence of values, or <<"bad">> wrapped *)
RECURSIVE ListVals(_, _, _)
ListVals(store, v, n) ==
  IF v = NULLV THEN [ok |-> TRUE, vs |-> <<>>]
  ELSE IF v[1] # "pair" \/ n = 0 THEN [ok |-> FALSE, vs |-> <<>>]
  ELSE LET r == ListVals(store, store[v[2]][3], n - 1)
       IN IF r.ok THEN [ok |-> TRUE, vs |-> <<store[v[2]][2]>> \o r.vs] ELSE r

(* literals: atoms as values; <<"list",ds>> <<"dot",ds,d>> <<"vecl",ds>> <<"boxl",d>> *)
(* are allocated when the program is loaded, so a literal is one object.       *)
RECURSIVE AllocDatum(_, _), AllocData(_, _)
AllocData(store, ds) ==                       \* <<store, values>>
  IF ds = <<>> THEN <<store, <<>>>>
  ELSE LET r == AllocDatum(store, Head(ds))
           q == AllocData(r[1], Tail(ds))
       IN <<q[1], <<r[2]>> \o q[2]>>
AllocDatum(store, d) ==
  CASE d[1] = "list" -> LET r == AllocData(store, d[2]) IN AllocList(r[1], r[2])
    [] d[1] = "vecl" -> LET r == AllocData(store, d[2])
                            s == Append(r[1], <<"vec", r[2]>>)
                        IN <<s, <<"vec", Len(s)>>>>
    [] d[1] = "boxl" -> LET r == AllocDatum(store, d[2])
                            s == Append(r[1], <<"box", r[2]>>)
                        IN <<s, <<"box", Len(s)>>>>
    [] d[1] = "strl" -> LET s == Append(store, <<"str", d[2]>>) IN <<s, <<"str", Len(s)>>>>
    [] OTHER -> <<store, d>>

---------------------------------------------------------------------------
(* The text a value is shown as by the tracing procedure of the programs *)
RECURSIVE Show(_, _, _), ShowSeq(_, _, _)
ShowSeq(store, vs, n) ==
  IF vs = <<>> THEN ""
  ELSE Show(store, Head(vs), n) \o (IF Len(vs) > 1 THEN " " ELSE "") \o ShowSeq(store, Tail(vs), n)
Show(store, v, n) ==
  IF n = 0 THEN "~"
  ELSE CASE v[1] = "int" -> ToString(v[2])
         [] v[1] = "bool" -> IF v[2] THEN "#t" ELSE "#f"
         [] v[1] = "null" -> "()"
         [] v[1] = "void" -> "V"
         [] v[1] = "sym" -> v[2]
         [] v[1] = "char" -> "c" \o v[2]
         [] v[1] = "str" -> "s" \o store[v[2]][2]
         [] v[1] = "pair" -> "(" \o Show(store, store[v[2]][2], n - 1) \o " . "
                                 \o Show(store, store[v[2]][3], n - 1) \o ")"
         [] v[1] = "vec" -> "[" \o ShowSeq(store, store[v[2]][2], n - 1) \o "]"
         [] v[1] = "box" -> "&" \o Show(store, store[v[2]][2], n - 1)
         [] v[1] \in {"clo", "prim"} -> "P"
         [] v[1] = "exn" -> "E"
         [] OTHER -> "?"

---------------------------------------------------------------------------
(* Machine states *)
Init0 == [status |-> "run", mode |-> "next", expr |-> <<>>, env |-> <<>>, vals |-> <<>>,
          store |-> <<>>, glob |-> <<>>, kont |-> Done, todo |-> <<>>, handler |-> <<"prim", "default-error-handler">>,
          out |-> <<>>, steps |-> 0, exn |-> <<>>, code |-> 0]

Ev(st, e, env, k) == [st EXCEPT !.mode = "ev", !.expr = e, !.env = env, !.kont = k]
Ret(st, vs) == [st EXCEPT !.mode = "ret", !.vals = vs]
Ret1(st, v) == Ret(st, <<v>>)
Ap(st, vs, k) == [st EXCEPT !.mode = "ap", !.vals = vs, !.kont = k]

(* Control passes to the error handler with the exception; nothing pending runs. *)
Raise(st, v) == Ap(st, <<st.handler, v>>, Push(<<"handler">>, Done))
Exn(st, kind, who, fields) == Raise(st, <<"exn", kind, who, fields>>)
ArgExn(st, who, v) == Exn(st, "argument", who, <<v>>)
FirstBad(args, t) == LET bad == {i \in DOMAIN args : args[i][1] # t} IN args[CHOOSE i \in bad : \A j \in bad : i <= j]
CoreErr(st) == Exn(st, "core", "", <<>>)      \* errors of the evaluator itself
Discard(st) == [st EXCEPT !.status = "discard"]

RECURSIVE BodyOf(_)
BodyOf(es) == IF Len(es) = 1 THEN es[1] ELSE <<"seq", es>>

(* Bind names to fresh locations holding values *)
RECURSIVE BindAll(_, _, _, _)
BindAll(store, env, xs, vs) ==                \* <<store, env>>
  IF xs = <<>> THEN <<store, env>>
  ELSE BindAll(Append(store, <<"var", Head(vs)>>), (Head(xs) :> (Len(store) + 1)) @@ env, Tail(xs), Tail(vs))

RECURSIVE SetAll(_, _, _, _)
SetAll(store, env, xs, vs) ==
  IF xs = <<>> THEN store
  ELSE SetAll([store EXCEPT ![env[Head(xs)]] = <<"var", Head(vs)>>], env, Tail(xs), Tail(vs))

Lookup(st, x) ==
  IF x \in DOMAIN st.env THEN st.store[st.env[x]][2]
  ELSE IF x \in DOMAIN st.glob THEN st.store[st.glob[x]][2]
  ELSE UNBOUND

PrimNames == {"+", "-", "*", "=", "<", ">", "<=", ">=", "cons", "car", "cdr", "set-car!", "set-cdr!",
  "list", "null?", "pair?", "list?", "not", "eq?", "vector", "make-vector", "vector-length", "vector-ref",
  "vector-set!", "vector-fill!", "vector->list", "list->vector", "box", "unbox", "set-box!", "procedure?", "integer?",
  "void", "length", "reverse", "append", "list-copy2", "out", "apply", "values", "call-with-values",
  "make-string", "string", "string-ref", "string-set!", "string-append", "string-length", "substring",
  "error", "raise", "exit", "current-error-handler", "void?", "symbol?", "boolean?", "char?",
  "default-error-handler", "exn-message", "argument-exn-actual", "range-exn-index", "range-exn-value", "missing-exn?",
  "exn?", "argument-exn?", "arity-exn?", "range-exn?", "exn-who", "exn-kind", "string?", "vector?", "box?", "map", "for-each", "modulo"}

---------------------------------------------------------------------------
(* Evaluating an expression *)
StepEv(st) ==
  LET e == st.expr
      env == st.env
      k == st.kont
  IN CASE e[1] = "q" -> Ret1(st, e[2])
       [] e[1] = "v" ->
            LET v == Lookup(st, e[2])
            IN IF v = UNBOUND
               THEN IF e[2] \in PrimNames /\ e[2] \notin DOMAIN st.env /\ e[2] \notin DOMAIN st.glob
                    THEN Ret1(st, <<"prim", e[2]>>) ELSE CoreErr(st)
               ELSE Ret1(st, v)
       [] e[1] = "lam" ->
            LET s == Alloc(st, <<"clo", << <<e[2], e[3], e[4]>> >>, env>>) IN Ret1(s, <<"clo", Top(s)>>)
       [] e[1] = "cl" ->
            LET s == Alloc(st, <<"clo", e[2], env>>) IN Ret1(s, <<"clo", Top(s)>>)
       [] e[1] = "if" -> Ev(st, e[2], env, Push(<<"if", e[3], e[4], env>>, k))
       [] e[1] = "seq" ->
            IF e[2] = <<>> THEN Ret1(st, VOIDV)
            ELSE IF Len(e[2]) = 1 THEN Ev(st, e[2][1], env, k)
            ELSE Ev(st, e[2][1], env, Push(<<"seq", Tail(e[2]), env>>, k))
       [] e[1] = "letv" ->
            IF e[2] = <<>> THEN Ev(st, BodyOf(e[3]), env, k)
            ELSE Ev(st, e[2][1][2], env, Push(<<"letv", e[2], 1, <<>>, e[3], env>>, k))
       [] e[1] = "letrec" ->
            LET names == [i \in 1..Len(e[2]) |-> e[2][i][1]]
                all == {<<i, j>> : i \in 1..Len(names), j \in 1..8}
                flat == LET RECURSIVE F(_)
                            F(i) == IF i > Len(names) THEN <<>> ELSE names[i] \o F(i + 1)
                        IN F(1)
                b == BindAll(st.store, env, flat, [i \in 1..Len(flat) |-> UNBOUND])
                s == [st EXCEPT !.store = b[1]]
            IN IF e[2] = <<>> THEN Ev(st, BodyOf(e[3]), env, k)
               ELSE Ev(s, e[2][1][2], b[2], Push(<<"letrec", e[2], 1, e[3], b[2]>>, k))
       [] e[1] = "set" -> Ev(st, e[3], env, Push(<<"set", e[2], env>>, k))
       [] e[1] = "app" -> Ev(st, e[2], env, Push(<<"app", <<>>, e[3], env>>, k))
       [] e[1] = "values" ->
            IF e[2] = <<>> THEN Ret(st, <<>>)
            ELSE Ev(st, e[2][1], env, Push(<<"values", <<>>, Tail(e[2]), env>>, k))
       [] e[1] = "cwv" -> Ev(st, e[2], env, Push(<<"cwvp", e[3], env>>, k))
       [] e[1] = "def" -> Ev(st, e[3], env, Push(<<"def", e[2]>>, k))

---------------------------------------------------------------------------
(* Returning values to the top frame of the continuation *)
Pop(st) == [st EXCEPT !.kont = @[2]]

StepRet(st) ==
  IF st.kont = Done THEN [st EXCEPT !.mode = "next"]
  ELSE
  LET fr == st.kont[1]
      k == st.kont[2]
      vs == st.vals
      one == Len(vs) = 1
  IN CASE fr[1] = "if" ->
            IF ~one THEN CoreErr(st)
            ELSE Ev(st, IF vs[1] # FALSEV THEN fr[2] ELSE fr[3], fr[4], k)
       [] fr[1] = "seq" ->
            IF Len(fr[2]) = 1 THEN Ev(st, fr[2][1], fr[3], k)
            ELSE Ev(st, fr[2][1], fr[3], Push(<<"seq", Tail(fr[2]), fr[3]>>, k))
       [] fr[1] = "letv" ->
            LET bs == fr[2]
                i == fr[3]
                acc == fr[4] \o vs
                names == LET RECURSIVE F(_)
                             F(j) == IF j > Len(bs) THEN <<>> ELSE bs[j][1] \o F(j + 1)
                         IN F(1)
                b == BindAll(st.store, fr[6], names, acc)
            IN IF Len(vs) # Len(bs[i][1]) THEN CoreErr(st)
               ELSE IF i = Len(bs) THEN Ev([st EXCEPT !.store = b[1]], BodyOf(fr[5]), b[2], k)
               ELSE Ev(st, bs[i + 1][2], fr[6], Push(<<"letv", bs, i + 1, acc, fr[5], fr[6]>>, k))
       [] fr[1] = "letrec" ->
            LET bs == fr[2]
                i == fr[3]
                s == [st EXCEPT !.store = SetAll(@, fr[5], bs[i][1], vs)]
            IN IF Len(vs) # Len(bs[i][1]) THEN CoreErr(st)
               ELSE IF i = Len(bs) THEN Ev(s, BodyOf(fr[4]), fr[5], k)
               ELSE Ev(s, bs[i + 1][2], fr[5], Push(<<"letrec", bs, i + 1, fr[4], fr[5]>>, k))
       [] fr[1] = "set" ->
            IF ~one THEN CoreErr(st)
            ELSE LET x == fr[2]
                     a == IF x \in DOMAIN fr[3] THEN fr[3][x] ELSE IF x \in DOMAIN st.glob THEN st.glob[x] ELSE 0
                 IN IF a = 0 THEN CoreErr(st)
                    ELSE Ret1(Pop([st EXCEPT !.store = [@ EXCEPT ![a] = <<"var", vs[1]>>]]), VOIDV)
       [] fr[1] = "app" ->
            IF ~one THEN CoreErr(st)
            ELSE LET acc == Append(fr[2], vs[1])
                 IN IF fr[3] = <<>> THEN Ap(st, acc, k)
                    ELSE Ev(st, Head(fr[3]), fr[4], Push(<<"app", acc, Tail(fr[3]), fr[4]>>, k))
       [] fr[1] = "values" ->
            IF ~one THEN CoreErr(st)
            ELSE LET acc == Append(fr[2], vs[1])
                 IN IF fr[3] = <<>> THEN Ret(Pop(st), acc)
                    ELSE Ev(st, Head(fr[3]), fr[4], Push(<<"values", acc, Tail(fr[3]), fr[4]>>, k))
       [] fr[1] = "cwvp" ->                    \* the producer is known: call it
            IF ~one THEN CoreErr(st)
            ELSE Ap(st, <<vs[1]>>, Push(<<"cwvc", fr[2], fr[3]>>, k))
       [] fr[1] = "cwvc" -> Ev(st, fr[2], fr[3], Push(<<"cwva", vs>>, k))
       [] fr[1] = "cwva" ->
            IF ~one THEN CoreErr(st) ELSE Ap(st, vs \o fr[2], k)
       [] fr[1] = "cwvf" -> Ap(st, <<fr[2]>> \o vs, k)
       [] fr[1] = "def" ->
            IF Len(vs) # Len(fr[2]) THEN CoreErr(st)
            ELSE LET RECURSIVE D(_, _)
                     D(s, i) ==
                       IF i > Len(fr[2]) THEN s
                       ELSE LET x == fr[2][i]
                            IN IF x \in DOMAIN s.glob
                               THEN D([s EXCEPT !.store = [@ EXCEPT ![s.glob[x]] = <<"var", vs[i]>>]], i + 1)
                               ELSE D([s EXCEPT !.store = Append(@, <<"var", vs[i]>>),
                                                !.glob = (x :> (Len(s.store) + 1)) @@ @], i + 1)
                 IN Ret1(Pop(D(st, 1)), VOIDV)
       [] fr[1] = "map" ->                     \* <<"map", f, done, rest, keep>>
            IF ~one THEN CoreErr(st)
            ELSE LET acc == Append(fr[3], vs[1])
                 IN IF fr[4] = <<>>
                    THEN IF fr[5] THEN LET r == AllocList(st.store, acc)
                                       IN Ret1(Pop([st EXCEPT !.store = r[1]]), r[2])
                         ELSE Ret1(Pop(st), VOIDV)
                    ELSE Ap(st, <<fr[2]>> \o Head(fr[4]), Push(<<"map", fr[2], acc, Tail(fr[4]), fr[5]>>, k))
       [] fr[1] = "handler" -> [st EXCEPT !.status = "resumed"]

---------------------------------------------------------------------------
(* Calling a procedure: st.vals = <<procedure, arguments...>> *)
AllInts(args) == \A i \in DOMAIN args : args[i][1] = "int"

AbsN(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE SumSeq(_, _), MulSeq(_, _)
SumSeq(args, i) == IF i > Len(args) THEN 0 ELSE args[i][2] + SumSeq(args, i + 1)
MulSeq(args, i) == IF i > Len(args) THEN 1
                   ELSE LET m == MulSeq(args, i + 1)
                            x == args[i][2]
                        IN IF x = 0 \/ m = 0 THEN 0
                           ELSE IF AbsN(m) > Limit \/ AbsN(x) > Limit THEN 2 * Limit
                           ELSE IF AbsN(m) > Limit \div AbsN(x) THEN 2 * Limit ELSE x * m

(* procedure arity of the primitives: <<least, greatest or -1>> *)
PrimArity(p) ==
  CASE p \in {"+", "*", "list", "vector", "string-append", "string", "values"} -> <<0, -1>>
    [] p = "void" -> <<0, 0>>
    [] p = "append" -> <<0, -1>>
    [] p \in {"-", "=", "<", ">", "<=", ">="} -> <<1, -1>>
    [] p \in {"cons", "set-car!", "set-cdr!", "eq?", "vector-ref", "set-box!", "string-ref", "vector-fill!", "modulo",
              "call-with-values"} -> <<2, 2>>
    [] p \in {"vector-set!", "string-set!"} -> <<3, 3>>
    [] p \in {"make-vector", "make-string"} -> <<1, 2>>
    [] p = "substring" -> <<2, 3>>
    [] p \in {"apply", "error", "map", "for-each"} -> <<2, -1>>
    [] p \in {"exit", "current-error-handler"} -> <<0, 1>>
    [] OTHER -> <<1, 1>>

Is(v, t) == v[1] = t
IsProc(v) == v[1] \in {"clo", "prim"}
Chr(s, i) == SubSeq(s, i, i)

(* text of a value inside an error message or shown by out *)
RECURSIVE Concat(_, _, _)
Concat(store, vs, i) == IF i > Len(vs) THEN "" ELSE store[vs[i][2]][2] \o Concat(store, vs, i + 1)

FreshStr(st, s) == LET q == Alloc(st, <<"str", s>>) IN Ret1(q, <<"str", Top(q)>>)
FreshVec(st, vs) == LET q == Alloc(st, <<"vec", vs>>) IN Ret1(q, <<"vec", Top(q)>>)
FreshList(st, vs) == LET r == AllocList(st.store, vs) IN Ret1([st EXCEPT !.store = r[1]], r[2])
Put(st, a, cell) == [st EXCEPT !.store = [@ EXCEPT ![a] = cell]]

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
RECURSIVE Cmp(_, _)
Cmp(op, args) ==
  \/ Len(args) = 1
  \/ /\ CASE op = "=" -> args[1][2] = args[2][2]
          [] op = "<" -> args[1][2] < args[2][2]
          [] op = ">" -> args[1][2] > args[2][2]
          [] op = "<=" -> args[1][2] <= args[2][2]
          [] op = ">=" -> args[1][2] >= args[2][2]
     /\ Cmp(op, Tail(args))

(* append of proper lists onto a last value: fresh structure for all but the last *)
RECURSIVE OnTo(_, _, _)
OnTo(store, vs, tail) ==
  IF vs = <<>> THEN <<store, tail>>
  ELSE LET r == OnTo(store, Tail(vs), tail)
           s == Append(r[1], <<"pair", Head(vs), r[2]>>)
       IN <<s, <<"pair", Len(s)>>>>
RECURSIVE AppendLists(_, _)
AppendLists(store, args) ==
  IF args = <<>> THEN <<store, NULLV>>
  ELSE IF Len(args) = 1 THEN <<store, args[1]>>
  ELSE LET r == AppendLists(store, Tail(args)) IN OnTo(r[1], ListVals(store, args[1], 200).vs, r[2])

Prim(st0, p, args) ==
  LET st == st0
      n == Len(args)
      k == st.kont
      a == IF n > 0 THEN args[1] ELSE VOIDV
      b == IF n > 1 THEN args[2] ELSE VOIDV
      S == st.store
      Bad == ArgExn(st, p, a)
      IsListV(v) == ListVals(S, v, 200).ok
  IN
  IF n < PrimArity(p)[1] \/ (PrimArity(p)[2] >= 0 /\ n > PrimArity(p)[2])
  THEN Exn(st, "arity", p, <<>>)
  ELSE
  CASE p = "out" -> Ret1([st EXCEPT !.out = Append(@, Show(S, a, 8))], a)
    [] p \in {"+", "*"} ->
         IF ~AllInts(args) THEN ArgExn(st, p, FirstBad(args, "int"))
         ELSE LET r == IF p = "+" THEN SumSeq(args, 1) ELSE MulSeq(args, 1)
              IN IF r > Limit \/ r < -Limit THEN Discard(st) ELSE Ret1(st, Num(r))
    [] p = "-" ->
         IF ~AllInts(args) THEN ArgExn(st, p, FirstBad(args, "int"))
         ELSE LET r == IF n = 1 THEN 0 - a[2] ELSE a[2] - SumSeq(args, 2)
              IN IF r > Limit \/ r < -Limit THEN Discard(st) ELSE Ret1(st, Num(r))
    [] p \in {"=", "<", ">", "<=", ">="} -> IF ~AllInts(args) THEN ArgExn(st, p, FirstBad(args, "int")) ELSE Ret1(st, Bool(Cmp(p, args)))
    [] p = "modulo" ->
         IF ~AllInts(args) THEN ArgExn(st, p, FirstBad(args, "int"))
         ELSE IF b[2] <= 0 THEN Discard(st) ELSE Ret1(st, Num(a[2] % b[2]))
    [] p = "cons" -> LET q == Alloc(st, <<"pair", a, b>>) IN Ret1(q, <<"pair", Top(q)>>)
    [] p = "car" -> IF Is(a, "pair") THEN Ret1(st, S[a[2]][2]) ELSE Bad
    [] p = "cdr" -> IF Is(a, "pair") THEN Ret1(st, S[a[2]][3]) ELSE Bad
    [] p = "set-car!" -> IF Is(a, "pair") THEN Ret1(Put(st, a[2], <<"pair", b, S[a[2]][3]>>), VOIDV) ELSE Bad
    [] p = "set-cdr!" -> IF Is(a, "pair") THEN Ret1(Put(st, a[2], <<"pair", S[a[2]][2], b>>), VOIDV) ELSE Bad
    [] p = "list" -> FreshList(st, args)
    [] p = "null?" -> Ret1(st, Bool(a = NULLV))
    [] p = "pair?" -> Ret1(st, Bool(Is(a, "pair")))
    [] p = "list?" -> Ret1(st, Bool(IsListV(a)))
    [] p = "not" -> Ret1(st, Bool(a = FALSEV))
    [] p = "eq?" -> Ret1(st, Bool(a = b))
    [] p = "procedure?" -> Ret1(st, Bool(IsProc(a)))
    [] p = "integer?" -> Ret1(st, Bool(Is(a, "int")))
    [] p = "void?" -> Ret1(st, Bool(Is(a, "void")))
    [] p = "symbol?" -> Ret1(st, Bool(Is(a, "sym")))
    [] p = "boolean?" -> Ret1(st, Bool(Is(a, "bool")))
    [] p = "char?" -> Ret1(st, Bool(Is(a, "char")))
    [] p = "string?" -> Ret1(st, Bool(Is(a, "str")))
    [] p = "vector?" -> Ret1(st, Bool(Is(a, "vec")))
    [] p = "box?" -> Ret1(st, Bool(Is(a, "box")))
    [] p = "void" -> Ret1(st, VOIDV)
    [] p = "vector" -> FreshVec(st, args)
    [] p = "make-vector" ->
         IF ~Is(a, "int") \/ (Is(a, "int") /\ a[2] < 0) THEN Bad
         ELSE IF a[2] > 50 THEN Discard(st)
         ELSE FreshVec(st, [i \in 1..a[2] |-> IF n = 2 THEN b ELSE Num(0)])
    [] p = "vector-length" -> IF Is(a, "vec") THEN Ret1(st, Num(Len(S[a[2]][2]))) ELSE Bad
    [] p \in {"vector-ref", "vector-set!"} ->
         IF ~Is(a, "vec") THEN Bad
         ELSE IF ~Is(b, "int") \/ (Is(b, "int") /\ b[2] < 0) THEN ArgExn(st, p, b)
         ELSE IF b[2] >= Len(S[a[2]][2]) THEN Exn(st, "range", p, <<b, a>>)
         ELSE IF p = "vector-ref" THEN Ret1(st, S[a[2]][2][b[2] + 1])
         ELSE Ret1(Put(st, a[2], <<"vec", [S[a[2]][2] EXCEPT ![b[2] + 1] = args[3]]>>), VOIDV)
    [] p = "vector-fill!" ->
         IF ~Is(a, "vec") THEN Bad
         ELSE Ret1(Put(st, a[2], <<"vec", [i \in DOMAIN S[a[2]][2] |-> b]>>), VOIDV)
    [] p = "vector->list" -> IF Is(a, "vec") THEN FreshList(st, S[a[2]][2]) ELSE Bad
    [] p = "list->vector" -> IF IsListV(a) THEN FreshVec(st, ListVals(S, a, 200).vs) ELSE Bad
    [] p = "box" -> LET q == Alloc(st, <<"box", a>>) IN Ret1(q, <<"box", Top(q)>>)
    [] p = "unbox" -> IF Is(a, "box") THEN Ret1(st, S[a[2]][2]) ELSE Bad
    [] p = "set-box!" -> IF Is(a, "box") THEN Ret1(Put(st, a[2], <<"box", b>>), VOIDV) ELSE Bad
    [] p = "length" -> IF IsListV(a) THEN Ret1(st, Num(Len(ListVals(S, a, 200).vs))) ELSE Bad
    [] p = "reverse" -> IF IsListV(a) THEN FreshList(st, Rev(ListVals(S, a, 200).vs)) ELSE Bad
    [] p = "append" ->
         LET wrong == {i \in 1..n : ~IsListV(args[i])}
         IN IF wrong # {} THEN ArgExn(st, p, args[CHOOSE i \in wrong : \A j \in wrong : i <= j])
            ELSE LET r == AppendLists(S, args) IN Ret1([st EXCEPT !.store = r[1]], r[2])
    [] p \in {"string-ref", "string-set!"} ->
         IF ~Is(a, "str") THEN Bad
         ELSE IF ~Is(b, "int") \/ (Is(b, "int") /\ b[2] < 0) THEN ArgExn(st, p, b)
         ELSE IF b[2] >= Len(S[a[2]][2]) THEN Exn(st, "range", p, <<b, a>>)
         ELSE IF p = "string-ref" THEN Ret1(st, <<"char", Chr(S[a[2]][2], b[2] + 1)>>)
         ELSE IF ~Is(args[3], "char") THEN ArgExn(st, p, args[3])
         ELSE Ret1(Put(st, a[2], <<"str", SubSeq(S[a[2]][2], 1, b[2]) \o args[3][2]
                                           \o SubSeq(S[a[2]][2], b[2] + 2, Len(S[a[2]][2]))>>), VOIDV)
    [] p = "string-length" -> IF Is(a, "str") THEN Ret1(st, Num(Len(S[a[2]][2]))) ELSE Bad
    [] p = "make-string" ->
         IF ~Is(a, "int") \/ (Is(a, "int") /\ a[2] < 0) THEN Bad
         ELSE IF n = 1 \/ a[2] > 50 THEN Discard(st)
         ELSE IF ~Is(b, "char") THEN ArgExn(st, p, b)
         ELSE FreshStr(st, Rep(b[2], a[2]))
    [] p = "string" ->
         IF \E i \in 1..n : ~Is(args[i], "char") THEN ArgExn(st, p, FirstBad(args, "char"))
         ELSE FreshStr(st, LET RECURSIVE F(_) F(i) == IF i > n THEN "" ELSE args[i][2] \o F(i + 1) IN F(1))
    [] p = "string-append" ->
         IF \E i \in 1..n : ~Is(args[i], "str") THEN ArgExn(st, p, FirstBad(args, "str")) ELSE FreshStr(st, Concat(S, args, 1))
    [] p = "apply" ->
         LET l == ListVals(S, args[n], 200)
         IN IF ~IsProc(a) \/ ~l.ok THEN CoreErr(st)
            ELSE Ap(st, SubSeq(args, 1, n - 1) \o l.vs, k)
    [] p = "values" -> Ret(st, args)
    [] p = "call-with-values" -> Ap(st, <<a>>, Push(<<"cwvf", b>>, k))
    [] p \in {"map", "for-each"} ->
         LET ls == [i \in 1..(n - 1) |-> ListVals(S, args[i + 1], 200)]
             len == IF ls[1].ok THEN Len(ls[1].vs) ELSE 0
             rows == [j \in 1..len |-> [i \in 1..(n - 1) |-> ls[i].vs[j]]]
         IN IF ~IsProc(a) THEN Bad
            ELSE IF \E i \in 1..(n - 1) : ~ls[i].ok
                 THEN ArgExn(st, p, LET w == {i \in 1..(n - 1) : ~ls[i].ok} IN args[1 + (CHOOSE i \in w : \A j \in w : i <= j)])
            ELSE IF \E i \in 1..(n - 1) : Len(ls[i].vs) # len THEN Exn(st, "core", p, <<>>)
            ELSE IF len = 0 THEN Ret1(st, IF p = "map" THEN NULLV ELSE VOIDV)
            ELSE Ap(st, <<a>> \o rows[1], Push(<<"map", a, <<>>, Tail(rows), p = "map">>, k))
    [] p = "raise" -> Raise(st, a)
    [] p = "error" ->
         IF ~Is(a, "sym") /\ a # FALSEV THEN ArgExn(st, p, a)
         ELSE IF ~Is(b, "str") THEN ArgExn(st, p, b)
         ELSE Exn(st, "plain", IF a = FALSEV THEN "" ELSE a[2], <<b>>)
    [] p = "exit" ->
         IF n = 0 THEN [st EXCEPT !.status = "exit", !.code = 0]
         ELSE IF ~Is(a, "int") \/ (Is(a, "int") /\ (a[2] < 0 \/ a[2] > 255)) THEN Bad
         ELSE [st EXCEPT !.status = "exit", !.code = a[2]]
    [] p = "current-error-handler" ->
         IF n = 0 THEN Ret1(st, st.handler)
         ELSE IF ~IsProc(a) THEN Bad
         ELSE Ret1([st EXCEPT !.handler = a], VOIDV)
    [] p = "default-error-handler" -> [st EXCEPT !.status = "error", !.exn = a]
    [] p = "missing-exn?" -> Ret1(st, FALSEV)
    [] p = "exn-message" ->
         IF ~Is(a, "exn") THEN Bad
         ELSE IF a[2] = "plain" THEN FreshStr(st, Concat(S, a[4], 1)) ELSE Discard(st)
    [] p = "argument-exn-actual" -> IF Is(a, "exn") /\ a[2] = "argument" THEN Ret1(st, a[4][1]) ELSE Bad
    [] p = "range-exn-index" -> IF Is(a, "exn") /\ a[2] = "range" THEN Ret1(st, a[4][1]) ELSE Bad
    [] p = "range-exn-value" -> IF Is(a, "exn") /\ a[2] = "range" THEN Ret1(st, a[4][2]) ELSE Bad
    [] p = "exn?" -> Ret1(st, Bool(Is(a, "exn")))
    [] p = "argument-exn?" -> Ret1(st, Bool(Is(a, "exn") /\ a[2] = "argument"))
    [] p = "arity-exn?" -> Ret1(st, Bool(Is(a, "exn") /\ a[2] = "arity"))
    [] p = "range-exn?" -> Ret1(st, Bool(Is(a, "exn") /\ a[2] = "range"))
    [] p = "exn-who" -> IF Is(a, "exn") THEN Ret1(st, IF a[3] = "" THEN FALSEV ELSE <<"sym", a[3]>>) ELSE Bad
    [] OTHER -> Discard(st)

(* the first clause accepting n arguments, 0 if none *)
Accepts(cl, n) == IF cl[2] = "" THEN Len(cl[1]) = n ELSE n >= Len(cl[1])
ClauseFor(cls, n) ==
  LET ok == {i \in DOMAIN cls : Accepts(cls[i], n)}
  IN IF ok = {} THEN 0 ELSE CHOOSE i \in ok : \A j \in ok : i <= j

StepAp(st) ==
  LET f == st.vals[1]
      args == Tail(st.vals)
      k == st.kont
  IN CASE f[1] = "clo" ->
            LET clo == st.store[f[2]]
                i == ClauseFor(clo[2], Len(args))
            IN IF i = 0 THEN CoreErr(st)
               ELSE LET cl == clo[2][i]
                        m == Len(cl[1])
                        b == BindAll(st.store, clo[3], cl[1], SubSeq(args, 1, m))
                        r == AllocList(b[1], SubSeq(args, m + 1, Len(args)))
                        s == Append(r[1], <<"var", r[2]>>)
                    IN IF cl[2] = "" THEN Ev([st EXCEPT !.store = b[1]], BodyOf(cl[3]), b[2], k)
                       ELSE Ev([st EXCEPT !.store = s], BodyOf(cl[3]), (cl[2] :> Len(s)) @@ b[2], k)
       [] f[1] = "prim" -> Prim(st, f[2], args)
       [] OTHER -> CoreErr(st)

---------------------------------------------------------------------------
StepNext(st) ==
  IF st.todo = <<>> THEN [st EXCEPT !.status = "done"]
  ELSE Ev([st EXCEPT !.todo = Tail(@)], Head(st.todo), <<>>, Done)

Step(st) ==
  LET s == [st EXCEPT !.steps = @ + 1]
  IN CASE st.mode = "ev" -> StepEv(s)
       [] st.mode = "ret" -> StepRet(s)
       [] st.mode = "ap" -> StepAp(s)
       [] st.mode = "next" -> StepNext(s)

RECURSIVE Run(_, _)
Run(st, n) == IF n = 0 \/ st.status # "run" THEN st ELSE Run(Step(st), n - 1)

(* Loading: literals of the program become objects of the initial store.      *)
(* A program is [lits |-> data, forms |-> top-level forms]; <<"lit",i>> in the *)
(* forms stands for the i-th literal.                                          *)
(* Fragments of the message the default handler writes to standard error *)
Message(st) ==
  LET v == st.exn
      sh(x) == IF x[1] \in {"int", "bool", "null", "sym"} THEN Show(st.store, x, 2) ELSE ""
  IN IF st.status # "error" THEN <<>>
     ELSE IF v[1] # "exn" THEN <<"uncaught exception: " \o sh(v)>>
     ELSE CASE v[2] = "plain" -> <<(IF v[3] = "" THEN "error" ELSE v[3]) \o ": " \o Concat(st.store, v[4], 1)>>
            [] v[2] = "argument" -> <<v[3] \o ": contract violation", "  given: " \o sh(v[4][1])>>
            [] v[2] = "range" -> <<v[3] \o ": ", "index: " \o sh(v[4][1])>>
            [] OTHER -> <<>>

RECURSIVE Depth(_)
Depth(k) == IF k = Done THEN 0 ELSE 1 + Depth(k[2])

Load(p) ==
  LET r == AllocData(<<>>, p.lits)
      RECURSIVE D(_, _)
      D(s, i) == IF i > Len(r[2]) THEN s
                 ELSE D([s EXCEPT !.store = Append(@, <<"var", r[2][i]>>),
                                  !.glob = (("lit:" \o ToString(i)) :> (Len(s.store) + 1)) @@ @], i + 1)
  IN D([Init0 EXCEPT !.store = r[1], !.todo = p.forms], 1)
=============================================================================
