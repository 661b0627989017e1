------------------------------- MODULE Grammar -------------------------------
(* The grammar of the derived forms over data: <<"s", name>> symbol, <<"a", t>>  *)
(* another atom written t, <<"l", seq>> list, <<"d", seq, tail>> improper list.  *)
(* Class(d) of an expression: "ok", "bad" (some form in it is malformed: the     *)
(* program is rejected before anything is evaluated), "open" (not specified:     *)
(* repeated formals, definitions out of place, literals or unquoted data).       *)
EXTENDS Script
Sym(d) == d[1] = "s"
IsSym(d, n) == d[1] = "s" /\ d[2] = n
List(d) == d[1] = "l"
N(d) == Len(d[2])
At(d, i) == d[2][i]
From(d, i) == SubSeq(d[2], i, Len(d[2]))
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "open" \in S THEN "open" ELSE "ok"
Keywords == {"let", "let*", "letrec", "cond", "case", "and", "or", "when", "unless", "do", "define", "lambda", "if", "set!", "quote", "begin", "else"}
Dup(xs) == \E i, j \in DOMAIN xs : i # j /\ xs[i] = xs[j]

RECURSIVE Class(_), BodyC(_), Each(_)
Each(xs) == Worst({Class(xs[i]) : i \in DOMAIN xs})

DefC(d) ==      \* (define x e), (define (f x ...) body ...)
  IF ~List(d) \/ N(d) < 3 THEN "bad"
  ELSE IF Sym(At(d, 2)) THEN (IF N(d) # 3 THEN "bad" ELSE IF At(d, 2)[2] \in Keywords THEN "open" ELSE Class(At(d, 3)))
  ELSE IF At(d, 2)[1] = "a" \/ (List(At(d, 2)) /\ N(At(d, 2)) = 0) THEN "bad"
  ELSE IF At(d, 2)[1] = "d" THEN "open"
  ELSE IF ~(\A i \in DOMAIN At(d, 2)[2] : Sym(At(At(d, 2), i))) THEN "open"
  ELSE IF Dup(From(At(d, 2), 2)) THEN "open"
  ELSE Worst({BodyC(From(d, 3))})
IsDef(d) == d[1] \in {"l", "d"} /\ d[2] # <<>> /\ IsSym(d[2][1], "define")
BodyC(xs) ==
  IF xs = <<>> THEN "bad"
  ELSE IF IsDef(xs[Len(xs)]) THEN "bad"
  ELSE IF Dup(SelectSeq([i \in DOMAIN xs |-> IF IsDef(xs[i]) /\ Len(xs[i][2]) > 1 THEN xs[i][2][2] ELSE <<"", i>>], LAMBDA x : x[1] = "s")) THEN "open"
  ELSE Worst({IF IsDef(xs[i]) THEN DefC(xs[i]) ELSE Class(xs[i]) : i \in DOMAIN xs})
(* bindings of n parts *)
BindC(d, n, dups) ==
  IF ~List(d) THEN "bad"
  ELSE IF \E i \in DOMAIN d[2] : ~(List(At(d, i)) /\ N(At(d, i)) = n /\ Sym(At(At(d, i), 1))) THEN "bad"
  ELSE Worst({Each(From(At(d, i), 2)) : i \in DOMAIN d[2]}
             \cup {IF Dup([i \in DOMAIN d[2] |-> At(At(d, i), 1)]) THEN dups ELSE "ok"})
ClauseBody(xs) == IF xs = <<>> THEN "bad" ELSE IF Len(xs) = 1 /\ IsDef(xs[1]) THEN "open" ELSE BodyC(xs)

Class(d) ==
  IF Sym(d) THEN (IF d[2] \in Keywords \ {"lambda", "if", "set!", "quote", "begin"} THEN "bad" ELSE IF d[2] \in Keywords THEN "open" ELSE "ok")
  ELSE IF d[1] = "a" THEN "ok"
  ELSE IF d[2] = <<>> THEN "open"
  ELSE LET h == d[2][1]
           k == IF Sym(h) THEN h[2] ELSE ""
           n == Len(d[2])
       IN IF k \in Keywords /\ d[1] = "d" THEN "bad"
          ELSE CASE k \in {"let", "let*", "letrec"} ->
                      IF n < 3 THEN "bad"
                      ELSE IF k = "let" /\ Sym(d[2][2])
                           THEN (IF n < 4 THEN "bad" ELSE Worst({BindC(d[2][3], 2, "open"), BodyC(From(d, 4))}))
                      ELSE Worst({BindC(d[2][2], 2, IF k = "let*" THEN "ok" ELSE "bad"), BodyC(From(d, 3))})
                 [] k = "cond" -> Worst({LET c == d[2][i] IN
                                         IF ~List(c) \/ N(c) < 2 THEN "bad"
                                         ELSE IF IsSym(At(c, 1), "else") THEN (IF i < n THEN "bad" ELSE ClauseBody(From(c, 2)))
                                         ELSE Worst({Class(At(c, 1)), ClauseBody(From(c, 2))}) : i \in 2..n})
                 [] k = "case" -> IF n < 2 THEN "bad"
                                  ELSE Worst({Class(d[2][2])} \cup
                                        {LET c == d[2][i] IN
                                         IF ~List(c) \/ N(c) < 2 THEN "bad"
                                         ELSE IF IsSym(At(c, 1), "else") THEN (IF i < n THEN "bad" ELSE ClauseBody(From(c, 2)))
                                         ELSE IF ~List(At(c, 1)) THEN "bad" ELSE ClauseBody(From(c, 2)) : i \in 3..n})
                 [] k \in {"and", "or"} -> Each(From(d, 2))
                 [] k \in {"when", "unless"} -> IF n < 3 THEN "bad" ELSE Worst({Class(d[2][2]), ClauseBody(From(d, 3))})
                 [] k = "do" -> IF n < 3 THEN "bad"
                                ELSE IF ~List(d[2][3]) \/ N(d[2][3]) < 1 THEN "bad"
                                ELSE Worst({BindC(d[2][2], 3, "open"), Each(d[2][3][2]), Each(From(d, 4))})
                 [] k = "define" -> "open"
                 [] k = "lambda" -> IF n < 3 THEN "bad"
                                    ELSE IF ~List(d[2][2]) \/ \E i \in DOMAIN d[2][2][2] : ~Sym(At(d[2][2], i)) THEN "open"
                                    ELSE IF Dup(d[2][2][2]) THEN "open" ELSE BodyC(From(d, 3))
                 [] k = "if" -> IF n # 4 THEN "bad" ELSE Each(From(d, 2))
                 [] k = "set!" -> IF n # 3 \/ ~Sym(d[2][2]) THEN "bad" ELSE IF d[2][2][2] \in Keywords THEN "open" ELSE Class(d[2][3])
                 [] k = "quote" -> IF n = 2 THEN "ok" ELSE "bad"
                 [] k = "begin" -> Each(From(d, 2))
                 [] k = "else" -> "bad"
                 [] OTHER -> IF d[1] = "d" THEN "open" ELSE Each(d[2])
GStart(s) == [n |-> 0]
GStep(s, op) == <<s, <<IF IsDef(op.d) THEN DefC(op.d) ELSE Class(op.d)>>>>
===============================================================================
