-------------------------------- MODULE Modules --------------------------------
(* Loading a program of modules.  A module is a sequence of items                    *)
(*   <<"import", j>>  <<"export", name>>  <<"all", j>>                               *)
(*   <<"cell", name>>      a function that counts its calls (state of the instance)  *)
(*   <<"val", name, e>>  <<"fun", name, e>>  <<"show", label, e>>                    *)
(*   <<"mac", name, k>>          (name a) => (+ k a)                                 *)
(*   <<"via", name, k, m>>       (name a) => (m (+ k a)), m a macro of its module    *)
(*   <<"ct", name, f>>           (name a) => (+ n a), n the result of calling f      *)
(*                               when the use is expanded                            *)
(* and an expression is <<"n", k>> <<"v", name>> <<"call", name>>                    *)
(* <<"use", macro, e>> <<"add", e, e>>.  Definitions have different names.           *)
(* Module 1 is the program.  missing: modules without a file.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Scripts
VARIABLES sid, prog,   \* the program
          stack,   \* modules being loaded, each [m, phase, pos]
          done,    \* modules whose exports are known
          exps,    \* their exports
          runs,    \* how often the body of each module was started
          code,    \* expanded bodies
          cnt,     \* calls of each counting function
          vals,    \* values of the variables
          log, status
vars == <<sid, prog, stack, done, exps, runs, code, cnt, vals, log, status>>
S == prog
Mods == DOMAIN S.mods
Items(m) == S.mods[m]
Range(xs) == {xs[i] : i \in DOMAIN xs}
Kind(m, k) == {x \in Range(Items(m)) : x[1] = k}
Imports(m) == LET q == SelectSeq(Items(m), LAMBDA x : x[1] = "import") IN [i \in DOMAIN q |-> q[i][2]]
Defs == {"cell", "val", "fun", "mac", "via", "ct"}
Own(m) == {x[2] : x \in {y \in Range(Items(m)) : y[1] \in Defs}}
Visible(m) == Own(m) \cup UNION {exps[j] : j \in Range(Imports(m))}
Home(x) == CHOOSE m \in Mods : x \in Own(m)
Def(x) == CHOOSE y \in Range(Items(Home(x))) : y[1] \in Defs /\ y[2] = x

RECURSIVE Names(_)
Names(e) == CASE e[1] = "n" -> {} [] e[1] \in {"v", "call"} -> {e[2]}
              [] e[1] = "use" -> {e[2]} \cup Names(e[3]) [] e[1] = "add" -> Names(e[2]) \cup Names(e[3])
Used(m) == UNION {Names(x[3]) : x \in Kind(m, "show") \cup Kind(m, "val") \cup Kind(m, "fun")}
Exports(m) == {x[2] : x \in Kind(m, "export")} \cup UNION {exps[x[2]] : x \in Kind(m, "all")}

(* expansion: <<expression, cnt>> *)
RECURSIVE Expand(_, _)
Expand(e, c) ==
  CASE e[1] = "use" ->
         LET d == Def(e[2])
         IN IF d[1] = "mac" THEN Expand(<<"add", <<"n", d[3]>>, e[3]>>, c)
            ELSE IF d[1] = "via" THEN Expand(<<"use", d[4], <<"add", <<"n", d[3]>>, e[3]>>>>, c)
            ELSE Expand(<<"add", <<"n", c[d[3]] + 1>>, e[3]>>, [c EXCEPT ![d[3]] = @ + 1])
    [] e[1] = "add" -> LET a == Expand(e[2], c)
                           b == Expand(e[3], a[2]) IN <<<<"add", a[1], b[1]>>, b[2]>>
    [] OTHER -> <<e, c>>
RECURSIVE ExpandAll(_, _, _, _)
ExpandAll(m, i, c, acc) ==
  IF i > Len(Items(m)) THEN <<acc, c>>
  ELSE LET x == Items(m)[i]
       IN IF x[1] \in {"show", "val", "fun"}
          THEN LET r == Expand(x[3], c) IN ExpandAll(m, i + 1, r[2], Append(acc, <<x[1], x[2], r[1]>>))
          ELSE ExpandAll(m, i + 1, c, acc)
(* evaluation: <<value, cnt>> *)
Code(x) == LET m == Home(x) IN (CHOOSE y \in Range(code[m]) : y[1] = "fun" /\ y[2] = x)[3]
RECURSIVE Eval(_, _)
Eval(e, c) ==
  CASE e[1] = "n" -> <<e[2], c>>
    [] e[1] = "v" -> <<vals[e[2]], c>>
    [] e[1] = "call" -> IF Def(e[2])[1] = "cell" THEN <<c[e[2]] + 1, [c EXCEPT ![e[2]] = @ + 1]>> ELSE Eval(Code(e[2]), c)
    [] e[1] = "add" -> LET a == Eval(e[2], c)
                           b == Eval(e[3], a[2]) IN <<a[1] + b[1], b[2]>>

Cells == UNION {{x[2] : x \in Kind(m, "cell")} : m \in Mods}
Init == /\ \E sc \in {Scripts} : sid \in DOMAIN sc /\ prog = sc[sid]
        /\ stack = <<[m |-> 1, phase |-> "import", pos |-> 1]>>
        /\ done = {} /\ exps = [m \in Mods |-> {}] /\ runs = [m \in Mods |-> 0] /\ code = [m \in Mods |-> <<>>]
        /\ cnt = [x \in Cells |-> 0]
        /\ vals = [x \in UNION {{y[2] : y \in Kind(m, "val")} : m \in Mods} |-> 0]
        /\ log = <<>> /\ status = "loading"
Top == stack[Len(stack)]
Replace(f) == [stack EXCEPT ![Len(stack)] = f]
Failed(how) == status' = how /\ stack' = <<>>
Import ==
  /\ stack # <<>> /\ Top.phase = "import"
  /\ LET q == Imports(Top.m)
     IN IF Top.pos > Len(q)
        THEN stack' = Replace([Top EXCEPT !.phase = "check"]) /\ UNCHANGED status
        ELSE IF q[Top.pos] \in done
             THEN stack' = Replace([Top EXCEPT !.pos = @ + 1]) /\ UNCHANGED status
             ELSE IF q[Top.pos] \in Range(S.missing) THEN Failed("error")
             ELSE stack' = Append(stack, [m |-> q[Top.pos], phase |-> "import", pos |-> 1]) /\ UNCHANGED status
  /\ UNCHANGED <<sid, prog, done, exps, runs, code, cnt, vals, log>>
Check ==          \* before the body runs: only names that are seen are used
  /\ stack # <<>> /\ Top.phase = "check"
  /\ IF \/ ~(Used(Top.m) \subseteq Visible(Top.m))
        \/ \E x \in Kind(Top.m, "all") : x[2] \notin Range(Imports(Top.m))
     THEN Failed("error") /\ UNCHANGED <<code, cnt, runs>>
     ELSE LET r == ExpandAll(Top.m, 1, cnt, <<>>)
          IN /\ code' = [code EXCEPT ![Top.m] = r[1]] /\ cnt' = r[2]
             /\ runs' = [runs EXCEPT ![Top.m] = @ + 1]
             /\ stack' = Replace([Top EXCEPT !.phase = "run", !.pos = 1]) /\ UNCHANGED status
  /\ UNCHANGED <<sid, prog, done, exps, vals, log>>
Run ==
  /\ stack # <<>> /\ Top.phase = "run" /\ Top.pos <= Len(code[Top.m])
  /\ LET x == code[Top.m][Top.pos]
         r == Eval(x[3], cnt)
     IN IF x[1] = "fun" THEN UNCHANGED <<cnt, vals, log>>
        ELSE /\ cnt' = r[2]
             /\ IF x[1] = "val" THEN vals' = [vals EXCEPT ![x[2]] = r[1]] /\ UNCHANGED log
                ELSE log' = Append(log, <<x[2], r[1]>>) /\ UNCHANGED vals
  /\ stack' = Replace([Top EXCEPT !.pos = @ + 1])
  /\ UNCHANGED <<sid, prog, done, exps, runs, code, status>>
Finish ==
  /\ stack # <<>> /\ Top.phase = "run" /\ Top.pos > Len(code[Top.m])
  /\ IF Exports(Top.m) \subseteq Visible(Top.m)
     THEN /\ done' = done \cup {Top.m} /\ exps' = [exps EXCEPT ![Top.m] = Exports(Top.m)]
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ status' = IF Len(stack) = 1 THEN "done" ELSE status
     ELSE Failed("late") /\ UNCHANGED <<done, exps>>      \* an export of nothing: the module is rejected
  /\ UNCHANGED <<sid, prog, runs, code, cnt, vals, log>>
Next == Import \/ Check \/ Run \/ Finish

----------------------------------------------------------------------------
RECURSIVE Reach(_)
Reach(m) == {m} \cup UNION {Reach(j) : j \in Range(Imports(m))}
Once == \A m \in Mods : runs[m] <= 1
DepsFirst == \A i \in DOMAIN stack : stack[i].phase = "run" => (Reach(stack[i].m) \ {stack[i].m}) \subseteq done
Acyclic == \A i, j \in DOMAIN stack : i # j => stack[i].m # stack[j].m
Hidden == \A m \in done : exps[m] \subseteq Visible(m)
Complete == status = "done" => done = Reach(1) /\ \A m \in Mods : runs[m] = (IF m \in Reach(1) THEN 1 ELSE 0)
Ends == status = "loading" <=> stack # <<>>
=============================================================================
