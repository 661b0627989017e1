------------------------------- MODULE Promises -------------------------------
(* Promises have a body: a sequence of acts and an end.  The body writes that   *)
(* it starts, then what its acts find.  pr[i]: forced, the value, how often the *)
(* body was started.                                                            *)
(* Acts: <<"force", j>>, <<"lazy", j>>, <<"forced", j>>, <<"again", j, n>> force *)
(* j if this body has been started less than n times, <<"say", k>>.             *)
(* Ends: <<"const", k>>, <<"count">> the number of starts, <<"run">>  *)
(* the number of this start, <<"promise", j>>,                                  *)
(* <<"force", j>> the value of j, <<"raise", k>>.                               *)
(* Values: <<"c", k>>, <<"r", i, n>>, <<"p", j>>.  An evaluation returns        *)
(* [s, log, ok, v]; raised objects are values too.                              *)
EXTENDS Script
PStart(s) == [bodies |-> s.bodies, pr |-> [i \in DOMAIN s.bodies |-> [forced |-> FALSE, val |-> <<"none">>, starts |-> 0]]]
Done(s, log, v) == [s |-> s, log |-> log, ok |-> TRUE, v |-> v]
Raised(s, log, v) == [s |-> s, log |-> log, ok |-> FALSE, v |-> v]
Bit(b) == <<"b", IF b THEN 1 ELSE 0>>

RECURSIVE Force(_, _), Lazy(_, _), Acts(_, _, _, _), Ending(_, _, _, _)
(* the first value that a promise gets is the one it keeps *)
Force(s, i) ==
  IF s.pr[i].forced THEN Done(s, <<>>, s.pr[i].val)
  ELSE LET s1 == TLCEval([s EXCEPT !.pr[i].starts = @ + 1])
           a == TLCEval(Acts(s1, i, s.bodies[i].acts, <<<<"start", i>>>>))
           b == TLCEval(IF a.ok THEN Ending(a.s, i, s.bodies[i].end, s1.pr[i].starts) ELSE a)
           log == IF a.ok THEN a.log \o b.log ELSE a.log
       IN IF ~b.ok THEN Raised(b.s, log, b.v)
          ELSE IF b.s.pr[i].forced THEN Done(b.s, log, b.s.pr[i].val)
          ELSE Done([b.s EXCEPT !.pr[i].forced = TRUE, !.pr[i].val = b.v], log, b.v)
Lazy(s, i) ==
  LET f == TLCEval(Force(s, i)) IN
  IF f.ok /\ f.v[1] = "p" THEN LET g == TLCEval(Lazy(f.s, f.v[2])) IN [g EXCEPT !.log = f.log \o @]
  ELSE f
Acts(s, i, as, log) ==
  IF as = <<>> THEN Done(s, log, <<"none">>)
  ELSE LET a == Head(as)
           k == a[1]
           go == k # "again" \/ s.pr[i].starts < a[3]
           f == TLCEval(IF ~go THEN Done(s, <<>>, <<"none">>)
                ELSE IF k \in {"force", "again"} THEN Force(s, a[2])
                ELSE IF k = "lazy" THEN Lazy(s, a[2])
                ELSE IF k = "forced" THEN Done(s, <<>>, Bit(s.pr[a[2]].forced))
                ELSE Done(s, <<>>, <<"c", a[2]>>))
       IN IF ~f.ok THEN Raised(f.s, log \o f.log, f.v)
          ELSE Acts(f.s, i, Tail(as), log \o f.log \o (IF go THEN <<<<"got", f.v>>>> ELSE <<>>))
Ending(s, i, e, run) ==
  LET k == e[1] IN
  CASE k = "const" -> Done(s, <<>>, <<"c", e[2]>>)
    [] k = "count" -> Done(s, <<>>, <<"r", i, s.pr[i].starts>>)
    [] k = "run" -> Done(s, <<>>, <<"r", i, run>>)
    [] k = "promise" -> Done(s, <<>>, <<"p", e[2]>>)
    [] k = "force" -> Force(s, e[2])
    [] k = "raise" -> Raised(s, <<>>, <<"c", e[2]>>)

PStep(s, op) ==
  LET o == op.op
      f == TLCEval(IF o = "force" THEN Force(s, op.p)
           ELSE IF o = "lazy" THEN Lazy(s, op.p)
           ELSE IF o = "forced" THEN Done(s, <<>>, Bit(s.pr[op.p].forced))
           ELSE \* two forces give one object
                LET a == TLCEval(Force(s, op.p)) IN
                IF ~a.ok THEN a
                ELSE LET b == Force(a.s, op.p) IN Done(b.s, a.log \o b.log, Bit(a.v = b.v)))
  IN <<f.s, <<IF f.ok THEN "ok" ELSE "caught", f.log, f.v>>>>

(* a promise that has a value was started, and an operation that ends leaves no value unforced *)
PromisesOK == \A i \in DOMAIN st.pr : /\ st.pr[i].forced => st.pr[i].starts > 0 /\ st.pr[i].val # <<"none">>
                                      /\ ~st.pr[i].forced => st.pr[i].val = <<"none">>
(* once forced, a promise keeps its value and is not started again *)
Kept == [][\A i \in DOMAIN st.pr : st.pr[i].forced => st'.pr[i] = st.pr[i]]_svars
===============================================================================
