------------------------------ MODULE CommandLine ------------------------------
(* The minim executable: its argument vector, the file it evaluates, and the   *)
(* prompt.  An argument is [c, t]: its class (i, q, nolibs, end, bad: options; *)
(* word: anything that is no option) and text.  files: text -> forms.          *)
(* The result of a run is its output, in pieces, and its exit status.          *)
EXTENDS Script
LStart(s) == s.files

(* options end at the first word or after -- *)
RECURSIVE Options(_, _, _)
Options(v, i, o) ==
  IF i > Len(v) THEN [o EXCEPT !.rest = i]
  ELSE CASE v[i].c = "word" -> [o EXCEPT !.rest = i]
         [] v[i].c = "end" -> [o EXCEPT !.rest = i + 1]
         [] v[i].c = "i" -> Options(v, i + 1, [o EXCEPT !.i = TRUE])
         [] v[i].c = "q" -> Options(v, i + 1, [o EXCEPT !.q = TRUE])
         [] v[i].c = "nolibs" -> Options(v, i + 1, [o EXCEPT !.libs = FALSE])
         [] v[i].c = "bad" -> [o EXCEPT !.bad = TRUE]
Parse(v) == Options(v, 1, [i |-> FALSE, q |-> FALSE, libs |-> TRUE, bad |-> FALSE, rest |-> 0])

(* evaluation: e is [out, env, status]; status "" while it goes on *)
Put(e, t) == [e EXCEPT !.out = Append(@, t)]
Stop(e, code) == [e EXCEPT !.status = code]
Bind(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
RECURSIVE Lines(_, _)
Lines(e, ts) == IF ts = <<>> THEN e ELSE Lines(Put(Put(e, ts[1]), "\n"), Tail(ts))
RECURSIVE Args(_, _)
Args(e, v) == IF v = <<>> THEN e ELSE Args(Put(Put(Put(e, ToString(v[1].n)), ":"), v[1].t \o "\n"), Tail(v))

(* prompt: whether values are printed; of a sequence only those of the last form are *)
RECURSIVE Form(_, _, _, _)
RECURSIVE Parts(_, _, _, _)
Parts(e, fs, argv, prompt) ==
  IF fs = <<>> \/ e.status # "" THEN e ELSE Parts(Form(e, fs[1], argv, prompt /\ Len(fs) = 1), Tail(fs), argv, prompt)
Form(e, f, argv, prompt) ==
  CASE f.k = "out" -> Put(e, f.t)
    [] f.k = "def" -> [e EXCEPT !.env = Bind(@, f.x, f.v)]
    [] f.k = "show" -> IF f.x \in DOMAIN e.env THEN Lines(e, <<ToString(e.env[f.x])>>) ELSE Stop(e, "error")
    [] f.k = "ref" -> IF f.x \in DOMAIN e.env THEN (IF prompt THEN Lines(e, <<ToString(e.env[f.x])>>) ELSE e) ELSE Stop(e, "error")
    [] f.k = "set" -> IF f.x \in DOMAIN e.env THEN [e EXCEPT !.env[f.x] = f.v] ELSE Stop(e, "error")
    [] f.k = "call" -> IF f.x \in DOMAIN e.env THEN (IF prompt THEN Lines(e, <<ToString(e.env[f.x] + f.v)>>) ELSE e) ELSE Stop(e, "error")
    [] f.k = "vals" -> IF prompt THEN Lines(e, f.ts) ELSE e
    [] f.k = "seq" -> Parts(e, f.fs, argv, prompt)
    [] f.k = "args" -> Args(e, argv)
    [] f.k = "exit" -> Stop(e, ToString(f.v))
    [] f.k \in {"err", "bad"} -> Stop(e, "error")
RECURSIVE Eval(_, _, _)
Eval(e, fs, argv) == IF fs = <<>> \/ e.status # "" THEN e ELSE Eval(Form(e, fs[1], argv, FALSE), Tail(fs), argv)
RECURSIVE Prompt(_, _, _)
Prompt(e, fs, argv) == LET p == Put(e, "> ") IN IF e.status # "" THEN e ELSE IF fs = <<>> THEN p ELSE Prompt(Form(p, fs[1], argv, TRUE), Tail(fs), argv)

Run(files, v, input) ==
  LET o == Parse(v)
      argv == IF o.rest > Len(v) THEN <<>> ELSE SubSeq(v, o.rest, Len(v))
      e0 == [out |-> IF o.q THEN <<>> ELSE <<"BANNER\n">>, env |-> <<>>, status |-> ""]
      fs == files[argv[1].t]
      (* with the library a file is read before any of it is evaluated *)
      e1 == IF argv = <<>> THEN e0
            ELSE IF argv[1].t \notin DOMAIN files THEN Stop(e0, "error")
            ELSE IF o.libs /\ \E i \in DOMAIN fs : fs[i].k = "bad" THEN Stop(e0, "error")
            ELSE Eval(e0, fs, argv)
      e2 == IF o.i \/ v = <<>> THEN Prompt(e1, input, argv) ELSE e1
  IN IF o.bad THEN [out |-> <<>>, status |-> "error"]
     ELSE [out |-> e2.out, status |-> IF e2.status = "" THEN "0" ELSE e2.status]
LStep(st0, op) == <<st0, <<"run", Run(st0, op.argv, op.input)>>>>
=============================================================================
