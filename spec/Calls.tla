-------------------------------- MODULE Calls --------------------------------
(* What a call of a procedure of the base environment with given arguments may *)
(* do.  Sigs (sigs.json) gives the clauses of each procedure: the kinds of its *)
(* arguments, of its rest arguments, and of its result.  An argument is        *)
(* described by what it is: its kind, number, length, elements, tree.          *)
EXTENDS Script
Sigs == JsonDeserialize("sigs.json")
CStart(s) == [n |-> 0]

RECURSIVE Path(_, _)
Path(t, ls) == IF t[1] # "p" THEN FALSE
               ELSE IF ls = <<>> THEN TRUE
               ELSE Path(IF ls[1] = "a" THEN t[2] ELSE t[3], Tail(ls))

(* does a value satisfy a guard *)
Is(v, g) ==
  CASE g.k = "any" -> TRUE
    [] g.k \in {"int"} -> v.k = "int"
    [] g.k = "nonzero" -> v.k = "int"
    [] g.k \in {"nat", "nat16", "idx"} -> IF v.k = "int" THEN v.n >= 0 ELSE FALSE
    [] g.k = "byte" -> IF v.k = "int" THEN v.n \in 0..255 ELSE FALSE
    [] g.k = "boolean" -> v.k = "bool"
    [] g.k \in {"char", "symbol", "string", "vector", "box", "procedure", "hashtable", "rtd", "env", "syntax", "patvar"} -> v.k = g.k
    [] g.k \in {"string0", "nofile"} -> v.k = "string"
    [] g.k = "envset" -> v.k = "env"
    [] g.k = "list" -> v.list
    [] g.k = "list/char" -> IF v.list THEN \A i \in DOMAIN v.els : v.els[i] = "char" ELSE FALSE
    [] g.k = "list/symbol" -> IF v.list THEN \A i \in DOMAIN v.els : v.els[i] = "symbol" ELSE FALSE
    [] g.k = "pair" -> IF v.k = "pair" THEN Path(v.tree, g.path) ELSE FALSE
    [] g.k = "iport" -> v.k \in {"iport", "ciport"}
    [] g.k = "oport" -> v.k \in {"oport", "coport"}
    [] g.k = "sport" -> v.k \in {"oport", "coport"} /\ v.sport
    [] g.k = "record" -> v.k = "record"
    [] g.k = "arecord" -> v.k \in {"record", "orecord", "hashtable", "patvar", "exn"}
    [] g.k = "symbol/f" -> v.k = "symbol" \/ v.f
    [] g.k = "syntax/f" -> v.k = "syntax" \/ v.f
    [] g.k = "who" -> v.k \in {"symbol", "string"} \/ v.f
    [] g.k = "arity" -> v.arity
    [] g.k = "exn" -> v.k = "exn"
    [] g.k \in {"argument-exn", "arity-exn", "range-exn", "missing-exn", "syntax-exn"} -> IF v.k = "exn" THEN v.exn = g.k ELSE FALSE

Guard(c, i) == IF i <= Len(c.args) THEN c.args[i] ELSE c.rest[1]
Fits(c, n) == IF c.rest = <<>> THEN n = Len(c.args) ELSE n >= Len(c.args)

(* the outcomes of a call allowed by clause c *)
Outcome(c, as) ==
  LET bad == {i \in DOMAIN as : ~Is(as[i], Guard(c, i))}
      out == {i \in DOMAIN as : IF Guard(c, i).k = "idx" THEN IF Is(as[i], Guard(c, i)) THEN as[i].n >= as[Guard(c, i).of].len ELSE FALSE ELSE FALSE}
      zero == {i \in DOMAIN as : IF Guard(c, i).k = "nonzero" THEN IF as[i].k = "int" THEN as[i].n = 0 ELSE FALSE ELSE FALSE}
      closed == \E i \in DOMAIN as : Guard(c, i).k \in {"iport", "oport", "sport"} /\ as[i].k \in {"ciport", "coport"}
      vague == \E i \in bad : Guard(c, i).k \in {"list/char", "list/symbol", "pair", "list"}
  IN CASE bad # {} /\ c.how = "late" -> [class |-> IF 1 \in bad THEN "arg" ELSE "raise", at |-> <<>>, kinds |-> <<>>]
       [] bad # {} /\ out # {} -> [class |-> "argrange", at |-> <<>>, kinds |-> <<>>]
       [] bad # {} /\ out = {} -> [class |-> "arg", at |-> IF vague THEN <<>> ELSE [i \in DOMAIN as |-> i \in bad], kinds |-> <<>>]
       [] bad = {} /\ out # {} -> [class |-> "range", at |-> <<>>, kinds |-> <<>>]
       [] bad = {} /\ out = {} /\ zero # {} -> [class |-> "exn", at |-> <<>>, kinds |-> <<>>]
       [] OTHER -> [class |-> IF closed \/ c.how = "late" THEN "may" ELSE c.how, at |-> <<>>, kinds |-> c.ret]

CStep(s, op) ==
  LET cs == Sigs[op.f]
      fit == {i \in DOMAIN cs : Fits(cs[i], Len(op.args))}
  IN <<s, <<"ok", IF fit = {} THEN [class |-> "arity", at |-> <<>>, kinds |-> <<>>]
          ELSE Outcome(cs[CHOOSE i \in fit : TRUE], op.args)>>>>
=============================================================================
