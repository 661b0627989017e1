------------------------------- MODULE Symbols -------------------------------
(* Interned symbols: a symbol is its spelling; strings are mutable objects that *)
(* a symbol never shares.                                                       *)
(*   syms - spelling of every symbol variable of the program, in order          *)
(*   strs - content of every string variable                                    *)
(*   pool - every spelling interned by the program                              *)
(*   bulk - families <<prefix, lo, hi>> of symbols made in a loop               *)
EXTENDS Script, FiniteSets
SStart(s) == [syms |-> <<>>, strs |-> <<>>, bulk |-> <<>>]
B(b) == IF b THEN "#t" ELSE "#f"
Family(f) == {f[1] \o ToString(i) : i \in f[2]..f[3]}
RECURSIVE UnionAll(_)
UnionAll(fs) == IF fs = <<>> THEN {} ELSE Family(Head(fs)) \cup UnionAll(Tail(fs))
SStep(s, op) ==
  LET o == op.op
      ok(x) == <<"ok", x>>
  IN CASE o = "sym" -> <<[s EXCEPT !.syms = Append(@, op.text)], ok("")>>          \* literal, or read from a port
       [] o = "conv" -> <<[s EXCEPT !.syms = Append(@, s.strs[op.i])], ok("")>>    \* string->symbol
       [] o = "str" -> <<[s EXCEPT !.strs = Append(@, op.text)], ok("")>>
       [] o = "name" -> <<[s EXCEPT !.strs = Append(@, s.syms[op.i])], ok("")>>    \* symbol->string
       [] o = "alias" -> <<[s EXCEPT !.syms = Append(@, s.syms[op.i])], ok("")>>
       [] o = "put" -> LET t == s.strs[op.i]
                           n == SubSeq(t, 1, op.j) \o op.ch \o SubSeq(t, op.j + 2, Len(t))
                       IN <<[s EXCEPT !.strs[op.i] = n], ok("")>>
       [] o = "bulk" -> <<[s EXCEPT !.bulk = Append(@, <<op.text, op.lo, op.hi>>)], ok("")>>
       [] o = "again" -> <<s, ok("#t")>>                     \* the family made once more is the same objects
       [] o = "count" -> <<s, ok(ToString(Cardinality(UnionAll(s.bulk) \cup {s.syms[i] : i \in DOMAIN s.syms})))>>
       [] o = "eq" -> <<s, <<"ok", [i \in DOMAIN s.syms |-> B(s.syms[i] = s.syms[op.i])]>>>>
       [] o = "show" -> <<s, <<"ok", s.syms \o s.strs>>>>

(* the spelling determines the symbol and the symbol its spelling, in every state *)
OneObject == \A i, j \in DOMAIN st.syms : (st.syms[i] = st.syms[j]) <=> ({st.syms[i], st.syms[j]} = {st.syms[i]})
=============================================================================
