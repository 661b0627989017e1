--------------------------------- MODULE Fasl ---------------------------------
(* Fast-load files as streams of data.  A script gives data (trees); a file holds *)
(* the values written to it, as they were when written; a port opened for reading *)
(* delivers them in order, then errors.                                           *)
(*   data  - current value of every datum (a poke changes it in place)            *)
(*   files - sequence of data written     ports - [file, n, out, open]            *)
EXTENDS Script
RECURSIVE Show(_), ShowSeq(_, _, _)
ShowSeq(ds, i, j) ==  \* data i..j separated by spaces
  IF i > j THEN "" ELSE IF i = j THEN Show(ds[i])
  ELSE LET m == (i + j) \div 2 IN ShowSeq(ds, i, m) \o " " \o ShowSeq(ds, m + 1, j)
ShowTail(d) == CASE d.k = "null" -> "" [] OTHER -> " . " \o Show(d)
RECURSIVE Copies(_, _)
Copies(t, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN t
                ELSE LET h == Copies(t, n \div 2) IN IF n % 2 = 0 THEN h \o " " \o h ELSE h \o " " \o h \o " " \o t
RECURSIVE Rep(_, _)
Rep(t, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN t ELSE LET h == Rep(t, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o t
Show(d) == CASE d.k = "atom" -> d.t
             [] d.k = "null" -> "()"
             [] d.k = "list" -> "(" \o ShowSeq(d.items, 1, Len(d.items)) \o ")"
             [] d.k = "imp" -> "(" \o ShowSeq(d.items, 1, Len(d.items)) \o " . " \o Show(d.tail) \o ")"
             [] d.k = "vec" -> "#(" \o ShowSeq(d.items, 1, Len(d.items)) \o ")"
             [] d.k = "many" -> "(" \o Copies(Show(d.of), d.n) \o ")"        \* list of n equal elements
             [] d.k = "manyv" -> "#(" \o Copies(Show(d.of), d.n) \o ")"
             [] d.k = "deep" -> Rep("(", d.n) \o Show(d.of) \o Rep(")", d.n)   \* n nested lists
             [] d.k = "long" -> "{22}" \o Rep(d.t, d.n) \o "{22}"               \* string of n copies
             [] d.k = "longs" -> Rep(d.t, d.n)                              \* symbol

FStart(s) == [data |-> s.data, files |-> [f \in 1..s.files |-> <<>>], ports |-> <<>>]
PortOf(s, p) == s.ports[p]
(* truncated: only the first op.keep data survive, the next one is cut *)
FStep(s, op) ==
  LET o == op.op
      p == s.ports[op.p]
      ok(x) == <<"ok", x>>
  IN CASE o = "create" -> <<[s EXCEPT !.ports = Append(@, [file |-> op.f, n |-> 0, out |-> TRUE, open |-> TRUE]), !.files[op.f] = <<>>], ok("V")>>
       [] o = "open" -> <<[s EXCEPT !.ports = Append(@, [file |-> op.f, n |-> 0, out |-> FALSE, open |-> TRUE])], ok("V")>>
       [] o = "write" -> <<[s EXCEPT !.files[p.file] = Append(@, s.data[op.d])], ok("V")>>
       [] o = "close" -> <<[s EXCEPT !.ports[op.p].open = FALSE], ok("V")>>
       [] o = "read" -> IF p.n < Len(s.files[p.file])
                        THEN <<[s EXCEPT !.ports[op.p].n = @ + 1], ok(Show(s.files[p.file][p.n + 1]))>>
                        ELSE <<s, <<"stop", "error">>>>
       [] o = "show" -> <<s, ok(Show(s.data[op.d]))>>
       [] o = "poke" -> <<[s EXCEPT !.data[op.d].items[1] = op.v], ok("V")>>
NeverPastEnd == \A i \in DOMAIN st.ports : st.ports[i].open => st.ports[i].n <= Len(st.files[st.ports[i].file])
=============================================================================
