------------------------------ MODULE ModulesMC ------------------------------
(* Every acyclic import graph of N modules, imports in every order; every module     *)
(* counts in its own cell and in those it sees, and passes on or hides names.        *)
EXTENDS Modules, SequencesExt, Json
CONSTANT N
RECURSIVE Perms(_)
Perms(X) == IF X = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(X \ {x})} : x \in X}
Orders(m) == UNION {Perms(X) : X \in SUBSET {j \in 1..N : j > m}}
Cell(m) == <<"a", "b", "c", "d", "e">>[m]
Body(m, q, all) ==
  [i \in DOMAIN q |-> <<"import", q[i]>>]
  \o <<<<"cell", Cell(m)>>, <<"export", Cell(m)>>>>
  \o (IF all /\ q # <<>> THEN <<<<"all", q[1]>>>> ELSE <<>>)
  \o <<<<"show", m, <<"call", Cell(m)>>>>>>
  \o [i \in DOMAIN q |-> <<"show", m, <<"call", Cell(q[i])>>>>]
  \o (IF m = 1 THEN <<<<"show", 0, <<"call", Cell(N)>>>>>> ELSE <<>>)
RECURSIVE Graphs(_, _)
Graphs(m, all) == IF m > N THEN {<<>>} ELSE {<<Body(m, q, all)>> \o r : q \in Orders(m), r \in Graphs(m + 1, all)}
Sets == {[mods |-> c, missing |-> <<>>] : c \in Graphs(1, TRUE) \cup Graphs(1, FALSE)}
Every == SetToSeq(Sets)
(* the last cell is seen by the program iff the exports lead to it *)
Seen == status = "done" => Cell(N) \in Visible(1)
(* every call counted once, in the one instance *)
Calls == status = "done" => \A m \in Mods : cnt[Cell(m)] =
   (IF m \in Reach(1) THEN 1 + Cardinality({j \in Reach(1) : m \in Range(Imports(j))}) ELSE 0) + (IF m = N THEN 1 ELSE 0)
Report == stack = <<>> => PrintT(ToJson([id |-> sid, mods |-> S.mods, missing |-> <<>>, status |-> status, log |-> log, body |-> 0]))
=============================================================================
