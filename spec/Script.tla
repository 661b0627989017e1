-------------------------------- MODULE Script --------------------------------
(* Runs operation histories on a specification given by the constant operators *)
(*   Start(s)    - initial state for script s (a record read from JSON)         *)
(*   Step(st,op) - <<state, result>> after one operation                        *)
(* One state per Chunk operations; the results of a completed history are       *)
(* printed.  A result with head "stop" ends the history (an error ends the      *)
(* program).                                                                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Start(_), Step(_, _), Chunk
Scripts == JsonDeserialize("scripts.json")
VARIABLES sid, pos, st, res
svars == <<sid, pos, st, res>>

Ops == Scripts[sid].ops
IsStop(r) == r[1] = "stop"
Ended == pos >= Len(Ops)

RECURSIVE Go(_, _, _, _)
Go(p, s, rs, k) ==
  IF p >= Len(Ops) \/ k = 0 THEN [p |-> p, s |-> s, rs |-> rs]
  ELSE LET q == TLCEval(Step(s, Ops[p + 1]))
       IN IF IsStop(q[2]) THEN [p |-> Len(Ops), s |-> q[1], rs |-> Append(rs, q[2])]
          ELSE Go(p + 1, q[1], Append(rs, q[2]), k - 1)

Init == /\ sid \in DOMAIN Scripts
        /\ pos = 0 /\ st = Start(Scripts[sid]) /\ res = <<>>
Next == /\ ~Ended
        /\ \E g \in {Go(pos, st, res, Chunk)} :
              pos' = g.p /\ st' = g.s /\ res' = g.rs
        /\ UNCHANGED sid
Report == Ended => PrintT(ToJson([id |-> sid, res |-> res]))
=============================================================================
