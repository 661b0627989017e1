------------------------------ MODULE CoreRun ------------------------------
(* Runs the programs of progs.json on the machine of Core.                    *)
EXTENDS Core, Json
CONSTANTS Chunk, MaxSteps
Progs == JsonDeserialize("progs.json")
VARIABLES pi, st

Init == pi \in 1..Len(Progs) /\ st = Load(Progs[pi])
Next == /\ st.status = "run"
        /\ st' = LET s == Run(st, Chunk)
                 IN IF s.steps > MaxSteps /\ s.status = "run" THEN Discard(s) ELSE s
        /\ UNCHANGED pi

(* evaluated once in every final state *)
Report == st.status # "run" =>
  PrintT(ToJson([i |-> pi, status |-> st.status, code |-> st.code, out |-> st.out, steps |-> st.steps,
                 err |-> Message(st)]))

---------------------------------------------------------------------------
(* Properties of the machine itself (checked with Chunk = 1) *)
EnvOK(env) == \A x \in DOMAIN env : env[x] \in 1..Len(st.store) /\ st.store[env[x]][1] = "var"
RECURSIVE KontOK(_)
FrameEnv(fr) == CASE fr[1] = "if" -> fr[4] [] fr[1] \in {"seq", "set"} -> fr[3]
                  [] fr[1] = "letv" -> fr[6] [] fr[1] = "letrec" -> fr[5]
                  [] fr[1] \in {"app", "values"} -> fr[4] [] fr[1] \in {"cwvp", "cwvc"} -> fr[3]
                  [] OTHER -> <<>>
KontOK(k) == k = Done \/ (EnvOK(FrameEnv(k[1])) /\ KontOK(k[2]))
TypeOK == /\ EnvOK(st.env) /\ EnvOK(st.glob) /\ KontOK(st.kont)
          /\ \A a \in DOMAIN st.store : st.store[a][1] = "clo" => EnvOK(st.store[a][3])

Changed == {a \in DOMAIN st.store : st.store[a] # st'.store[a]}
(* Locations are never reused, and a step changes at most one existing location; the locations of
   closures and literals' variables never change. *)
FrameRule ==
  [][ /\ Len(st'.store) >= Len(st.store)
      /\ \A a \in Changed : st.store[a][1] # "clo" /\ st'.store[a][1] = st.store[a][1]
      /\ (st.mode = "ev" => Changed = {})
      /\ (st.mode = "ap" /\ st.vals[1][1] = "clo" => Changed = {})
      /\ (st.mode = "ap" /\ st.vals[1][1] = "prim" =>
            /\ Changed \subseteq {IF Len(st.vals) > 1 /\ Len(st.vals[2]) = 2 /\ st.vals[2][1] \in {"pair", "vec", "box", "str"}
                                  THEN st.vals[2][2] ELSE 0}
            /\ (Changed # {} => st.vals[1][2] \in {"set-car!", "set-cdr!", "vector-set!", "vector-fill!", "set-box!", "string-set!"}))
      /\ (st.mode = "ret" /\ Changed # {} =>
            st.kont # Done /\ st.kont[1][1] \in {"set", "def", "letrec"})
    ]_<<st>>
(* Output only grows, one line at a time; once an error or exit happened nothing more runs. *)
OutputRule == [][ SubSeq(st'.out, 1, Len(st.out)) = st.out /\ Len(st'.out) <= Len(st.out) + 1 /\ st.status = "run" ]_<<st>>
(* An error hands control to the current handler, exactly once, with nothing else pending; the
   default handler ends the program. *)
ErrorRule ==
  [][ /\ (st'.status = "error" => st.mode = "ap" /\ st.vals[1] = <<"prim", "default-error-handler">> /\ st'.out = st.out)
      /\ (st'.kont = Push(<<"handler">>, Done) /\ st.kont # st'.kont /\ st.mode # "ret" /\ st'.mode = "ap"
            => st'.vals[1] = st.handler /\ Len(st'.vals) = 2)
      /\ (st'.handler # st.handler => st.mode = "ap" /\ st.vals[1] = <<"prim", "current-error-handler">>)
    ]_<<st>>
(* An accepted call binds exactly its arguments: the body starts in an environment that extends the
   closure's with the parameters (and the surplus arguments as a list). *)
CallRule ==
  [][ (st.mode = "ap" /\ st.vals[1][1] = "clo" /\ st'.mode = "ev") =>
        LET clo == st.store[st.vals[1][2]]
            i == ClauseFor(clo[2], Len(st.vals) - 1)
            cl == clo[2][i]
        IN /\ i # 0
           /\ \A j \in 1..(i - 1) : ~Accepts(clo[2][j], Len(st.vals) - 1)
           /\ \A j \in DOMAIN cl[1] : (\A l \in (j + 1)..Len(cl[1]) : cl[1][l] # cl[1][j]) /\ cl[1][j] # cl[2] =>
                  st'.store[st'.env[cl[1][j]]] = <<"var", st.vals[j + 1]>>
           /\ cl[2] # "" => ListVals(st'.store, st'.store[st'.env[cl[2]]][2], 200).vs
                              = SubSeq(st.vals, Len(cl[1]) + 2, Len(st.vals))
           /\ st'.kont = st.kont
    ]_<<st>>
(* Every value delivered by a producer arrives: a return into a receiving frame either binds as many
   names as there are values or raises. *)
ValuesRule ==
  [][ (st.mode = "ret" /\ st.kont # Done /\ st.kont[1][1] \in {"if", "set", "app", "values", "cwvp", "cwva", "map"}
         /\ Len(st.vals) # 1) => st'.kont = Push(<<"handler">>, Done) ]_<<st>>
=============================================================================
