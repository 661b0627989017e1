-------------------------------- MODULE Deep --------------------------------
(* Recursions and loops of unbounded length.  A family member is a Core       *)
(* program defining f together with the recurrence f must compute:            *)
(*    R(0) = base,  R(n) = (A*n + B + c * R(n-1)) mod m                        *)
(* where A*n + B is the sum of the terms pending around the recursive call.   *)
(* The machine of Core decides small n (Agree) and the size of its            *)
(* continuation (TailDepth).  Large n are reached by doubling: 2^j steps of    *)
(* the recurrence form one affine map of (n, R), and Doubling checks the maps  *)
(* against the recurrence itself.                                             *)
EXTENDS Core, Json
CONSTANTS Mode, Chunk, Bound
Fams == JsonDeserialize("fams.json")
VARIABLES fi, st, n, r
dvars == <<fi, st, n, r>>

Term(f, k) == LET RECURSIVE S(_)
                  S(i) == IF i > Len(f.terms) THEN 0 ELSE f.terms[i][1] * k + f.terms[i][2] + S(i + 1)
              IN S(1)
Rec(f, k, prev) == (Term(f, k) + f.c * prev) % f.m
RECURSIVE R(_, _)
R(f, k) == IF k = 0 THEN f.base ELSE Rec(f, k, R(f, k - 1))

(* 2^j steps from (k, v) lead to (k + 2^j, (p.c * v + p.a * k + p.b) mod m) *)
One(f) == [c |-> f.c % f.m, a |-> (Term(f, 1) - Term(f, 0)) % f.m, b |-> Term(f, 1) % f.m, w |-> 1]
Double(f, p) == [c |-> (p.c * p.c) % f.m, a |-> (p.c * p.a + p.a) % f.m,
                 b |-> (p.c * p.b + p.a * (p.w % f.m) + p.b) % f.m, w |-> 2 * p.w]
Apply(f, p, k, v) == (p.c * v + p.a * (k % f.m) + p.b) % f.m
RECURSIVE Go(_, _, _, _, _)
Go(f, p, k, v, steps) ==      \* v at k; steps still to go, counted in units of p.w
  IF steps = 0 THEN v
  ELSE IF steps % 2 = 1 THEN Go(f, Double(f, p), k + p.w, Apply(f, p, k, v), steps \div 2)
  ELSE Go(f, Double(f, p), k, v, steps \div 2)
Fast(f, k) == Go(f, One(f), 0, f.base, k)

(* Mode "machine": run the program of the family on Core; it outputs f(k) for k in small. *)
(* Mode "recur": one state per point of each family.                                      *)
Init == /\ fi \in 1..Len(Fams)
        /\ IF Mode = "machine" THEN n = 0 /\ r = 0 /\ st = Load(Fams[fi].prog)
           ELSE /\ n \in {Fams[fi].points[i] : i \in DOMAIN Fams[fi].points}
                /\ r = Fast(Fams[fi], n) /\ st = <<>>
Next == /\ Mode = "machine" /\ st.status = "run" /\ st' = Run(st, Chunk) /\ UNCHANGED <<fi, n, r>>

Report == Mode = "recur" => PrintT(ToJson([f |-> fi, n |-> n, r |-> r]))
Doubling == (Mode = "recur" /\ n <= 70) => r = R(Fams[fi], n)
Agree == (Mode = "machine" /\ st.status # "run") =>
  /\ st.status = "done"
  /\ st.out = [i \in DOMAIN Fams[fi].small |-> ToString(R(Fams[fi], Fams[fi].small[i]))]
(* the continuation of a loop never holds more than Bound frames *)
TailDepth == (Mode = "machine" /\ Fams[fi].tail) => Depth(st.kont) <= Bound
=============================================================================
