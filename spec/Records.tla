------------------------------- MODULE Records -------------------------------
(* Record types, their instances and what can be attached to a type.           *)
(* ty   - types: [name, parent (index or 0), uid, sealed, opaque, fields       *)
(*        (seq of <<mutable, name>>), eq, hash, wr (attached procedures or     *)
(*        <<>>), gens (seq of <<interface, procedures>>)]                      *)
(* re   - instances: [t, v] with v the values of all fields, the oldest        *)
(*        ancestor's first                                                     *)
(* pr   - procedures made so far: constructors, predicates, accessors, ...     *)
(* ge   - generic interfaces: sequences of [name, n, rest]                     *)
(* Values: <<"i", n>>, <<"s", text>> (a string), <<"b", 0/1>>, <<"r", k>>      *)
(* instance k, <<"t", k>> type k, <<"p", k>> procedure k, <<"y", name>> symbol,*)
(* <<"l", seq>> vector, <<"v">> no value.                                      *)
EXTENDS Script
RStart(s) == [ty |-> <<>>, re |-> <<>>, pr |-> <<>>, ge |-> <<>>]
Bo(x) == <<"b", IF x THEN 1 ELSE 0>>
Fv == <<"b", 0>>
Stop(kind, what) == <<"stop", kind, what>>
Ok(s, v) == <<s, <<"ok", v>>>>

RECURSIVE Lineage(_, _), Total(_, _)
Lineage(s, t) == IF t = 0 THEN {} ELSE {t} \cup Lineage(s, s.ty[t].parent)
Total(s, t) == IF t = 0 THEN 0 ELSE Len(s.ty[t].fields) + Total(s, s.ty[t].parent)
Base(s, t) == Total(s, s.ty[t].parent)
IsRec(v) == v[1] = "r"
IsA(s, v, t) == IF IsRec(v) THEN t \in Lineage(s, s.re[v[2]].t) ELSE FALSE

(* A field list is well formed when its entries are and no name occurs twice. *)
FieldsOk(fs) == /\ \A i \in DOMAIN fs : fs[i].ok
                /\ \A i, j \in DOMAIN fs : i < j => fs[i].name # fs[j].name
NewType(s, name, parent, uid, sealed, opaque, fs) ==
  LET p == IF parent = 0 THEN [eq |-> <<>>, hash |-> <<>>, wr |-> <<>>] ELSE s.ty[parent]
  IN [s EXCEPT !.ty = Append(@, [name |-> name, parent |-> parent, uid |-> uid, sealed |-> sealed, opaque |-> opaque,
        fields |-> [i \in DOMAIN fs |-> <<fs[i].mut, fs[i].name>>],
        eq |-> p.eq, hash |-> p.hash, wr |-> p.wr, gens |-> <<>>])]
AddP(s, q) == [s EXCEPT !.pr = Append(@, q)]

(* equality: instances whose types carry the same procedure are compared by it *)
RECURSIVE Equal(_, _, _)
Equal(s, a, b) ==
  IF a = b THEN TRUE
  ELSE IF ~(IsRec(a) /\ IsRec(b)) THEN FALSE
  ELSE LET e == s.ty[s.re[a[2]].t].eq
           f == s.ty[s.re[b[2]].t].eq
       IN IF e # <<>> /\ e = f THEN Equal(s, s.re[a[2]].v[e[2]], s.re[b[2]].v[e[2]]) ELSE FALSE

RECURSIVE Digits(_), Show(_, _, _)
Digits(n) == IF n < 0 THEN "-" \o Digits(-n) ELSE ToString(n)
(* d: displayed (strings without quotes); a writer <<k, i>> writes its number and, if i > 0, field i *)
Show(s, v, d) ==
  CASE v[1] = "i" -> Digits(v[2])
    [] v[1] = "s" -> IF d THEN v[2] ELSE "\"" \o v[2] \o "\""
    [] v[1] = "b" -> IF v[2] = 1 THEN "#t" ELSE "#f"
    [] v[1] = "t" -> "#<record-type:" \o s.ty[v[2]].name \o ">"
    [] v[1] = "r" -> LET r == s.re[v[2]]
                         w == s.ty[r.t].wr
                     IN IF w = <<>> THEN "#<" \o s.ty[r.t].name \o ">"
                        ELSE "[" \o ToString(w[1]) \o (IF d THEN "d" ELSE "w") \o
                             (IF w[2] = 0 THEN "" ELSE " " \o Show(s, r.v[w[2]], d)) \o "]"

Assoc(gs, g) == LET I == {i \in DOMAIN gs : gs[i][1] = g} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i >= j

(* the constructor p of type t called with arguments after protocol proto *)
Construct(s, t, proto, args) ==
  LET n == Total(s, t)
      all == CASE proto = "" -> args
               [] proto = "rev" -> [i \in DOMAIN args |-> args[Len(args) + 1 - i]]
               [] proto = "dup" -> [i \in 1..n |-> args[1]]
  IN IF proto = "dup" /\ Len(args) # 1 THEN <<s, Stop("arity", <<>>)>>
     ELSE IF Len(all) # n THEN <<s, Stop("arity", <<>>)>>
     ELSE LET k == Len(s.re) + 1
          IN <<[s EXCEPT !.re = Append(@, [t |-> t, v |-> all])], <<"ok", <<"r", k>>>>>>

Call(s, p, args) ==
  CASE p.k = "ctor" -> Construct(s, p.t, p.proto, args)
    [] p.k = "pred" -> IF Len(args) # 1 THEN <<s, Stop("arity", <<>>)>> ELSE Ok(s, Bo(IsA(s, args[1], p.t)))
    [] p.k = "acc" -> IF Len(args) # 1 THEN <<s, Stop("arity", <<>>)>>
                      ELSE IF ~IsA(s, args[1], p.t) THEN <<s, Stop("arg", args[1])>>
                      ELSE Ok(s, s.re[args[1][2]].v[Base(s, p.t) + p.i])
    [] p.k = "mut" -> IF Len(args) # 2 THEN <<s, Stop("arity", <<>>)>>
                      ELSE IF ~IsA(s, args[1], p.t) THEN <<s, Stop("arg", args[1])>>
                      ELSE Ok([s EXCEPT !.re[args[1][2]].v[Base(s, p.t) + p.i] = args[2]], <<"v">>)
    [] p.k = "isgen" -> IF Len(args) # 1 THEN <<s, Stop("arity", <<>>)>>
                        ELSE Ok(s, Bo(IF args[1][1] # "t" THEN FALSE ELSE Assoc(s.ty[args[1][2]].gens, p.g) # 0))
    [] p.k = "gacc" -> IF Len(args) # 1 THEN <<s, Stop("arity", <<>>)>>
                       ELSE IF args[1][1] # "t" THEN <<s, Stop("arg", args[1])>>
                       ELSE LET gs == s.ty[args[1][2]].gens
                                a == Assoc(gs, p.g)
                            IN IF a = 0 THEN <<s, Stop("error", <<>>)>> ELSE Ok(s, <<"m", gs[a][2][p.i]>>)

AttachGen(s, t, g, impls) ==
  IF Len(impls) # Len(s.ge[g]) \/ \E i \in DOMAIN impls : <<impls[i].n, impls[i].rest>> # <<s.ge[g][i].n, s.ge[g][i].rest>>
  THEN <<s, Stop("error", <<>>)>>
  ELSE Ok([s EXCEPT !.ty[t].gens = Append(@, <<g, [i \in DOMAIN impls |-> impls[i].id]>>)], <<"v">>)

(* indices of attached procedures are relative to the type that names them: i of type t *)
At(s, t, i) == IF i = 0 THEN 0 ELSE Base(s, t) + i

RStep(s, op) ==
  LET o == op.op
      T(k) == s.ty[k]
  IN CASE o = "type" ->
            IF op.bad # "" THEN <<s, Stop("arg", <<>>)>>
            ELSE IF op.parent > 0 /\ T(op.parent).sealed THEN <<s, Stop("arg", <<"t", op.parent>>)>>
            ELSE IF ~FieldsOk(op.fields) THEN <<s, Stop("arg", <<>>)>>
            ELSE Ok(NewType(s, op.name, op.parent, op.uid, op.sealed, op.opaque, op.fields), <<"v">>)
       [] o = "form" ->     \* define-record-type: the type, constructor, predicate, accessors, mutators and attachments
            IF op.parent > 0 /\ T(op.parent).sealed THEN <<s, Stop("arg", <<"t", op.parent>>)>>
            ELSE LET t == Len(s.ty) + 1
                     s1 == NewType(s, op.name, op.parent, op.uid, op.sealed, op.opaque, op.fields)
                     n == Len(op.fields)
                     s2 == IF op.wr = <<>> THEN s1 ELSE [s1 EXCEPT !.ty[t].wr = <<op.wr[1], At(s1, t, op.wr[2])>>]
                     s3 == IF op.eq = <<>> THEN s2 ELSE [s2 EXCEPT !.ty[t].eq = <<op.eq[1], At(s1, t, op.eq[2])>>, !.ty[t].hash = <<op.eq[1], At(s1, t, op.eq[2])>>]
                     M == SelectSeq([i \in 1..n |-> i], LAMBDA i : op.fields[i].mut)
                 IN Ok([s3 EXCEPT !.pr = @ \o <<[k |-> "ctor", t |-> t, proto |-> op.proto], [k |-> "pred", t |-> t]>>
                                         \o [i \in 1..n |-> [k |-> "acc", t |-> t, i |-> i]]
                                         \o [j \in DOMAIN M |-> [k |-> "mut", t |-> t, i |-> M[j]]]], <<"v">>)
       [] o = "ctor" -> Ok(AddP(s, [k |-> "ctor", t |-> op.t, proto |-> ""]), <<"v">>)
       [] o = "pred" -> Ok(AddP(s, [k |-> "pred", t |-> op.t]), <<"v">>)
       [] o = "acc" -> IF op.i \in 1..Len(T(op.t).fields) THEN Ok(AddP(s, [k |-> "acc", t |-> op.t, i |-> op.i]), <<"v">>)
                       ELSE <<s, Stop("range", <<>>)>>
       [] o = "mut" -> IF op.i \notin 1..Len(T(op.t).fields) THEN <<s, Stop("range", <<>>)>>
                       ELSE IF ~T(op.t).fields[op.i][1] THEN <<s, Stop("arg", <<>>)>>
                       ELSE Ok(AddP(s, [k |-> "mut", t |-> op.t, i |-> op.i]), <<"v">>)
       [] o = "call" -> Call(s, s.pr[op.p], op.args)
       [] o = "info" -> Ok(s, <<"l", <<<<"y", T(op.t).name>>, IF T(op.t).parent = 0 THEN Fv ELSE <<"t", T(op.t).parent>>,
                               IF T(op.t).uid = "" THEN Fv ELSE <<"y", T(op.t).uid>>, Bo(T(op.t).sealed), Bo(T(op.t).opaque),
                               <<"l", [i \in DOMAIN T(op.t).fields |-> <<"y", T(op.t).fields[i][2]>>]>>,
                               <<"l", [i \in DOMAIN T(op.t).fields |-> Bo(T(op.t).fields[i][1])]>>>>>>)
       [] o = "mutable?" -> IF op.i \in 1..Len(T(op.t).fields) THEN Ok(s, Bo(T(op.t).fields[op.i][1])) ELSE <<s, Stop("range", <<>>)>>
       [] o = "is" -> Ok(s, <<"l", <<Bo(IF IsRec(op.v) THEN ~T(s.re[op.v[2]].t).opaque ELSE FALSE), Bo(op.v[1] = "t")>>>>)
       [] o = "rtd" -> IF ~IsRec(op.v) THEN <<s, Stop("arg", op.v)>>
                       ELSE LET t == s.re[op.v[2]].t IN IF T(t).opaque THEN <<s, Stop("arg", op.v)>> ELSE Ok(s, <<"t", t>>)
       [] o = "show" -> <<s, <<"text", Show(s, op.v, op.d)>>>>
       [] o = "equal" -> Ok(s, Bo(Equal(s, op.a, op.b)))
       [] o = "hash" -> Ok(s, Bo(Equal(s, op.a, op.b)))     \* the hashes are the same; distinct values are not compared
       [] o = "eq!" -> Ok([s EXCEPT !.ty[op.t].eq = <<op.id, At(s, op.t, op.i)>>, !.ty[op.t].hash = <<op.id, At(s, op.t, op.i)>>], <<"v">>)
       [] o = "wr!" -> Ok([s EXCEPT !.ty[op.t].wr = <<op.id, At(s, op.t, op.i)>>], <<"v">>)
       [] o = "attached" -> Ok(s, <<"l", <<IF T(op.t).eq = <<>> THEN Fv ELSE <<"i", T(op.t).eq[1]>>, IF T(op.t).hash = <<>> THEN Fv ELSE <<"i", T(op.t).hash[1]>>,
                                           IF T(op.t).wr = <<>> THEN Fv ELSE <<"i", T(op.t).wr[1]>>>>>>)
       [] o = "generics" -> Ok([s EXCEPT !.ge = Append(@, op.methods), !.pr = Append(@, [k |-> "isgen", g |-> Len(s.ge) + 1])], <<"v">>)
       [] o = "gen!" -> AttachGen(s, op.t, op.g, op.impls)
       [] o = "gacc" -> LET I == {i \in DOMAIN s.ge[op.g] : s.ge[op.g][i].name = op.name}
                        IN IF I = {} THEN <<s, Stop("error", <<>>)>>
                           ELSE Ok(AddP(s, [k |-> "gacc", g |-> op.g, i |-> CHOOSE i \in I : TRUE]), <<"v">>)
       [] o = "dump" -> Ok(s, <<"l", s.re[op.r].v>>)

(* what holds of every state: an instance has a value for each field of its lineage, parents precede and are not sealed *)
RecordsOK ==
  /\ \A k \in DOMAIN st.re : Len(st.re[k].v) = Total(st, st.re[k].t)
  /\ \A t \in DOMAIN st.ty : LET p == st.ty[t].parent IN p < t /\ (p # 0 => ~st.ty[p].sealed)
  /\ \A k \in DOMAIN st.pr : st.pr[k].k = "mut" => st.ty[st.pr[k].t].fields[st.pr[k].i][1]
=============================================================================
