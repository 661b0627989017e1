-------------------------------- MODULE Equal --------------------------------
(* Identity, structural equality and hashing over a heap of objects.           *)
(* Object i is [kind, parts, text, ty]: parts are indices of older objects     *)
(* (so the heap is acyclic), text the content of atoms and strings, ty a       *)
(* record type.  An alias is another name of an older object.                  *)
(*   atom  - number, character, boolean, interned symbol, empty list           *)
(*   ref   - object equal only to itself (procedure, generated symbol, void..) *)
(*   str pair vec box                                                          *)
(*   ht    - hashtable, parts key, value, key, value ...; text its equivalence *)
(*   rec   - record                                                            *)
(* Record type t is [parent, rule]: rule "" (none), "first" (first field) or   *)
(* "all" (all fields), inherited when the type is made.                        *)
EXTENDS Script, FiniteSets

EStart(s) == [objs |-> <<>>, types |-> <<>>, deflt |-> ""]

Res(s, i) == IF s.objs[i].kind = "alias" THEN s.objs[i].parts[1] ELSE i   \* aliases are resolved when made
EqO(s, i, j) ==
  LET a == Res(s, i) b == Res(s, j)
  IN \/ a = b
     \/ s.objs[a].kind = "atom" /\ s.objs[b].kind = "atom" /\ s.objs[a].text = s.objs[b].text

RuleOf(s, a, b) ==        \* how two records are compared
  LET x == s.types[s.objs[a].ty].rule
      y == s.types[s.objs[b].ty].rule
  IN IF x # "" /\ x = y THEN x ELSE s.deflt

RECURSIVE EqualO(_, _, _), AllEqual(_, _, _, _)
AllEqual(s, p, q, i) == IF i > Len(p) THEN TRUE ELSE EqualO(s, p[i], q[i]) /\ AllEqual(s, p, q, i + 1)
EqualO(s, i, j) ==
  LET a == Res(s, i) b == Res(s, j)
      x == s.objs[a] y == s.objs[b]
  IN IF EqO(s, a, b) THEN TRUE
     ELSE IF x.kind # y.kind THEN FALSE
     ELSE CASE x.kind \in {"atom", "ref"} -> FALSE
            [] x.kind = "str" -> x.text = y.text
            [] x.kind \in {"pair", "vec", "box"} -> Len(x.parts) = Len(y.parts) /\ AllEqual(s, x.parts, y.parts, 1)
            [] x.kind = "ht" ->
                 /\ x.text = y.text
                 /\ Len(x.parts) = Len(y.parts)
                 /\ \A u \in 1..(Len(x.parts) \div 2) : \E v \in 1..(Len(y.parts) \div 2) :
                      /\ (IF x.text = "eq" THEN EqO(s, x.parts[2 * u - 1], y.parts[2 * v - 1])
                          ELSE EqualO(s, x.parts[2 * u - 1], y.parts[2 * v - 1]))
                      /\ EqualO(s, x.parts[2 * u], y.parts[2 * v])
            [] x.kind = "rec" ->
                 LET r == RuleOf(s, a, b)
                 IN CASE r = "first" -> EqualO(s, x.parts[1], y.parts[1])
                      [] r = "all" -> x.ty = y.ty /\ AllEqual(s, x.parts, y.parts, 1)
                      [] OTHER -> FALSE

Mark(s, i, j) == IF EqO(s, i, j) THEN "=" ELSE IF EqualO(s, i, j) THEN "e" ELSE "."
RECURSIVE Row(_, _, _, _)
Row(s, i, watch, k) == IF k > Len(watch) THEN "" ELSE Mark(s, i, watch[k]) \o Row(s, i, watch, k + 1)

EStep(s, op) ==
  LET ok(x) == <<"ok", x>>
  IN CASE op.op = "new" ->
            <<[s EXCEPT !.objs = Append(@, [kind |-> op.kind,
                 parts |-> IF op.kind = "alias" THEN <<Res(s, op.parts[1])>> ELSE op.parts, text |-> op.text, ty |-> op.ty])], ok("")>>
       [] op.op = "set" -> <<[s EXCEPT !.objs[Res(s, op.i)].parts[op.j] = op.v], ok("")>>
       [] op.op = "text" -> <<[s EXCEPT !.objs[Res(s, op.i)].text = op.text], ok("")>>
       [] op.op = "type" ->
            <<[s EXCEPT !.types = Append(@, [parent |-> op.parent,
                 rule |-> IF op.rule # "" THEN op.rule ELSE IF op.parent = 0 THEN "" ELSE s.types[op.parent].rule])], ok("")>>
       [] op.op = "rule" -> <<[s EXCEPT !.types[op.i].rule = op.rule], ok("")>>
       [] op.op = "default" -> <<[s EXCEPT !.deflt = op.rule], ok("")>>
       [] op.op = "matrix" -> <<s, <<"ok", [i \in DOMAIN op.watch |-> Row(s, op.watch[i], op.watch, 1)]>>>>

(* the laws of the property, on the specification *)
Objs == DOMAIN st.objs
Reflexive == \A i \in Objs : EqualO(st, i, i)
Symmetric == \A i, j \in Objs : EqualO(st, i, j) = EqualO(st, j, i)
Transitive == \A i, j, k \in Objs : EqualO(st, i, j) /\ EqualO(st, j, k) => EqualO(st, i, k)
EqImpliesEqual == \A i, j \in Objs : EqO(st, i, j) => EqualO(st, i, j)
=============================================================================
