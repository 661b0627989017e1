------------------------------- MODULE Strings -------------------------------
(* Mutable strings with identity, symbols, and paths.                          *)
(*   objs - contents (sequences of character codes) of the string objects      *)
(*   vars - for each variable the object it refers to                          *)
(*   syms - spellings of the symbols made                                      *)
EXTENDS Script
SStart(s) == [objs |-> <<>>, vars |-> <<>>, syms |-> <<>>]
Stop(m) == <<"stop", m>>
Codes(x) == <<"codes", x>>
Num(n) == <<"num", n>>
Bool(b) == <<"num", IF b THEN 1 ELSE 0>>
Lists(xs) == <<"lists", xs>>
New(s, t) == <<[s EXCEPT !.objs = Append(@, t), !.vars = Append(@, Len(s.objs) + 1)], <<"ok">>>>
Fill(n, c) == [i \in 1..n |-> c]
RECURSIVE Cat(_), Strip(_), LexLe(_, _, _), Comps(_), Join(_, _), Find(_, _)
Cat(xs) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1]
           ELSE LET m == Len(xs) \div 2 IN Cat(SubSeq(xs, 1, m)) \o Cat(SubSeq(xs, m + 1, Len(xs)))

(* ---- numerals *)
IsDigit(c) == c \in 48..57
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
MaxPos == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
MaxNeg == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
LexLe(a, b, i) == i > Len(a) \/ a[i] < b[i] \/ (a[i] = b[i] /\ LexLe(a, b, i + 1))
Numeral(t) ==       \* the canonical numeral of the integer that t denotes, <<35, 102>> (#f) if it denotes none
  LET sgn == t # <<>> /\ t[1] \in {43, 45}
      neg == sgn /\ t[1] = 45
      ds == IF sgn THEN Tail(t) ELSE t
      d == Strip(ds)
      lim == IF neg THEN MaxNeg ELSE MaxPos
  IN IF ds = <<>> \/ \E i \in DOMAIN ds : ~IsDigit(ds[i]) THEN <<35, 102>>
     ELSE IF Len(d) > 19 \/ (Len(d) = 19 /\ ~LexLe(d, lim, 1)) THEN <<35, 102>>
     ELSE IF neg /\ d # <<48>> THEN <<45>> \o d ELSE d

(* ---- paths: components separated by slashes; a slash where a component would start stands for itself *)
Slash == 47
Find(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = Slash THEN i ELSE Find(t, i + 1)
Comps(t) == IF t = <<>> THEN <<>>
            ELSE LET i == Find(t, 1)
                 IN IF i = 0 THEN <<t>>
                    ELSE IF i = 1 THEN <<<<Slash>>>> \o Comps(Tail(t))
                    ELSE <<SubSeq(t, 1, i - 1)>> \o Comps(SubSeq(t, i + 1, Len(t)))
Ends(t) == t[Len(t)] = Slash
Join(acc, xs) == IF xs = <<>> THEN acc
                 ELSE IF xs[1] = <<>> THEN Join(acc, Tail(xs))
                 ELSE Join(acc \o (IF Ends(acc) THEN <<>> ELSE <<Slash>>) \o xs[1], Tail(xs))
Split(t) == LET c == Comps(t)
                n == Len(c)
            IN IF n = 1 THEN <<<<35, 102>>, c[1]>>     \* no directory: #f
               ELSE <<Join(c[1], SubSeq(c, 2, n - 1)), c[n]>>

SStep(s, op) ==
  LET o == op.op
      T(v) == s.objs[s.vars[v]]
      t == TLCEval(IF op.v > 0 THEN T(op.v) ELSE <<>>)
      arg(k) == [j \in DOMAIN op.vs |-> T(op.vs[j])]
      two(ok, r) == IF ok THEN r ELSE <<s, Stop("range")>>
  IN CASE o = "make" -> two(op.n >= 0, New(s, Fill(op.n, op.c)))
       [] o = "text" -> New(s, op.t)             \* literal, string, list->string, number->string of a given text
       [] o = "copy" -> New(s, t)                \* any route that gives a fresh string of the same characters
       [] o = "append" -> New(s, Cat(arg(1)))
       [] o = "sub" -> two(op.a >= 0 /\ op.a <= op.b /\ op.b <= Len(t), New(s, SubSeq(t, op.a + 1, op.b)))
       [] o = "alias" -> <<[s EXCEPT !.vars = Append(@, s.vars[op.v])], <<"ok">>>>
       [] o = "set" -> two(op.i >= 0 /\ op.i < Len(t), <<[s EXCEPT !.objs[s.vars[op.v]][op.i + 1] = op.c], <<"ok">>>>)
       [] o = "ref" -> two(op.i >= 0 /\ op.i < Len(t), <<s, Num(t[op.i + 1])>>)
       [] o = "len" -> <<s, Num(Len(t))>>
       [] o = "codes" -> <<s, Codes(t)>>
       [] o = "eq" -> <<s, IF t = <<>> /\ T(op.w) = <<>> THEN <<"any">> ELSE Bool(s.vars[op.v] = s.vars[op.w])>>   \* identity of empty strings is not specified
       [] o = "equal" -> <<s, Bool(t = T(op.w))>>
       [] o = "tonum" -> <<s, <<"text", Numeral(t)>>>>
       [] o = "tosym" -> IF \E i \in DOMAIN t : t[i] = 0 THEN <<s, Stop("nul")>> ELSE <<[s EXCEPT !.syms = Append(@, t)], <<"ok">>>>
       [] o = "fromsym" -> New(s, s.syms[op.y])
       [] o = "symeq" -> <<s, Bool(s.syms[op.y] = s.syms[op.z])>>
       [] o = "chr" -> two(op.c \in 0..255, <<s, Num(op.c)>>)
       [] o = "build" -> New(s, LET a == arg(1) IN Join(a[1], Tail(a)))
       [] o = "abs" -> <<s, Bool(t # <<>> /\ t[1] = Slash)>>
       [] o = "comps" -> <<s, Lists(Comps(t))>>
       [] o = "split" -> <<s, Lists(Split(t))>>

(* Properties of the specification itself, checked on every state. *)
StringsOK ==
  /\ \A v \in DOMAIN st.vars : st.vars[v] \in DOMAIN st.objs
  /\ \A j \in DOMAIN st.objs : LET t == st.objs[j] IN
        Len(t) < 40 =>
        /\ \A i \in DOMAIN t : t[i] \in 0..255
        /\ LET c == Comps(t) IN                      \* splitting loses only separating and one trailing slash
             c # <<>> => (Len(c) = 1 \/ Join(Split(t)[1], <<Split(t)[2]>>) = Join(c[1], Tail(c)))
        /\ LET m == Numeral(t) IN m = <<35, 102>> \/ Numeral(m) = m
=============================================================================
