-------------------------------- MODULE Arith --------------------------------
(* Integers of any size: [neg, d], d the decimal digits, least significant first, *)
(* no leading zero; zero is [FALSE, <<>>].  The operations a script asks for are  *)
(* computed exactly and reported when the result fits in 64 bits.                 *)
EXTENDS Script
Zero == [neg |-> FALSE, d |-> <<>>]
One == [neg |-> FALSE, d |-> <<1>>]
Norm(neg, d) == [neg |-> neg /\ d # <<>>, d |-> d]

RECURSIVE Trim(_), LtFrom(_, _, _), AddC(_, _, _, _), SubB(_, _, _, _), MulD(_, _, _), MulM(_, _), DivM(_, _, _, _, _)
Trim(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
At(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
LtFrom(a, b, i) == i > 0 /\ (a[i] < b[i] \/ (a[i] = b[i] /\ LtFrom(a, b, i - 1)))
MLt(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LtFrom(a, b, Len(a)))
AddC(a, b, i, c) == IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET s == At(a, i) + At(b, i) + c IN <<s % 10>> \o AddC(a, b, i + 1, s \div 10)
MAdd(a, b) == AddC(a, b, 1, 0)
SubB(a, b, i, c) == IF i > Len(a) THEN <<>>       \* a >= b
                    ELSE LET s == a[i] - At(b, i) - c IN <<(s + 10) % 10>> \o SubB(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MSub(a, b) == Trim(SubB(a, b, 1, 0))
MulD(a, k, c) == IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                 ELSE LET s == a[1] * k + c IN <<s % 10>> \o MulD(Tail(a), k, s \div 10)
MulM(a, b) == IF b = <<>> THEN <<>> ELSE Trim(MAdd(MulD(a, b[1], 0), <<0>> \o MulM(a, Tail(b))))
(* long division of a by b, from digit i down; r the remainder so far, q the quotient *)
DivM(a, b, i, r, q) ==
  IF i = 0 THEN <<Trim(q), r>>
  ELSE LET r1 == TLCEval(Trim(<<a[i]>> \o r))
           k == TLCEval(CHOOSE k \in 0..9 : ~MLt(r1, Trim(MulD(b, k, 0))) /\ MLt(r1, MulD(b, k + 1, 0)))
           r2 == TLCEval(MSub(r1, Trim(MulD(b, k, 0))))
       IN DivM(a, b, i - 1, r2, TLCEval(<<k>> \o q))
MDiv(a, b) == DivM(a, b, Len(a), <<>>, <<>>)

Neg(x) == Norm(~x.neg, x.d)
Add(x, y) == IF x.neg = y.neg THEN Norm(x.neg, MAdd(x.d, y.d))
             ELSE IF MLt(x.d, y.d) THEN Norm(y.neg, MSub(y.d, x.d)) ELSE Norm(x.neg, MSub(x.d, y.d))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Norm(x.neg # y.neg, MulM(x.d, y.d))
Quo(x, y) == Norm(x.neg # y.neg, MDiv(x.d, y.d)[1])
Rem(x, y) == Norm(x.neg, MDiv(x.d, y.d)[2])
Mod(x, y) == LET r == Rem(x, y) IN IF r.d # <<>> /\ r.neg # y.neg THEN Add(r, y) ELSE r
Lt(x, y) == IF x.neg # y.neg THEN x.neg ELSE IF x.neg THEN MLt(y.d, x.d) ELSE MLt(x.d, y.d)
Max64 == [neg |-> FALSE, d |-> <<7,0,8,5,7,7,4,5,8,6,3,0,2,7,3,3,2,2,9>>]
Min64 == [neg |-> TRUE, d |-> <<8,0,8,5,7,7,4,5,8,6,3,0,2,7,3,3,2,2,9>>]
Fits(x) == ~Lt(Max64, x) /\ ~Lt(x, Min64)

RECURSIVE Fold(_, _, _), Chain(_, _, _), QuoAll(_, _)
Fold(F(_, _), acc, xs) == IF xs = <<>> THEN acc ELSE Fold(F, TLCEval(F(acc, Head(xs))), Tail(xs))
(* dividing stops at a quotient out of range (unspecified) or a zero divisor *)
QuoAll(acc, xs) == IF xs = <<>> THEN <<"num", acc>>
                   ELSE IF Head(xs).d = <<>> THEN <<"stop", "division by zero">>
                   ELSE LET q == TLCEval(Quo(acc, Head(xs))) IN IF Fits(q) THEN QuoAll(q, Tail(xs)) ELSE <<"any">>
Chain(R(_, _), xs, i) == i >= Len(xs) \/ (R(xs[i], xs[i + 1]) /\ Chain(R, xs, i + 1))

Num(x) == IF Fits(x) THEN <<"num", x>> ELSE <<"any">>
Bool(b) == <<"bool", b>>
Le(x, y) == ~Lt(y, x)
Gt(x, y) == Lt(y, x)
Ge(x, y) == ~Lt(x, y)
Eq(x, y) == x = y
Calc(o, xs) ==
  CASE o = "+" -> Num(Fold(Add, Zero, xs))
    [] o = "-" -> Num(IF Len(xs) = 1 THEN Neg(xs[1]) ELSE Fold(Sub, xs[1], Tail(xs)))
    [] o = "*" -> Num(Fold(Mul, One, xs))
    [] o = "/" -> IF Len(xs) = 1 THEN QuoAll(One, xs) ELSE QuoAll(xs[1], Tail(xs))
    [] o = "add1" -> Num(Add(xs[1], One))
    [] o = "sub1" -> Num(Sub(xs[1], One))
    [] o = "remainder" -> IF xs[2].d = <<>> THEN <<"stop", "division by zero">> ELSE Num(Rem(xs[1], xs[2]))
    [] o = "modulo" -> IF xs[2].d = <<>> THEN <<"stop", "division by zero">> ELSE Num(Mod(xs[1], xs[2]))
    [] o = "=" -> Bool(Chain(Eq, xs, 1))
    [] o = "<" -> Bool(Chain(Lt, xs, 1))
    [] o = ">" -> Bool(Chain(Gt, xs, 1))
    [] o = "<=" -> Bool(Chain(Le, xs, 1))
    [] o = ">=" -> Bool(Chain(Ge, xs, 1))
    [] o = "zero?" -> Bool(xs[1].d = <<>>)
    [] o \in {"negative?", "negative-integer?"} -> Bool(xs[1].neg)
    [] o \in {"positive?", "positive-integer?"} -> Bool(~xs[1].neg /\ xs[1].d # <<>>)
    [] o \in {"non-negative?", "non-negative-integer?"} -> Bool(~xs[1].neg)
    [] o \in {"eq?", "equal?", "eqv?"} -> Bool(xs[1] = xs[2])

AStart(s) == 0
(* every calculation is independent: an error is a result, not the end of the script *)
AStep(st0, op) == <<st0, LET r == TLCEval(Calc(op.op, op.args)) IN IF r[1] = "stop" THEN <<"error", r[2]>> ELSE r>>

(* the specification's own laws, checked on the operands of every script *)
DivisionIdentity == (pos = 0) => \A i \in DOMAIN Ops :
  LET o == Ops[i] IN o.op \in {"remainder", "modulo"} /\ o.args[2].d # <<>> =>
    LET x == o.args[1] y == o.args[2] q == Quo(x, y) r == Rem(x, y) m == Mod(x, y)
    IN /\ Add(Mul(q, y), r) = x
       /\ MLt(r.d, y.d) /\ MLt(m.d, y.d)
       /\ (r.d # <<>> => r.neg = x.neg) /\ (m.d # <<>> => m.neg = y.neg)
       /\ Rem(Sub(x, m), y) = Zero
RingLaws == (pos = 0) => \A i \in DOMAIN Ops :
  LET o == Ops[i] IN o.op = "*" /\ Len(o.args) = 3 =>
    LET x == o.args[1] y == o.args[2] z == o.args[3]
    IN Mul(x, Add(y, z)) = Add(Mul(x, y), Mul(x, z)) /\ Sub(Add(x, y), y) = x /\ Mul(x, y) = Mul(y, x)
=============================================================================
