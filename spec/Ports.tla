-------------------------------- MODULE Ports --------------------------------
(* Files and string ports as character sequences.                              *)
(*   files - sequence of contents                                              *)
(*   ports - [dir "in"/"out", str, file (0 for string ports), buf, pos, open]  *)
(*           buf: what an input port delivers, or what an output port holds    *)
(* Port 1 is the standard input, port 2 the standard output.                   *)
EXTENDS Script
PStart(s) == [files |-> [f \in 1..s.files |-> <<>>],
              ports |-> <<[dir |-> "in", str |-> FALSE, file |-> 0, buf |-> s.stdin, pos |-> 0, open |-> TRUE],
                          [dir |-> "out", str |-> FALSE, file |-> 0, buf |-> <<>>, pos |-> 0, open |-> TRUE]>>]
EOF == -1
Stop(m) == <<"stop", m>>
Ok(x) == <<"ok", x>>

(* ---- data as read: simple tokens, lists of them, strings of letters; anything else is "other" *)
Letter == 97..122
Digit == 48..57
Space == {32, 10, 9}
Delim == Space \cup {40, 41, 34, 59, EOF}
At(b, p) == IF p < Len(b) THEN b[p + 1] ELSE EOF
RECURSIVE SkipSp(_, _), TokEnd(_, _), StrEnd(_, _), Datum(_, _), Items(_, _, _)
SkipSp(b, p) == IF At(b, p) \in Space THEN SkipSp(b, p + 1) ELSE p
TokEnd(b, p) == IF At(b, p) \in Letter \cup Digit THEN TokEnd(b, p + 1) ELSE p
StrEnd(b, p) == IF At(b, p) \in Letter \cup {32} THEN StrEnd(b, p + 1) ELSE p
Res(k, t, p) == [k |-> k, t |-> t, p |-> p]
Datum(b, p0) ==
  LET p == SkipSp(b, p0)
      c == At(b, p)
  IN CASE c = EOF -> Res("eof", <<>>, p)
       [] c \in Letter -> LET e == TokEnd(b, p) IN IF At(b, e) \in Delim THEN Res("datum", SubSeq(b, p + 1, e), e) ELSE Res("other", <<>>, p)
       [] c \in Digit -> LET e == TokEnd(b, p)
                             t == SubSeq(b, p + 1, e)
                         IN IF At(b, e) \in Delim /\ Len(t) < 10 /\ (t[1] # 48 \/ Len(t) = 1) /\ \A i \in DOMAIN t : t[i] \in Digit
                            THEN Res("datum", t, e) ELSE Res("other", <<>>, p)
       [] c = 34 -> LET e == StrEnd(b, p + 1)
                    IN IF At(b, e) = 34 THEN Res("datum", SubSeq(b, p + 1, e + 1), e + 1)
                       ELSE IF At(b, e) = EOF THEN Res("error", <<>>, e) ELSE Res("other", <<>>, p)
       [] c = 40 -> Items(b, p + 1, <<>>)
       [] c = 41 -> Res("error", <<>>, p)
       [] OTHER -> Res("other", <<>>, p)
Items(b, p0, acc) ==        \* acc: text of the items so far
  LET p == SkipSp(b, p0)
  IN IF At(b, p) = 41 THEN Res("datum", <<40>> \o acc \o <<41>>, p + 1)
     ELSE LET r == Datum(b, p)
          IN CASE r.k = "eof" -> Res("error", <<>>, p)
               [] r.k = "datum" -> Items(b, r.p, acc \o (IF acc = <<>> THEN <<>> ELSE <<32>>) \o r.t)
               [] OTHER -> r

SetPort(s, i, p) == [s EXCEPT !.ports[i] = p]
RECURSIVE Times(_, _)
Times(t, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN t ELSE LET h == TLCEval(Times(t, n \div 2)) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o t
(* characters put on a port; the standard output's appear in the result *)
Put(s, i, t) == IF ~s.ports[i].open \/ s.ports[i].dir # "out" THEN <<s, Stop("port")>>
                ELSE IF i = 2 THEN <<s, <<"out", t>>>>
                ELSE <<SetPort(s, i, [s.ports[i] EXCEPT !.buf = @ \o t]), Ok(<<>>)>>
(* what is on an output port reaches its file *)
Store(s, i) == IF s.ports[i].file = 0 THEN s ELSE [s EXCEPT !.files[s.ports[i].file] = s.ports[i].buf]
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumW(_, _, _)
SumW(b, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN (b[lo] * (1 + (lo % 7))) ELSE LET m == TLCEval((lo + hi) \div 2) IN SumW(b, lo, m) + SumW(b, m + 1, hi)
Num(n) == <<"num", n>>

PStep(s, op) ==
  LET o == op.op
      i == op.p
      p == TLCEval(s.ports[op.p])
      in(f) == IF ~p.open \/ p.dir # "in" THEN <<s, Stop("port")>> ELSE f
      move(n) == SetPort(s, i, [p EXCEPT !.pos = n])
  IN CASE o = "openout" -> <<[s EXCEPT !.files[op.f] = <<>>, !.ports = Append(@, [dir |-> "out", str |-> FALSE, file |-> op.f, buf |-> <<>>, pos |-> 0, open |-> TRUE])], Ok(<<>>)>>
       [] o = "openin" -> <<[s EXCEPT !.ports = Append(@, [dir |-> "in", str |-> FALSE, file |-> op.f, buf |-> s.files[op.f], pos |-> 0, open |-> TRUE])], Ok(<<>>)>>
       [] o = "strout" -> <<[s EXCEPT !.ports = Append(@, [dir |-> "out", str |-> TRUE, file |-> 0, buf |-> <<>>, pos |-> 0, open |-> TRUE])], Ok(<<>>)>>
       [] o = "strin" -> <<[s EXCEPT !.ports = Append(@, [dir |-> "in", str |-> TRUE, file |-> 0, buf |-> op.t, pos |-> 0, open |-> TRUE])], Ok(<<>>)>>
       [] o = "put" -> Put(s, i, op.t)
       [] o = "putn" -> Put(s, i, Times(op.t, op.n))
       [] o = "sub" -> IF ~(op.start \in 0..Len(op.t)) \/ ~(op.n \in 0..(Len(op.t) - op.start)) THEN <<s, Stop("range")>>
                       ELSE Put(s, i, SubSeq(op.t, op.start + 1, op.start + op.n))
       [] o = "flush" -> IF ~p.open \/ p.dir # "out" THEN <<s, Stop("port")>> ELSE <<Store(s, i), Ok(<<>>)>>
       [] o = "get" -> IF ~p.open \/ p.dir # "out" \/ ~p.str THEN <<s, Stop("port")>>
                       ELSE <<SetPort(s, i, [p EXCEPT !.buf = <<>>]), <<"ok", p.buf>>>>
       [] o = "close" -> IF ~p.open \/ p.dir # op.dir THEN <<s, Stop("port")>>
                         ELSE <<[(IF p.dir = "out" THEN Store(s, i) ELSE s) EXCEPT !.ports[i].open = FALSE], Ok(<<>>)>>
       [] o = "read-char" -> in(<<move(Min(p.pos + 1, Len(p.buf))), Num(At(p.buf, p.pos))>>)
       [] o = "peek-char" -> in(<<s, Num(At(p.buf, p.pos))>>)
       [] o = "char-ready?" -> in(<<s, Num(IF p.pos < Len(p.buf) THEN 1 ELSE 0)>>)
       [] o = "readn" ->       \* op.n characters: their number and a weighted sum of those delivered
            in(LET e == TLCEval(Min(p.pos + op.n, Len(p.buf))) IN <<move(e), <<"two", e - p.pos, SumW(TLCEval(SubSeq(p.buf, p.pos + 1, e)), 1, e - p.pos)>>>>)
       [] o = "read" -> in(LET r == Datum(p.buf, p.pos)
                           IN CASE r.k = "eof" -> <<move(r.p), Num(EOF)>>
                                [] r.k = "datum" -> <<move(r.p), Ok(r.t)>>
                                [] r.k = "error" -> <<s, Stop("read")>>
                                [] OTHER -> <<s, <<"skip">>>>)
PortsOK == \A i \in DOMAIN st.ports : st.ports[i].pos <= Len(st.ports[i].buf)
=============================================================================
