-------------------------------- MODULE Reader --------------------------------
(* The reader as a pushdown machine over character codes.  A datum is kept as   *)
(* its canonical text: what write prints for it.  Every text of texts.json is   *)
(* an initial state; the machine reads data until the end of input or an error. *)
(*   pos   - characters consumed          stack - enclosing unfinished data     *)
(*   out   - data read so far, each with the position reached after it          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT QuoteSyntax        \* what #' abbreviates
Texts == JsonDeserialize("texts.json")
VARIABLES tid, pos, stack, out, status
vars == <<tid, pos, stack, out, status>>

Text == Texts[tid]
N == Len(Text)
EOF == -1
At(p) == IF p < N THEN Text[p + 1] ELSE EOF     \* character after p consumed ones

Space == {9, 10, 11, 12, 13, 32}
Closing == {41, 93, 125}
Delim == Space \cup Closing \cup {40, 91, 123, 34, 59, EOF}
Digit == 48..57
Match(o, c) == (o = 40 /\ c = 41) \/ (o = 91 /\ c = 93) \/ (o = 123 /\ c = 125)

(* ---- data: text, and for pairs and the empty list the text between the parentheses *)
Atom(t) == [text |-> t, kind |-> "atom", inner |-> <<>>]
RECURSIVE Join(_)
Join(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1].text ELSE Head(ts).text \o <<32>> \o Join(Tail(ts))
Pair(inner) == [text |-> <<40>> \o inner \o <<41>>, kind |-> "pair", inner |-> inner]
Null == [text |-> <<40, 41>>, kind |-> "null", inner |-> <<>>]
List(items) == IF items = <<>> THEN Null ELSE Pair(Join(items))
Improper(items, tail) ==
  Pair(Join(items) \o (CASE tail.kind = "null" -> <<>>
                         [] tail.kind = "pair" -> <<32>> \o tail.inner
                         [] OTHER -> <<32, 46, 32>> \o tail.text))
Vec(items) == Atom(<<35, 40>> \o Join(items) \o <<41>>)
Prefixed(word, d) == Pair(word \o <<32>> \o d.text)
Quote == <<113, 117, 111, 116, 101>>

(* ---- numbers *)
RECURSIVE FirstNonZero(_, _), Less(_, _)
FirstNonZero(ds, i) == IF i = Len(ds) \/ ds[i] # 0 THEN i ELSE FirstNonZero(ds, i + 1)
Strip(ds) == SubSeq(ds, FirstNonZero(ds, 1), Len(ds))
Less(a, b) == IF a = <<>> THEN FALSE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
MaxMag == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinMag == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
TooBig(ds, m) == Len(ds) > Len(m) \/ (Len(ds) = Len(m) /\ Less(m, ds))
RECURSIVE MulAdd(_, _)      \* ds * 16 + c on decimal digits, most significant first
MulAdd(ds, c) == IF ds = <<>> THEN (IF c = 0 THEN <<>> ELSE MulAdd(<<>>, c \div 10) \o <<c % 10>>)
                 ELSE LET x == ds[Len(ds)] * 16 + c
                      IN MulAdd(SubSeq(ds, 1, Len(ds) - 1), x \div 10) \o <<x % 10>>
RECURSIVE FromHex(_, _)
FromHex(hs, acc) == IF hs = <<>> THEN (IF acc = <<>> THEN <<0>> ELSE acc) ELSE FromHex(Tail(hs), MulAdd(acc, Head(hs)))
Strict(f) == TLCEval(f)
Number(neg, ds) == IF TooBig(Strip(ds), IF neg THEN MinMag ELSE MaxMag) THEN "range" ELSE "ok"
Codes(d) == Strict([i \in DOMAIN d |-> 48 + d[i]])
NumText(neg, ds) == IF neg /\ \E i \in DOMAIN ds : ds[i] # 0 THEN <<45>> \o Codes(Strip(ds)) ELSE Codes(Strip(ds))
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> 16

(* ---- characters and strings, as written *)
Names == (0 :> <<110,117,108>>) @@ (7 :> <<97,108,97,114,109>>) @@ (8 :> <<98,97,99,107,115,112,97,99,101>>)
  @@ (9 :> <<116,97,98>>) @@ (10 :> <<110,101,119,108,105,110,101>>) @@ (11 :> <<118,116,97,98>>)
  @@ (12 :> <<112,97,103,101>>) @@ (13 :> <<114,101,116,117,114,110>>) @@ (27 :> <<101,115,99>>)
  @@ (32 :> <<115,112,97,99,101>>) @@ (127 :> <<100,101,108,101,116,101>>)
LineFeed == <<108,105,110,101,102,101,101,100>>   \* another name of 10
CharText(c) == <<35, 92>> \o (IF c \in DOMAIN Names THEN Names[c] ELSE <<c>>)
Spelled == {<<Names[c], c>> : c \in DOMAIN Names} \cup {<<LineFeed, 10>>}
Escapes == (7 :> 97) @@ (8 :> 98) @@ (9 :> 116) @@ (10 :> 110) @@ (11 :> 118) @@ (12 :> 102) @@ (13 :> 114) @@ (34 :> 34) @@ (92 :> 92)
Escaped == (97 :> 7) @@ (98 :> 8) @@ (116 :> 9) @@ (110 :> 10) @@ (118 :> 11) @@ (102 :> 12) @@ (114 :> 13) @@ (34 :> 34) @@ (92 :> 92) @@ (39 :> 39)
RECURSIVE StrText(_)
StrText(cs) ==
  IF Len(cs) < 2 THEN (IF cs # <<>> /\ Head(cs) \in DOMAIN Escapes THEN <<92, Escapes[Head(cs)]>> ELSE cs)
  ELSE StrText(SubSeq(cs, 1, Len(cs) \div 2)) \o StrText(SubSeq(cs, Len(cs) \div 2 + 1, Len(cs)))

(* ---- scanning; each operator returns a position (characters consumed) or a record *)
RECURSIVE TokenEnd(_), LineEnd(_), BlockEnd(_, _, _), Str(_, _)
TokenEnd(p) == IF At(p) \in Delim THEN p ELSE TokenEnd(p + 1)
LineEnd(p) == IF At(p) \in {10, EOF} THEN p ELSE LineEnd(p + 1)
BlockEnd(p, prev, lvl) ==         \* -1 when the comment does not end
  LET c == At(p)
  IN IF c = EOF THEN -1
     ELSE IF prev = 35 /\ c = 124 THEN BlockEnd(p + 1, 0, lvl + 1)
     ELSE IF prev = 124 /\ c = 35 THEN (IF lvl = 1 THEN p + 1 ELSE BlockEnd(p + 1, 0, lvl - 1))
     ELSE BlockEnd(p + 1, c, lvl)
Str(p, acc) ==
  LET c == At(p)
  IN CASE c = EOF -> [ok |-> FALSE, p |-> p, cs |-> acc]
       [] c = 34 -> [ok |-> TRUE, p |-> p + 1, cs |-> acc]
       [] c = 92 -> (IF At(p + 1) \in DOMAIN Escaped THEN Str(p + 2, Append(acc, Escaped[At(p + 1)])) ELSE [ok |-> FALSE, p |-> p, cs |-> acc])
       [] OTHER -> Str(p + 1, Append(acc, c))

(* ---- transitions *)
Top == stack[Len(stack)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Frame(k, o) == [kind |-> k, open |-> o, items |-> <<>>, dot |-> 0, tail |-> Null]

Fail == /\ status' = "error" /\ UNCHANGED <<tid, pos, stack, out>>
Skip(p) == /\ pos' = p /\ UNCHANGED <<tid, stack, out, status>>
Push(p, f) == /\ pos' = p /\ stack' = Append(stack, f) /\ UNCHANGED <<tid, out, status>>

(* a datum is complete: it goes to the enclosing one *)
RECURSIVE Settle(_, _)
Settle(s, d) ==   \* <<stack, completed top-level data, ok>>
  IF s = <<>> THEN <<s, <<d>>, TRUE>>
  ELSE LET f == s[Len(s)]
           r == Pop(s)
       IN CASE f.kind = "quote" -> Settle(r, Prefixed(Quote, d))
            [] f.kind = "qs" -> Settle(r, Prefixed(QuoteSyntax, d))
            [] f.kind = "box" -> Settle(r, Atom(<<35, 38>> \o d.text))
            [] f.kind = "skip" -> <<r, <<>>, TRUE>>
            [] f.dot = 0 -> <<Append(r, [f EXCEPT !.items = Append(@, d)]), <<>>, TRUE>>
            [] f.dot = 1 -> <<Append(r, [f EXCEPT !.dot = 2, !.tail = d]), <<>>, TRUE>>
            [] OTHER -> <<s, <<>>, FALSE>>
Deliver(p, s, d) ==
  LET q == Settle(s, d)
  IN IF ~q[3] THEN Fail
     ELSE /\ pos' = p /\ stack' = q[1] /\ UNCHANGED <<tid, status>>
          /\ out' = out \o [i \in DOMAIN q[2] |-> [text |-> q[2][i].text, pos |-> p]]

Close(c) ==
  IF stack = <<>> \/ Top.kind \notin {"list", "vec"} \/ Top.dot = 1 \/ ~Match(Top.open, c) THEN Fail
  ELSE Deliver(pos + 1, Pop(stack), CASE Top.kind = "vec" -> Vec(Top.items)
                                      [] Top.dot = 2 -> Improper(Top.items, Top.tail)
                                      [] OTHER -> List(Top.items))

Char(p) ==            \* p: after #\
  LET c == At(p)
      n == {s \in Spelled : s[1][1] = c /\ s[1][2] = At(p + 1)}
  IN IF c = EOF THEN Fail
     ELSE IF n # {} THEN
       LET s == CHOOSE s \in n : TRUE
           e == p + Len(s[1])
       IN IF (\A i \in DOMAIN s[1] : At(p + i - 1) = s[1][i]) /\ At(e) \in Delim THEN Deliver(e, stack, Atom(CharText(s[2])))
          ELSE Fail
     ELSE IF At(p + 1) \in Delim THEN Deliver(p + 1, stack, Atom(CharText(c))) ELSE Fail

Signed(t) == t # <<>> /\ t[1] \in {43, 45}
Unsigned(t) == IF Signed(t) THEN Tail(t) ELSE t
Numeral(e, neg, v) ==  \* v: decimal digits
  IF Number(neg, v) = "range" THEN Fail ELSE Deliver(e, stack, Atom(NumText(neg, v)))
(* the singleton sets bind evaluated values *)
Token(p) ==           \* a number or a symbol
  \E e \in {TokenEnd(p)} : \E t \in {SubSeq(Text, p + 1, e)} : \E ds \in {Unsigned(t)} :
    IF ds # <<>> /\ \A i \in DOMAIN ds : ds[i] \in Digit
    THEN \E v \in {Strict([i \in DOMAIN ds |-> ds[i] - 48])} : Numeral(e, t[1] = 45, v)
    ELSE Deliver(e, stack, Atom(t))

Hex(p) ==
  \E e \in {TokenEnd(p)} : \E t \in {SubSeq(Text, p + 1, e)} : \E ds \in {Unsigned(t)} :
    IF ds = <<>> THEN Fail
    ELSE IF \A i \in DOMAIN ds : HexVal(ds[i]) < 16
    THEN \E h \in {Strict([i \in DOMAIN ds |-> HexVal(ds[i])])} : \E v \in {FromHex(h, <<>>)} : Numeral(e, t[1] = 45, v)
    ELSE Deliver(e, stack, Atom(t))

Hash(c) ==
  CASE c = 37 -> LET e == TokenEnd(pos) IN Deliver(e, stack, Atom(SubSeq(Text, pos + 1, e)))
    [] c = 116 -> Deliver(pos + 2, stack, Atom(<<35, 116>>))
    [] c = 102 -> Deliver(pos + 2, stack, Atom(<<35, 102>>))
    [] c = 92 -> Char(pos + 2)
    [] c = 39 -> Push(pos + 2, Frame("qs", 0))
    [] c = 40 -> Push(pos + 2, Frame("vec", 40))
    [] c = 38 -> Push(pos + 2, Frame("box", 0))
    [] c = 120 -> Hex(pos + 2)
    [] c = 59 -> Push(pos + 2, Frame("skip", 0))
    [] c = 124 -> LET e == BlockEnd(pos + 2, 0, 1) IN IF e = -1 THEN Fail ELSE Skip(e)
    [] OTHER -> Fail

Read ==
  LET c == At(pos)
  IN CASE c = EOF -> IF stack = <<>> THEN status' = "eof" /\ UNCHANGED <<tid, pos, stack, out>> ELSE Fail
       [] c \in Space -> Skip(pos + 1)
       [] c = 59 -> Skip(LineEnd(pos + 1))
       [] c \in Closing -> Close(c)
       [] c = 35 -> Hash(At(pos + 1))
       [] c = 34 -> LET r == Str(pos + 1, <<>>) IN IF r.ok THEN Deliver(r.p, stack, Atom(<<34>> \o StrText(r.cs) \o <<34>>)) ELSE Fail
       [] c \in {40, 91, 123} -> Push(pos + 1, Frame("list", c))
       [] c = 39 -> Push(pos + 1, Frame("quote", 0))
       [] c = 46 /\ At(pos + 1) \in Space /\ stack # <<>> /\ Top.kind = "list" /\ Top.items # <<>> /\ Top.dot = 0 ->
            /\ stack' = [stack EXCEPT ![Len(stack)].dot = 1] /\ pos' = pos + 1 /\ UNCHANGED <<tid, out, status>>
       [] OTHER -> Token(pos)

Init == tid \in DOMAIN Texts /\ pos = 0 /\ stack = <<>> /\ out = <<>> /\ status = "reading"
Next == status = "reading" /\ Read
Report == status # "reading" => PrintT(ToJson([id |-> tid, out |-> out, status |-> status, left |-> N - pos]))

(* ---- the machine always makes progress and leaves nothing open *)
Bounded == pos <= N /\ \A i \in DOMAIN out : out[i].pos <= pos
Complete == status = "eof" => stack = <<>> /\ pos = N
=============================================================================
