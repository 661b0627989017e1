-------------------------------- MODULE Stack --------------------------------
(* The segmented control stack: frames of words laid out in segments of        *)
(* SegSize words, growing into a new segment when a frame with its announced   *)
(* arguments would not fit and returning to the previous segment when the      *)
(* first frame of a segment returns.  The specification it must implement is   *)
(* the unbounded stack `abs`: a sequence of frames, each a sequence of words.  *)
(*   Save     - save-cc: push a frame (return point) after the current words   *)
(*   Hint(k)  - check-stack: announce k words; may move to a new segment       *)
(*   Arg      - push one announced word                                        *)
(*   Return   - ret: drop the current frame, resume the previous one           *)
EXTENDS Integers, Sequences
CONSTANTS SegSize, Slop, MaxDepth, MaxArgs, MaxWords
VARIABLES abs,      \* <<frame, ...>>, frame = sequence of words; the last is current
          seg,      \* current segment: [mem, link]
          sfp,      \* index in mem of the current frame (1-based)
          ac,       \* words of the current frame
          ann,      \* announced words still to come
          conts,    \* saved continuations: <<sfp, ac>>
          next      \* next fresh word
vars == <<abs, seg, sfp, ac, ann, conts, next>>

Blank(n) == [i \in 1..n |-> 0]
Esp == Len(seg.mem) - Slop

Init == /\ abs = << <<>> >> /\ seg = [mem |-> Blank(SegSize), link |-> <<>>]
        /\ sfp = 1 /\ ac = 0 /\ ann = 0 /\ conts = <<>> /\ next = 1

Save == /\ Len(abs) < MaxDepth /\ ann = 0
        /\ abs' = Append(abs, <<>>)
        /\ conts' = Append(conts, <<sfp, ac>>)
        /\ sfp' = sfp + 1 + ac /\ ac' = 0
        /\ UNCHANGED <<seg, ann, next>>

Hint(k) ==
  /\ ann = 0
  /\ ann' = k
  /\ LET req == 1 + ac + k
     IN IF sfp + req - 1 >= Esp
        THEN \* a new segment for the current frame, which must not hold words yet
             /\ ac = 0
             /\ seg' = [mem |-> Blank((IF req + Slop > SegSize THEN req + Slop ELSE SegSize)),
                        link |-> <<seg, IF conts = <<>> THEN <<0, 0>> ELSE conts[Len(conts)]>>]
             /\ sfp' = 1
        ELSE UNCHANGED <<seg, sfp>>
  /\ UNCHANGED <<abs, ac, conts, next>>

Arg == /\ ann > 0
       /\ seg' = [seg EXCEPT !.mem = [@ EXCEPT ![sfp + ac] = next]]
       /\ abs' = [abs EXCEPT ![Len(abs)] = Append(@, next)]
       /\ next' = next + 1 /\ ac' = ac + 1 /\ ann' = ann - 1
       /\ UNCHANGED <<sfp, conts>>

Return == /\ Len(abs) > 1 /\ ann = 0
          /\ abs' = SubSeq(abs, 1, Len(abs) - 1)
          /\ LET c == conts[Len(conts)]
             IN sfp' = c[1] /\ ac' = c[2]
          /\ conts' = SubSeq(conts, 1, Len(conts) - 1)
          /\ seg' = IF sfp = 1 /\ seg.link # <<>> THEN seg.link[1] ELSE seg
          /\ UNCHANGED <<ann, next>>

Next == Save \/ Arg \/ Return \/ \E k \in 0..MaxArgs : Hint(k)

InBounds == sfp + ac + ann <= Len(seg.mem) + 1 /\ sfp >= 1
(* the current frame always holds exactly the words pushed in it, in order *)
Intact == [i \in 1..ac |-> seg.mem[sfp + i - 1]] = abs[Len(abs)]
Bounded == next <= MaxWords
=============================================================================
