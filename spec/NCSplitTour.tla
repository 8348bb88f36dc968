---------------------------- MODULE NCSplitTour -----------------------------
EXTENDS NCSplit, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Blocks == In.blocks            \* the alphabet
Wishes == In.wishes
Scripts == In.scripts          \* [w |-> wish, p |-> <<blocks>>]

VARIABLES c, h, s, prog
vars == <<c, h, s, prog>>

Wish == IF c > 0 THEN Wishes[c] ELSE Scripts[-c].w
Init == /\ c \in (1..Len(Wishes)) \cup {-n : n \in 1..Len(Scripts)}
        /\ h = <<>> /\ prog = <<>> /\ s = SplitInit(1)
Apply(b) == prog' = Append(prog, b) /\ s' = Step(Wish, s, b, Len(h) + 1)
Done == IF c > 0 THEN TRUE ELSE Len(h') = Len(Scripts[-c].p)
Next == /\ IF c > 0 THEN Len(h) < In.depth /\ \E i \in 1..Len(Blocks) : h' = Append(h, i) /\ Apply(Blocks[i])
           ELSE Len(h) < Len(Scripts[-c].p) /\ h' = Append(h, Len(h) + 1) /\ Apply(Scripts[-c].p[Len(h) + 1])
        /\ UNCHANGED c
        /\ Done => PrintT("SPLIT " \o ToJson([c |-> c, h |-> h', o |-> s'.parts, n |-> Numbers(s'.parts, prog', Wish.rnum, 1)]))
Spec == Init /\ [][Next]_vars

Own(part) == SelectSeq(part, LAMBDA k : k # 0)
RECURSIVE Flat(_)
Flat(x) == IF x = <<>> THEN <<>> ELSE Own(x[1]) \o Flat(Tail(x))
\* nothing lost, repeated or reordered
Whole == Flat(s.parts) = [k \in 1..Len(prog) |-> k]
\* retract blocks at the seams and nowhere else
Seams == \A n \in DOMAIN s.parts :
  LET q == s.parts[n]
      want == (IF Wish.retract /\ n > 1 THEN <<0>> ELSE <<>>) \o Own(q) \o (IF Wish.retract /\ n < Len(s.parts) THEN <<0>> ELSE <<>>)
  IN q = want
\* sums over a part, without its last k blocks
Amount(k) == CASE Wish.type = "blocks" -> 1 [] Wish.type = "path" -> prog[k].path [] OTHER -> prog[k].time
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Amount(q[1]) + Sum(Tail(q))
InCycle(k) == \E j \in 1..k - 1 : prog[j].mot = 81 /\ \A i \in j + 1..k - 1 : prog[i].mot = -1
May(k) == /\ prog[k].mot # 80 /\ ~(prog[k].mot = -1 /\ InCycle(k))
          /\ Wish.rapid => \E j \in 1..k : prog[j].mot = 0 /\ \A i \in j + 1..k : prog[i].mot = -1
Firsts == {Own(s.parts[n])[1] : n \in {m \in 2..Len(s.parts) : Own(s.parts[m]) # <<>>}}
\* a part starts at the first block that may start one once the limit is reached, not earlier and not later
Limits == Wish.type \in {"blocks", "path", "time"} => \A n \in DOMAIN s.parts :
  LET q == Own(s.parts[n])
  IN /\ n < Len(s.parts) => Sum(q) >= Wish.limit /\ May(Own(s.parts[n + 1])[1])
     /\ \A k \in 2..Len(q) : Sum(SubSeq(q, 1, k - 1)) < Wish.limit \/ ~May(q[k])
Tools == Wish.type = "tool" => Firsts = {k \in DOMAIN prog : prog[k].tool /\ \E j \in 1..k - 1 : prog[j].tool}
Texts == Wish.type = "text" => Firsts = {k \in DOMAIN prog : prog[k].text}
=============================================================================
