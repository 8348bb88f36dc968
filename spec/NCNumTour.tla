----------------------------- MODULE NCNumTour ------------------------------
(* Numbering the blocks of a program one after the other (T03): all programs of   *)
(* blocks of an alphabet for every setting, and programs from outside.            *)
EXTENDS NCText, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Blocks == In.blocks            \* the alphabet
Settings == In.settings        \* records of NCText with the first number as start
Scripts == In.scripts          \* [s |-> setting, p |-> <<blocks>>]

VARIABLES c, h, prog, out, st
vars == <<c, h, prog, out, st>>

Set == IF c > 0 THEN Settings[c] ELSE Scripts[-c].s
Init == /\ \/ c \in 1..Len(Settings) /\ prog = <<>>
           \/ \E n \in 1..Len(Scripts) : c = -n /\ prog = <<>>
        /\ h = <<>> /\ out = <<>>
        /\ st = [n |-> Set.start, pos |-> 0]
Apply(b) == LET r == Numbered(Set, st, b) IN /\ out' = Append(out, r.b) /\ st' = r.st /\ prog' = Append(prog, b)
Done == IF c > 0 THEN Len(h') = In.depth ELSE Len(h') = Len(Scripts[-c].p)
Next == /\ IF c > 0 THEN Len(h) < In.depth /\ \E i \in 1..Len(Blocks) : h' = Append(h, i) /\ Apply(Blocks[i])
           ELSE Len(h) < Len(Scripts[-c].p) /\ h' = Append(h, Len(h) + 1) /\ Apply(Scripts[-c].p[Len(h) + 1])
        /\ UNCHANGED c
        /\ Done => PrintT("NUM " \o ToJson([c |-> c, h |-> h', o |-> out']))
Spec == Init /\ [][Next]_vars

\* the block k was given a number: it is longer than without one
Numbering(k) == TakesNumber(Set, prog[k]) /\ Len(out[k]) > Len(NoNumber(prog[k]))
\* apart from the numbers nothing changes
OnlyNumbers == \A k \in DOMAIN out : IF Numbering(k) THEN Tail(out[k]) = NoNumber(prog[k]) ELSE IF TakesNumber(Set, prog[k]) THEN out[k] = NoNumber(prog[k]) ELSE out[k] = prog[k]
\* the numbers given are start, start + step, ... and start again from the first one when the maximum is passed
Given == SelectSeq([k \in DOMAIN out |-> IF Numbering(k) THEN Val(out[k][1].i) ELSE -1], LAMBDA n : n >= 0)
Sequence == /\ Given # <<>> => Given[1] = Set.start
            /\ \A k \in 1..Len(Given) - 1 : Given[k + 1] = IF Given[k] + Set.step > Set.max THEN First(Set.word) ELSE Given[k] + Set.step
Within == Set.start <= Set.max => \A k \in DOMAIN Given : Given[k] <= Set.max
\* one of each group of freq blocks that take a number has one, the first
Every == LET t == SelectSeq([k \in DOMAIN out |-> IF ~TakesNumber(Set, prog[k]) THEN -1 ELSE IF Numbering(k) THEN 1 ELSE 0], LAMBDA n : n >= 0)
             g == IF Set.freq < 2 THEN 1 ELSE Set.freq
         IN \A k \in DOMAIN t : t[k] = IF (k - 1) % g = 0 THEN 1 ELSE 0
\* numbering again with the same settings gives the same numbers (if nothing else is numbered)
Again == Set.freq < 2 /\ Set.word = "N" => LET RECURSIVE Run(_, _, _)
                              Run(p, s, k) == IF k > Len(p) THEN <<>> ELSE LET r == Numbered(Set, s, p[k]) IN <<r.b>> \o Run(p, r.st, k + 1)
                          IN Run(out, [n |-> Set.start, pos |-> 0], 1) = out
=============================================================================
