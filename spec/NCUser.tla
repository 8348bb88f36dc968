------------------------------- MODULE NCUser -------------------------------
(* The descriptions of variables the user has in a file of his own beside those of *)
(* the control: when the file is read, what is said while it cannot be, and whose   *)
(* description a variable gets.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Versions == DOMAIN In.files             \* what the file can be: [k, keys, ranges]
Asked == DOMAIN In.asked                \* variables that are asked for: [key, id]
SetOf(s) == {s[i] : i \in DOMAIN s}
None == 0

Readable(v) == In.files[v].k = "good"
VARIABLES file, known, h
vars == <<file, known, h>>

\* descriptions of a variable: its own, the user's before the control's; else one of a range it lies in
Source(u, src) == IF src = "user" THEN In.files[u] ELSE In.control
Own(u, src, q) == q.key \in SetOf(Source(u, src).keys)
InRange(u, src, q) == {<<src, r.key>> : r \in {r \in SetOf(Source(u, src).ranges) : r.a <= q.id /\ q.id <= r.b}}
\* a key the user describes is no longer the control's, nor is its range
Covered(u, d) == {x \in d : ~(x[1] = "control" /\ x[2] \in SetOf(In.files[u].keys))}
Describe(u, q) ==
  IF u = None THEN {}
  ELSE IF Own(u, "user", q) THEN {<<"user", q.key>>}
  ELSE IF Own(u, "control", q) THEN {<<"control", q.key>>}
  ELSE Covered(u, InRange(u, "user", q) \cup InRange(u, "control", q))
Labels(u) == IF u = None THEN {} ELSE {<<"user", k>> : k \in SetOf(In.files[u].keys)} \cup {<<"control", k>> : k \in SetOf(In.control.keys)}

Init == \E v \in Versions : file = v /\ known = None /\ h = <<[a |-> "write", v |-> v, q |-> 0, d |-> {}, n |-> None]>>
\* the file is read with a document until that succeeds; from then on it is as it was then
Open == LET n == IF known # None THEN known ELSE IF Readable(file) THEN file ELSE None
        IN known' = n /\ UNCHANGED file /\ h' = Append(h, [a |-> "open", v |-> file, q |-> 0, d |-> {}, n |-> n])
Hover(q) == UNCHANGED <<file, known>> /\ h' = Append(h, [a |-> "hover", v |-> file, q |-> q, d |-> Describe(known, In.asked[q]), n |-> known])
Resolve(q) == UNCHANGED <<file, known>> /\ h' = Append(h, [a |-> "resolve", v |-> file, q |-> q, d |-> Describe(known, In.asked[q]), n |-> known])
Complete == UNCHANGED <<file, known>> /\ h' = Append(h, [a |-> "complete", v |-> file, q |-> 0, d |-> Labels(known), n |-> known])
Write(v) == v # file /\ file' = v /\ UNCHANGED known /\ h' = Append(h, [a |-> "write", v |-> v, q |-> 0, d |-> {}, n |-> known])
Opened == \E k \in DOMAIN h : h[k].a = "open"
Next == IF Len(h) > In.depth THEN FALSE
        ELSE IF h[Len(h)].a = "write" /\ ~Opened THEN Open
        ELSE Open \/ Complete \/ (\E q \in Asked : Hover(q) \/ Resolve(q)) \/ (IF h[Len(h)].a = "write" THEN FALSE ELSE \E v \in Versions : Write(v))
Spec == Init /\ [][Next]_vars

\* the user goes before the control, and what both do not describe nobody does
UserFirst == \A u \in {v \in Versions : Readable(v)} : \A q \in Asked :
  /\ Own(u, "user", In.asked[q]) => Describe(u, In.asked[q]) = {<<"user", In.asked[q].key>>}
  /\ Own(u, "control", In.asked[q]) => Describe(u, In.asked[q]) # {}
  /\ \A x \in Describe(u, In.asked[q]) : x[2] \in SetOf(Source(u, x[1]).keys)
\* an empty file of the user changes nothing
EmptyIsNone == \A u \in {v \in Versions : Readable(v) /\ In.files[v].keys = <<>>} : \A q \in Asked :
  \A x \in Describe(u, In.asked[q]) : x[1] = "control"
\* nothing is described before a file could be read; afterwards nothing changes
Steady == \A k \in DOMAIN h : k < Len(h) /\ h[k].n # None => h[k + 1].n = h[k].n
NoGuess == \A k \in DOMAIN h : h[k].n = None => h[k].d = {}
WasThere == \A k \in DOMAIN h : h[k].n # None => Readable(h[k].n) /\ \E j \in 1..k : h[j].a = "write" /\ h[j].v = h[k].n
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Emitted == Len(h) = In.depth + 1 => PrintT("USR " \o ToJson([k \in DOMAIN h |-> [h[k] EXCEPT !.d = SeqOf(@)]]))
=============================================================================
