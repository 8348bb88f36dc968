----------------------------- MODULE NCSettings -----------------------------
(* The settings file over the life of a server: when it is read, when that fails   *)
(* and whose values documents, hovers and completions are judged by.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Fields == In.fields                     \* [path, kind] of each value of the file
Wholes == 1..2                          \* two good files of different machines
Unset == 0                              \* nothing is known of the settings

\* ways in which one value can be wrong.  Any text is a text; which axes a machine
\* and its points have is up to the file, so only the numbers of those must be right.
Faults(kind) == CASE kind = "text" -> {"missing"} [] kind = "group" -> {"missing"} [] kind = "entry" -> {"word", "part", "empty"}
                  [] kind = "whole" -> {"missing", "word", "part", "empty", "fraction"} [] OTHER -> {"missing", "word", "part", "empty"}
Whole(w) == [k |-> "whole", w |-> w, i |-> 0, f |-> ""]
Broken == {[k |-> "broken", w |-> w, i |-> i, f |-> f] : w \in Wholes, i \in DOMAIN Fields, f \in {"missing", "word", "part", "empty", "fraction"}}
Absent == [k |-> "absent", w |-> 0, i |-> 0, f |-> ""]
Nonsense == [k |-> "nonsense", w |-> 0, i |-> 0, f |-> ""]
Files == {Whole(w) : w \in Wholes} \cup {b \in Broken : b.f \in Faults(Fields[b.i].kind)} \cup {Absent, Nonsense}
Again == {Whole(1), Whole(2), Absent} \cup {b \in Files : b.k = "broken" /\ b.w = 2 /\ b.i = In.some /\ b.f = "word"}

Readable(f) == f.k = "whole"

VARIABLES file, known, h
vars == <<file, known, h>>
Init == \E f \in Files : file = f /\ known = Unset /\ h = <<[a |-> "write", f |-> f, s |-> Unset]>>

\* what is known when the next answer is given: the file is read at most once with success
Known == IF known # Unset THEN known ELSE IF Readable(file) THEN file.w ELSE Unset
Ask(a) == /\ known' = Known /\ UNCHANGED file /\ h' = Append(h, [a |-> a, f |-> Absent, s |-> Known])
Write(f) == /\ f # file /\ file' = f /\ UNCHANGED known /\ h' = Append(h, [a |-> "write", f |-> f, s |-> known])
Next == IF Len(h) > In.depth THEN FALSE
        ELSE (\E a \in {"open", "hover", "complete"} : Ask(a)) \/ (IF h[Len(h)].a = "write" THEN FALSE ELSE \E f \in Again : Write(f))
Spec == Init /\ [][Next]_vars

\* nothing is said by settings that were never whole in the file, and nothing said is taken back
Asked(k) == h[k].a # "write"
NoGuess == \A k \in DOMAIN h : h[k].s # Unset => \E j \in 1..k : h[j].a = "write" /\ h[j].f = Whole(h[k].s)
Steady == \A k \in DOMAIN h : k < Len(h) /\ h[k].s # Unset => h[k + 1].s = h[k].s
Blamed == \A k \in DOMAIN h : Asked(k) /\ h[k].s = Unset => \A j \in 1..k : (h[j].a = "write" /\ \A i \in j + 1..k : h[i].a # "write") => ~Readable(h[j].f)
Emitted == Len(h) = In.depth + 1 => PrintT("SET " \o ToJson(h))
=============================================================================
