---------------------------- MODULE NCHoverTour -----------------------------
(* All lines of up to depth characters with what hovering at each place shows,    *)
(* and documents from outside with places.                                        *)
EXTENDS NCHover, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Out_ == IOEnv.NC_OUT
Docs == In.docs             \* [c configuration, ls lines, chars per line, at places per line, tabs]
SetOf(s) == {s[i] : i \in DOMAIN s}
Tabs == [i \in DOMAIN In.tabs |-> [g |-> SetOf(In.tabs[i].g), m |-> SetOf(In.tabs[i].m), macros |-> SetOf(In.tabs[i].macros), ranges |-> In.tabs[i].ranges]]
EnvOf(s) == [id \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = id][2]]
TourEnv == EnvOf(In.env)

VARIABLES n, h, st, res
vars == <<n, h, st, res>>
Line_ == [k \in DOMAIN h |-> In.alphabet[h[k]]]

Init == /\ n \in (IF Len(In.alphabet) > 0 THEN {0} ELSE {}) \cup 1..Len(Docs)
        /\ h = <<>> /\ st = (IF n = 0 THEN 0 ELSE MachineInit(In.configs[Docs[n].c])) /\ res = <<>>
Grow(i) ==
  LET l == Append(Line_, In.alphabet[i]) IN
  /\ h' = Append(h, i) /\ UNCHANGED <<n, st, res>>
  /\ PrintT("HOV " \o ToJson([h |-> h', r |-> [p \in 1..(Off(l, Len(l) + 1) + 1) |-> Hover(l, p - 1, TourEnv, Tabs[1])]]))
Read(k) ==
  LET d == Docs[n] r == ReadLine(In.configs[d.c], st, d.ls[k], k - 1) IN
  /\ h' = Append(h, k) /\ UNCHANGED n /\ st' = r.st
  /\ res' = Append(res, [j \in DOMAIN d.at[k] |-> Hover(d.chars[k], d.at[k][j], r.st.env, Tabs[d.tabs])])
  /\ IF k = Len(d.ls) THEN JsonSerialize(Out_ \o "/" \o ToString(n) \o ".json", res') ELSE TRUE
Next == \/ n = 0 /\ Len(h) < In.depth /\ \E i \in DOMAIN In.alphabet : Grow(i)
        \/ n > 0 /\ (IF Len(h) < Len(Docs[n].ls) THEN Read(Len(h) + 1) ELSE FALSE)
Spec == Init /\ [][Next]_vars
View == <<n, h>>

I_InWord == n = 0 => InWord(Line_, TourEnv, Tabs[1])
I_SameWord == n = 0 => SameWord(Line_, TourEnv, Tabs[1])
I_EndIsNothing == n = 0 => EndIsNothing(Line_, TourEnv, Tabs[1])
I_SpaceSeparates == n = 0 => SpaceSeparates(Line_, TourEnv, Tabs[1])
I_ZerosDoNotCount == n = 0 => ZerosDoNotCount(Line_, TourEnv, Tabs[1])
=============================================================================
