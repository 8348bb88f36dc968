----------------------------- MODULE NCDocTour ------------------------------
(* All documents of up to depth lines of an alphabet, with the laws, and          *)
(* documents from outside. What is expected of each goes to a file or is printed. *)
EXTENDS NCDoc, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Out_ == IOEnv.NC_OUT
Configs == In.configs
Alphabet == In.alphabet
Docs == In.docs             \* [c configuration, ls lines]

VARIABLES n, h, st, ds, shows
vars == <<n, h, st, ds, shows>>
\* n > 0: the document n; n < 0: documents of the alphabet with the configuration -n
Conf == IF n > 0 THEN Configs[Docs[n].c] ELSE Configs[-n]
Lines_ == IF n > 0 THEN SubSeq(Docs[n].ls, 1, Len(h)) ELSE [k \in DOMAIN h |-> Alphabet[h[k]]]

Init == /\ n \in (1..Len(Docs)) \cup (IF Len(Alphabet) > 0 THEN {-k : k \in DOMAIN Configs} ELSE {})
        /\ h = <<>> /\ st = MachineInit(Conf) /\ ds = <<>> /\ shows = <<>>
Grow(l, i) ==
  LET r == ReadLine(Conf, st, l, Len(h)) IN
  /\ h' = Append(h, i) /\ st' = r.st /\ ds' = ds \o r.diag
  /\ shows' = IF n > 0 THEN Append(shows, r.show) ELSE <<>>
  /\ UNCHANGED n
  /\ IF n < 0 THEN PrintT("DOC " \o ToJson([c |-> -n, h |-> h', d |-> ds'])) ELSE TRUE
  /\ (n > 0 /\ Len(h') = Len(Docs[n].ls)) => JsonSerialize(Out_ \o "/" \o ToString(n) \o ".json", [d |-> ds', s |-> shows'])
Next == \/ n < 0 /\ Len(h) < In.depth /\ \E i \in DOMAIN Alphabet : Grow(Alphabet[i], i)
        \/ n > 0 /\ (IF Len(h) < Len(Docs[n].ls) THEN Grow(Docs[n].ls[Len(h) + 1], Len(h) + 1) ELSE FALSE)
Spec == Init /\ [][Next]_vars
View == <<n, h>>

I_OnePerLine == OnePerLine(Lines_, ds)
I_InLine == InLine(Lines_, ds)
I_BlankShifts == n < 0 => BlankShifts(Conf, Lines_)
I_PrefixStays == n < 0 => PrefixStays(Conf, Lines_)
I_NoBlockLeavesNothing == n < 0 => NoBlockLeavesNothing(Conf, Lines_)
=============================================================================
