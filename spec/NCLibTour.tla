----------------------------- MODULE NCLibTour ------------------------------
(* All sessions with the library over an alphabet of requests up to a length.     *)
EXTENDS NCLibrary, Json, IOUtils

In   == JsonDeserialize(IOEnv.NC_IN)
Cases == In.cases                  \* each [c, bare, alphabet, depth]
Cfg(i) == In.configs[i]

VARIABLES n, h, lib, prev, last
vars == <<n, h, lib, prev, last>>

Q(i) == LET q == Cases[n].alphabet[i] IN [q EXCEPT !.l = Len(h) + 1]

Init == /\ n \in 1..Len(Cases)
        /\ h = <<>>
        /\ lib = LibInit(Cfg(Cases[n].c), Cases[n].bare)
        /\ prev = lib /\ last = NoStep
        /\ PrintT("EDGE " \o ToJson([n |-> n, h |-> h, t |-> ToString(<<Len(h), lib>>), o |-> <<>>]))

Next == /\ Len(h) < Cases[n].depth
        /\ \E i \in 1..Len(Cases[n].alphabet) :
             LET r == Request(lib, Q(i), Cfg)
             IN /\ lib' = r.l /\ prev' = lib /\ last' = r.s
                /\ h' = Append(h, i) /\ UNCHANGED n
                /\ PrintT("EDGE " \o ToJson([n |-> n, h |-> h', t |-> ToString(<<Len(h'), r.l>>), o |-> LibShow(Q(i), r), hist |-> HistSeq(r.l.hist, DOMAIN r.l.hist)]))

Spec == Init /\ [][Next]_vars
View == <<n, Len(h), lib>>

B == Cases[n].alphabet[h'[Len(h')]]
TypeOK == StateOK(lib.c, lib.st)
I_RangeHolds == RangeHolds(lib)
I_HistHolds == HistHolds(lib)
I_HistKnown == HistKnown(lib)
I_RangeWidens == [][RangeWidens(lib, B, lib')]_vars
I_ResetIsStart == [][ResetIsStart(lib, B, lib')]_vars
I_FewerJudges == [][FewerJudges(lib, B, last')]_vars
I_OnlyRead == [][OnlyRead(lib, B, last')]_vars
I_NothingMoves == [][NothingMoves(lib, B, lib', last') /\ OnceKnown(lib, lib')]_vars
=============================================================================
