---------------------------- MODULE NCLibScript -----------------------------
(* Sessions with the library, each a behaviour of NCLibrary.                      *)
EXTENDS NCLibrary, Json, IOUtils

In   == JsonDeserialize(IOEnv.NC_IN)
Out_ == IOEnv.NC_OUT
Scripts == In.scripts              \* each [c, bare, q]: the first machine and the requests
Cfg(i) == In.configs[i]

VARIABLES n, k, lib, prev, last, outs
vars == <<n, k, lib, prev, last, outs>>

Init == /\ n \in 1..Len(Scripts)
        /\ k = 0
        /\ lib = LibInit(Cfg(Scripts[n].c), Scripts[n].bare)
        /\ prev = lib /\ last = NoStep
        /\ outs = <<>>

Next == /\ k < Len(Scripts[n].q)
        /\ LET q == Scripts[n].q[k + 1]
               r == Request(lib, q, Cfg)
           IN /\ lib' = r.l /\ prev' = lib /\ last' = r.s
              /\ outs' = Append(outs, LibShow(q, r))
              /\ k' = k + 1 /\ UNCHANGED n
              /\ k' = Len(Scripts[n].q) =>
                   JsonSerialize(Out_ \o "/" \o ToString(n) \o ".json", [o |-> outs', hist |-> HistSeq(r.l.hist, DOMAIN r.l.hist)])

Spec == Init /\ [][Next]_vars
View == <<n, k>>

Q == Scripts[n].q[k]
TypeOK == StateOK(lib.c, lib.st)
I_RangeHolds == RangeHolds(lib)
I_HistHolds == HistHolds(lib)
I_HistKnown == HistKnown(lib)
I_RangeWidens == k > 0 => RangeWidens(prev, Q, lib)
I_ResetIsStart == k > 0 => ResetIsStart(prev, Q, lib)
I_FewerJudges == k > 0 => FewerJudges(prev, Q, last)
I_OnlyRead == k > 0 => OnlyRead(prev, Q, last)
I_NothingMoves == k > 0 => NothingMoves(prev, Q, lib, last) /\ OnceKnown(prev, lib)
=============================================================================
