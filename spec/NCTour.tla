------------------------------- MODULE NCTour -------------------------------
(* Explores every sequence of blocks of an alphabet up to a length, for every     *)
(* configuration given, and writes each transition of the state graph: from, the  *)
(* block, to and what it shows. The harness walks all of them on the real code.   *)
EXTENDS NCProps, NCShow, Json, IOUtils

In   == JsonDeserialize(IOEnv.NC_IN)
Cases == In.cases              \* each [c, alphabet, depth]

VARIABLES n, h, st, last, blk
vars == <<n, h, st, last, blk>>

Init == /\ n \in 1..Len(Cases)
        /\ h = <<>>
        /\ st = MachineInit(Cases[n].c)
        /\ last = NoStep /\ blk = <<>>
        /\ PrintT("EDGE " \o ToJson([n |-> n, h |-> h, t |-> ToString(st), o |-> <<>>]))

Next == /\ Len(h) < Cases[n].depth
        /\ \E i \in 1..Len(Cases[n].alphabet) :
             LET s == Step(Cases[n].c, st, Cases[n].alphabet[i])
             IN /\ st' = s.st /\ last' = s /\ blk' = Cases[n].alphabet[i]
                /\ h' = Append(h, i) /\ UNCHANGED n
                /\ PrintT("EDGE " \o ToJson([n |-> n, h |-> h', t |-> ToString(s.st), o |-> Show(s)]))

Spec == Init /\ [][Next]_vars
View == <<n, st>>

TypeOK == StateOK(Cases[n].c, st)
Conf == Cases[n].c
I_StraightIsDistance == [][StraightIsDistance(Conf, st, blk', last')]_vars
I_ModesPersist == [][ModesPersist(Conf, st, blk', last')]_vars
I_OnlyWordsMove == [][OnlyWordsMove(Conf, st, blk', last')]_vars
I_RejectedRests == [][RejectedRests(Conf, st, blk', last')]_vars
I_ArcsJoin == [][ArcsJoin(Conf, st, blk', last')]_vars
I_HelixInForce == [][HelixInForce(Conf, st, blk', last')]_vars
I_DrillReturns == [][DrillReturns(Conf, st, blk', last')]_vars
I_DrillRepeats == [][DrillRepeats(Conf, st, blk', last')]_vars
I_CancelForgets == [][CancelForgets(Conf, st, blk', last')]_vars
I_CycleKeeps == [][CycleKeeps(Conf, st, blk', last')]_vars
I_RateForCuts == [][RateForCuts(Conf, st, blk', last')]_vars
I_Measured == [][Measured(Conf, st, blk', last')]_vars
I_ToolByExchange == [][ToolByExchange(Conf, st, blk', last')]_vars
I_SpindleOnce == [][SpindleOnce(Conf, st, blk', last')]_vars
I_InTravel == [][InTravel(Conf, st, blk', last')]_vars
I_UnitsByCode == [][UnitsByCode(Conf, st, blk', last')]_vars
I_SameAsLiteral == [][SameAsLiteral(Conf, st, blk', last')]_vars
I_UndefinedRests == [][UndefinedRests(Conf, st, blk', last')]_vars
I_SystemByWord == [][SystemByWord(Conf, st, blk', last')]_vars
I_Constants == [][Constants(Conf, st, blk', last')]_vars
=============================================================================
