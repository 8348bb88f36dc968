------------------------------ MODULE NCScript ------------------------------
(* Runs programs through the machine: every program is a behaviour of it, one     *)
(* step per block. What each step shows is written to a file per program and      *)
(* compared with what the real code shows for the same program.                   *)
EXTENDS NCProps, NCShow, Json, IOUtils

In   == JsonDeserialize(IOEnv.NC_IN)
Out_ == IOEnv.NC_OUT
Configs == In.configs
Scripts == In.scripts

VARIABLES n, k, st, prev, last, outs
vars == <<n, k, st, prev, last, outs>>

Cfg(i) == Configs[Scripts[i].c]
Blocks(i) == Scripts[i].b

Init == /\ n \in 1..Len(Scripts)
        /\ k = 0
        /\ st = MachineInit(Cfg(n))
        /\ prev = st /\ last = NoStep
        /\ outs = <<>>

Next == \/ /\ k < Len(Blocks(n))
           /\ LET s == Step(Cfg(n), st, Blocks(n)[k + 1])
              IN /\ st' = s.st /\ prev' = st /\ last' = s
                 /\ outs' = Append(outs, Show(s))
                 /\ k' = k + 1 /\ UNCHANGED n
                 /\ k' = Len(Blocks(n)) => JsonSerialize(Out_ \o "/" \o ToString(n) \o ".json", outs')

Spec == Init /\ [][Next]_vars
View == <<n, k>>

TypeOK == StateOK(Cfg(n), st)
Stepped == k > 0
Conf == Cfg(n)
Blk == Blocks(n)[k]
I_StraightIsDistance == Stepped => StraightIsDistance(Conf, prev, Blk, last)
I_ModesPersist == Stepped => ModesPersist(Conf, prev, Blk, last)
I_OnlyWordsMove == Stepped => OnlyWordsMove(Conf, prev, Blk, last)
I_RejectedRests == Stepped => RejectedRests(Conf, prev, Blk, last)
I_ArcsJoin == Stepped => ArcsJoin(Conf, prev, Blk, last)
I_HelixInForce == Stepped => HelixInForce(Conf, prev, Blk, last)
I_DrillReturns == Stepped => DrillReturns(Conf, prev, Blk, last)
I_DrillRepeats == Stepped => DrillRepeats(Conf, prev, Blk, last)
I_CancelForgets == Stepped => CancelForgets(Conf, prev, Blk, last)
I_CycleKeeps == Stepped => CycleKeeps(Conf, prev, Blk, last)
I_RateForCuts == Stepped => RateForCuts(Conf, prev, Blk, last)
I_Measured == Stepped => Measured(Conf, prev, Blk, last)
I_ToolByExchange == Stepped => ToolByExchange(Conf, prev, Blk, last)
I_SpindleOnce == Stepped => SpindleOnce(Conf, prev, Blk, last)
I_InTravel == Stepped => InTravel(Conf, prev, Blk, last)
I_UnitsByCode == Stepped => UnitsByCode(Conf, prev, Blk, last)
I_SameAsLiteral == Stepped => SameAsLiteral(Conf, prev, Blk, last)
I_UndefinedRests == Stepped => UndefinedRests(Conf, prev, Blk, last)
I_SystemByWord == Stepped => SystemByWord(Conf, prev, Blk, last)
I_Constants == Stepped => Constants(Conf, prev, Blk, last)
=============================================================================
