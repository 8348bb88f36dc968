--------------------------- MODULE NCSessionTour ----------------------------
(* All sequences of messages of an alphabet (up to a depth, with the laws) or,    *)
(* with the view of the cases "graph", all transitions of the session; and        *)
(* scripts from outside.                                                          *)
EXTENDS NCSession, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Alphabet == In.alphabet
Scripts == In.scripts
Uris == 1..In.uris
Graph == In.graph           \* transitions of the state graph, else histories

VARIABLES s, h, ms, said
vars == <<s, h, ms, said>>

Number(m, k) == [m EXCEPT !.n = k]
Take(m, i) ==
  LET q == Number(m, Len(h) + 1) r == React(s, q) IN
  /\ s' = r.s /\ h' = Append(h, i)
  /\ ms' = Append(ms, q) /\ said' = Append(said, r.out)
  /\ IF Graph THEN PrintT("EDGE " \o ToJson([h |-> h', s |-> s, t |-> r.s, o |-> r.out])) ELSE TRUE

Init == /\ s = Boot(Uris) /\ h = <<>> /\ ms = <<>> /\ said = <<>>
Walk == /\ Len(h) < In.depth /\ (IF h = <<>> THEN TRUE ELSE h[1] > 0)
        /\ \E i \in DOMAIN Alphabet : Take(Alphabet[i], i)
Script == \/ /\ h = <<>> /\ \E k \in DOMAIN Scripts : Len(Scripts[k]) > 0 /\
               LET q == Number(Scripts[k][1], 1) r == React(s, q) IN
               s' = r.s /\ h' = <<-k>> /\ ms' = <<q>> /\ said' = <<r.out>>
          \/ /\ (IF h = <<>> THEN FALSE ELSE h[1] < 0) /\ Len(ms) < Len(Scripts[-h[1]])
             /\ LET q == Number(Scripts[-h[1]][Len(ms) + 1], Len(ms) + 1) r == React(s, q) IN
                /\ s' = r.s /\ h' = h /\ ms' = Append(ms, q) /\ said' = Append(said, r.out)
                /\ Len(ms') = Len(Scripts[-h[1]]) => PrintT("SCRIPT " \o ToJson([k |-> -h[1], o |-> said']))
Next == Walk \/ Script
Spec == Init /\ [][Next]_vars
View == IF Graph THEN <<s, IF h = <<>> THEN 0 ELSE IF h[1] < 0 THEN h[1] ELSE 1, IF h = <<>> THEN 0 ELSE IF h[1] < 0 THEN Len(ms) ELSE 0>> ELSE <<ms, h, 0>>

I_OneReplyEach == OneReplyEach(ms, said)
I_DiagnosticsEach == DiagnosticsEach(ms, said)
I_CurrentText == CurrentText(ms, said)
I_SilentLeavesNothing == SilentLeavesNothing(Uris, ms, said)
I_OthersLeaveNothing == OthersLeaveNothing(Uris, ms, said)
=============================================================================
