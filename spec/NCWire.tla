------------------------------- MODULE NCWire -------------------------------
(* How messages are found in the stream of bytes: lines of a header up to an      *)
(* empty one, then as many bytes as the header said. A header that says no length *)
(* announces nothing.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Lines == {"length", "type", "other", "negative", "nonsense"}
Ends == {"crlf", "lf"}

\* a packet: lines of the header (the length is that of the body), how they end, and whether the stream ends within the body
VARIABLES packets, got, open
vars == <<packets, got, open>>
Says(ls) == LET k == {i \in DOMAIN ls : ls[i] \in {"length", "negative", "nonsense"}}
            IN k # {} /\ ls[CHOOSE i \in k : \A j \in k : j <= i] = "length"      \* the last one counts
Init == packets = <<>> /\ got = <<>> /\ open = TRUE
Headers == {<<>>} \cup {<<a>> : a \in Lines} \cup {<<a, b>> : a \in Lines, b \in Lines} \cup
           (IF In.three THEN {<<a, b, c>> : a \in Lines, b \in Lines, c \in Lines} ELSE {<<a, "length", c>> : a \in {"type", "other"}, c \in Lines})
Next == /\ open /\ Len(packets) < In.packets
        /\ \E ls \in Headers, e \in Ends, cut \in BOOLEAN :
             LET p == [ls |-> ls, e |-> e, cut |-> cut] IN
             /\ cut => Says(ls)
             /\ (Len(packets) > 0 /\ ~cut) => (Len(ls) <= 1 \/ In.three)     \* long headers where they matter
             /\ packets' = Append(packets, p)
             /\ got' = IF Says(ls) /\ ~cut THEN Append(got, Len(packets')) ELSE got
             /\ open' = ~cut
             /\ PrintT("WIRE " \o ToJson([p |-> packets', g |-> got']))
Spec == Init /\ [][Next]_vars

\* every message with its length is found, none is made up, in their order
Found == \A k \in DOMAIN packets : (\E i \in DOMAIN got : got[i] = k) <=> (Says(packets[k].ls) /\ ~packets[k].cut)
InOrder == \A i, j \in DOMAIN got : i < j => got[i] < got[j]
=============================================================================
