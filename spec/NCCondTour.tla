----------------------------- MODULE NCCondTour -----------------------------
(* All sequences of tokens of an alphabet up to a length that are not broken yet, *)
(* with every token after them; longer ones come from outside (scripts).          *)
EXTENDS NCCond, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
VARIABLES h, toks, m
vars == <<h, toks, m>>

Machine(s) == LET RECURSIVE Run(_, _)
                  Run(q, i) == IF i > Len(s) THEN q ELSE Run(Read(q, s[i]), i + 1)
              IN Run(Start, 1)
Show(q, s) == [c |-> Verdict(q, s, FALSE), v |-> Verdict(q, s, TRUE)]

Init == \/ h = <<>> /\ toks = <<>> /\ m = Start
        \/ \E n \in 1..Len(In.scripts) :
             /\ h = <<-n>> /\ toks = In.scripts[n] /\ m = Machine(In.scripts[n])
             /\ PrintT("COND " \o ToJson([h |-> h, o |-> Show(m, toks)]))
Next == /\ Len(h) < In.depth /\ m.want # "dead" /\ (IF h = <<>> THEN TRUE ELSE h[1] > 0)
        /\ \E i \in 1..Len(In.alphabet) :
             /\ h' = Append(h, i) /\ toks' = Append(toks, In.alphabet[i]) /\ m' = Read(m, In.alphabet[i])
             /\ PrintT("COND " \o ToJson([h |-> h', o |-> Show(m', toks')]))
Spec == Init /\ [][Next]_vars

\* the machine and the positions say the same
Agree == (End(m) = "whole") = Whole(toks)
\* what is reported lacks a bracket or an operand, wherever it is
Lacks == End(m) = "broken" => ~Pairs(toks) \/ ~Operands(toks)
\* a whole value stays whole with brackets around it, and without its last bracket it is broken
Wrap == End(m) = "whole" =>
  /\ Whole(<<[k |-> "[", x |-> "["]>> \o toks \o <<[k |-> "]", x |-> "]"]>>)
  /\ End(Machine(SubSeq(toks, 1, Len(toks) - 1))) = "broken"
=============================================================================
