----------------------------- MODULE NCExprTour -----------------------------
(* All sequences of tokens of an alphabet up to a length that can still become an *)
(* expression, each of them with every token after it; what they mean is written  *)
(* for the harness. Longer sequences come from outside (scripts).                 *)
EXTENDS NCExpr, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Alphabet == In.alphabet
Scripts == In.scripts

VARIABLES h, toks, m
vars == <<h, toks, m>>

Show(s) == LET e == Parse(s) IN [ok |-> e.ok, def |-> Defined(s), p |-> e.p]
Machine(s) == LET RECURSIVE Run(_, _)
                  Run(q, i) == IF i > Len(s) THEN q ELSE Run(Read(q, s[i]), i + 1)
              IN Run(Start, 1)

Init == \/ h = <<>> /\ toks = <<>> /\ m = Start
        \/ \E n \in 1..Len(Scripts) :
             /\ h = <<-n>> /\ toks = Scripts[n] /\ m = Machine(Scripts[n])
             /\ PrintT("EXPR " \o ToJson([h |-> h, o |-> Show(toks)]))

Next == /\ Len(h) < In.depth /\ m.mode # "dead" /\ (IF h = <<>> THEN TRUE ELSE h[1] > 0)
        /\ \E i \in 1..Len(Alphabet) :
             /\ h' = Append(h, i) /\ toks' = Append(toks, Alphabet[i]) /\ m' = Read(m, Alphabet[i])
             /\ PrintT("EXPR " \o ToJson([h |-> h', o |-> Show(toks')]))

Spec == Init /\ [][Next]_vars

\* the machine and the grammar say the same
Agree == /\ Accepts(m) = Parse(toks).ok
         /\ Accepts(m) => Result(m) = Parse(toks).p
\* what was read can be printed and read again
RoundTrip == Parse(toks).ok => Parse(Written(Parse(toks).p, <<>>)).p = Parse(toks).p
\* brackets around the whole change nothing; a sign in front is carried out last of its factor
Bracketed == Parse(toks).ok => Parse(<<LB>> \o toks \o <<RB>>).p = Parse(toks).p
\* every operand and operator is carried out exactly once
Count(s, k) == Len(SelectSeq(s, LAMBDA t : t.k = k))
Complete == Parse(toks).ok =>
  /\ Count(Parse(toks).p, "val") = Count(toks, "val") /\ Count(Parse(toks).p, "mul") = Count(toks, "mul")
  /\ Count(Parse(toks).p, "add") + Count(Parse(toks).p, "sign") = Count(toks, "add")
  /\ Count(Parse(toks).p, "fn") = Count(toks, "fn")
=============================================================================
