------------------------------- MODULE NCShow -------------------------------
(* What is visible from outside after a step.                                     *)
EXTENDS NCMachine

RECURSIVE EnvSeq(_, _)
EnvSeq(env, ids) == IF ids = {} THEN <<>>
                    ELSE LET x == CHOOSE x \in ids : \A y \in ids : x <= y
                         IN <<<<x, env[x]>>>> \o EnvSeq(env, ids \ {x})

Show(s) == [ok |-> s.ok, err |-> s.err, ran |-> s.ran, w |-> s.w, f |-> s.f, wait |-> s.wait, rate |-> s.rate, names |-> SeqOf(s.names),
            pos |-> [a \in DOMAIN s.st.path.pos |-> s.st.path.pos[a]], tool |-> s.st.path.tool,
            units |-> s.st.units, env |-> EnvSeq(s.st.env, DOMAIN s.st.env)]
NoStep == <<>>
=============================================================================
