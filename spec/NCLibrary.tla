----------------------------- MODULE NCLibrary ------------------------------
(* The library as its clients use it through the flat interface (L01): one parser *)
(* kept over many programs, its settings and switches changed between blocks, its *)
(* totals and variables reset, the ranges the words have gone through and the     *)
(* variables by the line that gave them.                                          *)
(* The state is [c, st, rg, hist, bare]: c the machine in force, st as in         *)
(* NCMachine, bare while no settings of a machine were given: then nothing moves  *)
(* and what depends on the machine is not judged.                                 *)
(* rg word -> <<least, greatest>>, hist <<variable, line>> -> value.              *)
EXTENDS NCProps, NCShow


Widen(rg, pos) == [a \in DOMAIN pos |-> IF Has(rg, a)
                     THEN <<IF pos[a] < rg[a][1] THEN pos[a] ELSE rg[a][1], IF pos[a] > rg[a][2] THEN pos[a] ELSE rg[a][2]>>
                     ELSE <<pos[a], pos[a]>>]
Constant == (<<PI, -1>> :> 31416) @@ (<<EULER, -1>> :> 27183)
LibInit(c, bare) == [c |-> c, st |-> [MachineInit(c) EXCEPT !.units = IF bare THEN "mm" ELSE @],
                     rg |-> IF bare THEN <<>> ELSE Widen(<<>>, PathInit(c).pos), hist |-> Constant, bare |-> bare]
\* the machine as far as it is known
Known(l) == IF l.bare THEN [l.c EXCEPT !.sw.anal = FALSE, !.sw.zero = FALSE, !.calc = FALSE] ELSE l.c

\* the variables a block gives a value, be it the one they had
Writes(c, st, b) ==
  LET gr == Gram(c, st.units)
      env1 == Define(st.env, b)
      b2 == Subst(env1, b)
      rot == IF c.sw.anal THEN Rotation(c, st.rot, b2) ELSE [r |-> st.rot, ok |-> TRUE, missing |-> {}]
      defs == {b[i].id : i \in {i \in DOMAIN b : b[i].k = "def"}}
      sys == UNION {IF b2[i].k = "num" THEN SysIds(b2[i].a) ELSE {} : i \in DOMAIN b2}
      tools == IF TakesTool(c, b2) THEN ToolIds ELSE {}
  IN IF ~SyntaxOk(gr, b) \/ ~UniqueOk(gr, b) \/ ~c.sw.macro THEN {}
     ELSE IF ~DefsOk(st.env, b) THEN {}
     ELSE IF ~VarsKnown(env1, b) \/ (HasVar(b) /\ ~SyntaxOk(gr, b2)) THEN defs
     ELSE IF \/ c.sw.anal /\ ~LimitsOk(c, b2)
             \/ ~rot.ok
             \/ c.sw.groups /\ ~GroupsOk(c, b2)
             \/ ~HaasOk(c, b2)
             \/ ~c.calc
             \/ b = <<>> THEN defs \cup sys
     ELSE defs \cup sys \cup tools

LibParse(l, b, k) ==
  LET s == Step(Known(l), l.st, b)
      new == {<<id, k>> : id \in Writes(Known(l), l.st, b)}
  IN [l |-> [l EXCEPT !.st = s.st, !.rg = IF l.bare THEN @ ELSE Widen(@, s.st.path.pos),
                      !.hist = [x \in new |-> s.st.env[x[1]]] @@ @],
      s |-> s]
\* the tables of the words stay those the parser was made with
LibSettings(l, c) == LET n == [c EXCEPT !.gram = l.c.gram, !.gg = l.c.gg, !.mg = l.c.mg, !.haas = l.c.haas, !.sw = l.c.sw, !.calc = l.c.calc]
                     IN [l EXCEPT !.c = n, !.bare = FALSE, !.st.path = PathInit(n), !.st.units = n.def.units, !.rg = Widen(<<>>, PathInit(n).pos)]
LibSwitch(l, sw, calc) == [l EXCEPT !.c.sw = sw, !.c.calc = calc]
LibReset(l) == [l EXCEPT !.st.path = PathInit(l.c), !.rg = IF l.bare THEN @ ELSE Widen(<<>>, PathInit(l.c).pos)]
LibForget(l) == [l EXCEPT !.st.env = (PI :> 31416) @@ (EULER :> 27183), !.hist = Constant]

\* one request: [op, b, l, sw, calc, c]; the step it is, or none
Request(l, q, Cfg(_)) ==
  CASE q.op = "parse" -> LibParse(l, q.b, q.l)
    [] q.op = "settings" -> [l |-> LibSettings(l, Cfg(q.c)), s |-> NoStep]
    [] q.op = "switch" -> [l |-> LibSwitch(l, q.sw, q.calc), s |-> NoStep]
    [] q.op = "reset" -> [l |-> LibReset(l), s |-> NoStep]
    [] OTHER -> [l |-> LibForget(l), s |-> NoStep]

RECURSIVE HistSeq(_, _)
HistSeq(h, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<<<x[1], x[2], h[x]>>>> \o HistSeq(h, S \ {x})
LibShow(q, r) ==
  [op |-> q.op, s |-> IF q.op = "parse" THEN Show(r.s) ELSE <<>>, rg |-> r.l.rg, units |-> r.l.st.units,
   pos |-> r.l.st.path.pos, tool |-> r.l.st.path.tool, bare |-> r.l.bare]

(***************************** laws ********************************************)
\* where the tool stands lies in the range it went through
RangeHolds(l) == IF l.bare THEN l.rg = <<>> ELSE DOMAIN l.rg = DOMAIN l.st.path.pos /\ \A a \in DOMAIN l.rg : l.rg[a][1] <= l.st.path.pos[a] /\ l.st.path.pos[a] <= l.rg[a][2]
\* every variable has the value its last line gave it
HistHolds(l) == \A id \in DOMAIN l.st.env :
  LET S == {x \in DOMAIN l.hist : x[1] = id}
  IN S # {} /\ LET last == CHOOSE x \in S : \A y \in S : y[2] <= x[2] IN l.hist[last] = l.st.env[id]
HistKnown(l) == \A x \in DOMAIN l.hist : x[1] \in DOMAIN l.st.env
\* a range only widens but for a reset or other settings
RangeWidens(l, q, m) == q.op \in {"parse", "switch", "forget"} => \A a \in DOMAIN l.rg : Has(m.rg, a) /\ m.rg[a][1] <= l.rg[a][1] /\ m.rg[a][2] >= l.rg[a][2]
\* after a reset the next block is what it would be at the start, the variables, the units and the spindle as they are
ResetIsStart(l, q, m) == q.op = "reset" => m.st.path = MachineInit(l.c).path /\ m.st.env = l.st.env /\ m.st.units = l.st.units /\ m.st.rot = l.st.rot
\* what a switch turns off rejects nothing more, and what is accepted with it is the same without
FewerJudges(l, q, s) ==
  (q.op = "parse" /\ l.c.sw.macro /\ Known(l).calc) =>
    LET on == Step([l.c EXCEPT !.sw = [macro |-> TRUE, groups |-> TRUE, anal |-> TRUE, zero |-> TRUE]], l.st, q.b)
    IN on.ok => s.ok /\ s.w = on.w /\ s.f = on.f /\ s.wait = on.wait /\ s.st.path = on.st.path /\ s.st.env = on.st.env
\* without variables a block is only read
OnlyRead(l, q, s) == (q.op = "parse" /\ ~l.c.sw.macro) => s.st = l.st
\* without a machine nothing moves, nothing depends on the axes, and what a machine accepts is accepted
NothingMoves(l, q, m, s) ==
  l.bare => /\ m.bare <=> q.op # "settings"
            /\ m.bare => m.st.path = l.st.path /\ m.st.rot = l.st.rot
            /\ q.op = "parse" /\ Step(l.c, l.st, q.b).ok => s.ok
OnceKnown(l, m) == ~l.bare => ~m.bare
=============================================================================
