------------------------------- MODULE NCProps ------------------------------
(* What must hold of every single step of the machine, stated without the         *)
(* functions that compute the step: c the configuration, a the state before,      *)
(* b the block, s the result of Step. TLC checks these on every behaviour it      *)
(* explores, in NCTour exhaustively and in NCScript on the generated programs.    *)
EXTENDS NCMachine

Does(s) == s.ran /\ s.err = ""
Exchanges(c, d) == (c.def.tnum /\ d.hast) \/ (~c.def.tnum /\ d.m6)
OnlyChooses(c, d) == d.hast /\ ~Exchanges(c, d)
Goes(c, d) == Exchanges(c, d) \/ "28" \in d.other
At(p, a) == IF a \in DOMAIN p.pos THEN p.pos[a] ELSE 0

\* P01: a straight block adds the way between the positions, and in one kind only
StraightIsDistance(c, a, b, s) ==
  LET p == a.path  q == s.st.path  d == Said(c, Subst(s.st.env, b))
      diff(x) == At(q, x) - At(p, x)
      zx == \/ c.mtype = "lathe" \/ (c.mtype = "millturn" /\ q.plane = 18)
  IN (Does(s) /\ q.g \in {0, 1} /\ ~OnlyChooses(c, d) /\ (d.g # 80))
     => /\ s.w \o s.f = Line(diff("X"), diff("Y"), diff("Z"), IF zx /\ ~c.diam2x THEN 1 ELSE 0)
        /\ IF q.g = 0 THEN s.w = Zero ELSE s.f = Zero

\* P01: modes last until changed
ModesPersist(c, a, b, s) ==
  LET p == a.path  q == s.st.path  d == Said(c, Subst(s.st.env, b))
      keeps(x, said) == x = IF said # NONE THEN said ELSE x
  IN Does(s) =>
       /\ d.g = NONE /\ q.g # p.g => q.g = 0 /\ (Goes(c, d) \/ p.auto \/ p.g = 80)
       /\ d.plane = NONE => q.plane = p.plane
       /\ d.prog = NONE => q.prog = p.prog
       /\ d.fmode = NONE => q.fmode = p.fmode
       /\ d.ret = NONE => q.ret = p.ret
       /\ d.css = NONE => q.css = p.css
       /\ d.f = NONE => q.f = p.f
       /\ d.s = NONE => q.s = p.s
       /\ \/ d.plane = NONE \/ q.plane = d.plane
       /\ \/ d.prog = NONE \/ q.prog = d.prog

\* P01: an axis moves only by a word of the block or by a move to a machine point
OnlyWordsMove(c, a, b, s) ==
  LET p == a.path  q == s.st.path  d == Said(c, Subst(s.st.env, b))
  IN (Does(s) /\ ~Goes(c, d)) =>
       \A x \in DOMAIN q.pos : At(q, x) # At(p, x) => x \in DOMAIN d.vals /\ ~OfOther(x, d.other)

\* P01, M01: what the rules reject has no effect on the motion
RejectedRests(c, a, b, s) == ~s.ran => s.w = Zero /\ s.f = Zero /\ s.wait = 0 /\ s.st.path = a.path

\* P02: arcs are cut, from the position before to the one after
ArcsJoin(c, a, b, s) ==
  LET p == a.path  q == s.st.path  ax == Axes(q.plane)
  IN (Does(s) /\ q.g \in {2, 3}) =>
       /\ s.f = Zero
       /\ \A i \in DOMAIN s.w : s.w[i].op \in {"arcc", "arcr"} =>
            /\ s.w[i].a[1] = At(p, ax[1]) /\ s.w[i].a[2] = At(p, ax[2])
            /\ s.w[i].a[3] = At(q, ax[1]) /\ s.w[i].a[4] = At(q, ax[2])
       /\ Len(s.w) <= 1
HelixInForce(c, a, b, s) == s.st.path.helix # "none" => s.st.path.g \in {2, 3}

\* P03: a hole returns over its place, counts repeat whole holes, cancelling forgets the values
DrillReturns(c, a, b, s) ==
  LET p == a.path  q == s.st.path
  IN (Does(s) /\ q.g \in Drills) => At(q, Axes(q.plane)[3]) = At(p, Axes(q.plane)[3])
DrillRepeats(c, a, b, s) ==
  LET q == s.st.path  d == Said(c, Subst(s.st.env, b))  k == Get(d.vals, "K")
  IN (Does(s) /\ q.g \in Drills /\ k # NONE) =>
       /\ k = 0 => s.w = Zero
       /\ (q.prog = 91 /\ k > 0) => LET n == k \div SCALE
                                        one == Len(s.w) \div n
                                    IN \A i \in DOMAIN s.w : i > one => s.w[i] = s.w[i - one]
CancelForgets(c, a, b, s) ==
  LET d == Said(c, Subst(s.st.env, b))
  IN (Does(s) /\ d.g = 80) => s.st.path.first /\ s.w = Zero /\ s.f = Zero
CycleKeeps(c, a, b, s) ==
  LET p == a.path  q == s.st.path  d == Said(c, Subst(s.st.env, b))
  IN (Does(s) /\ q.g \in Drills /\ p.g \in Drills /\ ~p.first) =>
       \A x \in DOMAIN p.cyc : x \in DOMAIN q.cyc /\ (x \notin DOMAIN d.vals => q.cyc[x] = p.cyc[x])

\* P04: time is never negative, a cut has a rate, waiting needs a reason
RateForCuts(c, a, b, s) ==
  LET d == Said(c, Subst(s.st.env, b))
  IN /\ Does(s) /\ ~IsZero(s.w) /\ s.st.path.f > 0 =>
          (s.rate.k = "none" => s.st.path.s # NONE /\ s.st.path.s <= 0)
     /\ s.rate.k # "none" => s.rate.f > 0
     /\ s.wait # 0 => (d.hast \/ d.m6 \/ d.pallet \/ d.measure \/ "4" \in d.other)

\* P06: what a block adds to path and time is defined and not negative
Few(n, q) == n >= 0 /\ q > 0 /\ n <= 30 /\ q <= 200000
Fifths(p) == CASE p.op = "num" -> 5 * p.a[1]
               [] p.op = "peck" -> p.a[1] * p.a[2]
               [] p.op = "pecks" -> 5 * p.a[1] * (p.a[1] + 1) * p.a[2]
               [] OTHER -> 0
RECURSIVE AllFifths(_)
AllFifths(t) == IF t = <<>> THEN 0 ELSE Fifths(Head(t)) + AllFifths(Tail(t))
\* of the numbers in it, as far as they are small enough to be added up here
NotNegative(t) ==
  (\A i \in DOMAIN t : /\ (t[i].op = "num" => Abs(t[i].a[1]) <= 20000000)
                      /\ (t[i].op = "peck" => Few(Abs(t[i].a[1]), t[i].a[2]))
                      /\ (t[i].op = "pecks" => Few(t[i].a[1], t[i].a[2]))) /\ Len(t) <= 4
  => AllFifths(t) >= 0
Defined(p) == CASE p.op = "peck" -> p.a[1] = 0 \/ p.a[2] > 0
                [] p.op = "pecks" -> p.a[1] >= 0 /\ p.a[2] > 0
                [] p.op = "spiq" -> p.a[3] # 0 /\ (p.a[1] # 0 \/ p.a[2] # 0)
                [] p.op = "spil" -> p.a[1] # 0 \/ p.a[2] # 0
                [] OTHER -> TRUE
Measured(c, a, b, s) ==
  /\ s.wait >= 0
  /\ c.def.zval \/ (NotNegative(s.w) /\ NotNegative(s.f))     \* but for the finding P03-incremental-depth
  /\ \A i \in DOMAIN s.w : Defined(s.w[i])
  /\ \A i \in DOMAIN s.f : Defined(s.f[i])
  /\ s.rate.k = "none" \/ (s.rate.f > 0 /\ (s.rate.k = "min" \/ s.rate.s > 0))

\* P05: the tool changes only by an exchange
ToolByExchange(c, a, b, s) ==
  LET d == Said(c, Subst(s.st.env, b))
  IN s.st.path.tool # a.path.tool => s.ran /\ Exchanges(c, d) /\ d.hast

\* V03: the missing spindle is reported once
SpindleOnce(c, a, b, s) == (~c.def.operator /\ s.err = "rotation") => ~a.rot.e /\ s.st.rot.e

\* V04: accepted blocks leave every axis in its travel
InTravel(c, a, b, s) == (c.sw.zero /\ s.ok /\ s.ran /\ b # <<>>) => Outside(c, s.st.path) = {}

\* V01: units change only by G20 and G21
UnitsByCode(c, a, b, s) ==
  s.st.units # a.units => \E i \in DOMAIN b : b[i].a = "G"

\* M01: a block with variables is the block with their values
SameAsLiteral(c, a, b, s) ==
  LET env == s.st.env
      known == \A i \in DOMAIN b : b[i].k = "var" => Has(a.env, b[i].id)
      t == Step(c, a, Subst(a.env, b))
  IN (c.sw.macro /\ HasVar(b) /\ known /\ Defs(b) = <<>>) =>
       t.ok = s.ok /\ t.w = s.w /\ t.f = s.f /\ t.wait = s.wait /\ t.st.path = s.st.path
UndefinedRests(c, a, b, s) ==
  (c.sw.macro /\ \E i \in DOMAIN b : b[i].k = "var" /\ ~Has(a.env, b[i].id) /\ Defs(b) = <<>>) => ~s.ran /\ ~s.ok

\* M03: only its own words change a system variable
SystemByWord(c, a, b, s) ==
  \A x \in DOMAIN s.st.env : Get(a.env, x) # s.st.env[x] =>
    \/ x \in ToolIds /\ s.ran
    \/ \E i \in DOMAIN b : x \in SysIds(b[i].a)
    \/ \E i \in DOMAIN b : b[i].k = "def" /\ b[i].id = x
Constants(c, a, b, s) == (\A i \in DOMAIN b : b[i].k # "def") =>
  s.st.env[PI] = a.env[PI] /\ s.st.env[EULER] = a.env[EULER]

StateOK(c, s) ==
  /\ s.units \in {"mm", "in"} /\ s.path.g \in Motions /\ s.path.plane \in Planes /\ s.path.prog \in {90, 91}
  /\ s.path.helix \in {"none", "full", "quarter"} /\ s.path.ret \in {98, 99} /\ s.path.fmode \in {94, 95}
=============================================================================
