------------------------------ MODULE NCMachine -----------------------------
(* The machine that reads an NC program block by block: the order in which the    *)
(* rules judge a block, what a rejected block still leaves behind, and what each  *)
(* block adds. A step is a function of the configuration c, the state st and the  *)
(* block b.                                                                       *)
EXTENDS NCRules, NCPath
(* c.sw switches parts off: macro (variables and everything after them), anal     *)
(* (limits and spindle), groups (codes that exclude each other), zero (travel).   *)

Gram(c, units) == IF units = "in" THEN c.gram.imperial ELSE c.gram.metric

MachineInit(c) ==
  [env |-> (PI :> 31416) @@ (EULER :> 27183), rot |-> RotInit, units |-> c.def.units, path |-> PathInit(c)]

\* a rejected block: err says which rule rejected it
Rejected(st, e) == [st |-> st, ok |-> FALSE, err |-> e, ran |-> FALSE,
                    w |-> Zero, f |-> Zero, wait |-> 0, rate |-> NoRate, names |-> {}]
Reads(st) == [Rejected(st, "") EXCEPT !.ok = TRUE]    \* nothing but the words is judged
Naming(r, S) == [r EXCEPT !.names = S]     \* the diagnostic names one of S

Step(c, st, b) ==
  LET gr == Gram(c, st.units)
      st1 == [st EXCEPT !.env = Define(@, b)]                     \* the definition stays whatever follows
      b2 == Subst(st1.env, b)
      st2 == [st1 EXCEPT !.env = SysAssign(@, b2, 1)]
      rot == IF c.sw.anal THEN Rotation(c, st2.rot, b2) ELSE [r |-> st2.rot, ok |-> TRUE, missing |-> {}]
      st3 == [st2 EXCEPT !.rot = rot.r]
      o == PathStep(c, st3.units, st3.path, b2)
      toolEnv == IF o.p.tool # st3.path.tool \/ TakesTool(c, b2)
                 THEN [id \in ToolIds |-> Number(o.p.tool) * SCALE] @@ st3.env ELSE st3.env
      st4 == [st3 EXCEPT !.path = o.p, !.env = toolEnv]
      st5 == [st4 EXCEPT !.units = UnitsAfter(@, b2, 1)]
      out == [st |-> st4, ok |-> FALSE, err |-> "", ran |-> TRUE, w |-> o.w, f |-> o.f, wait |-> o.wait, rate |-> o.rate, names |-> {}]
  IN IF ~SyntaxOk(gr, b) THEN Rejected(st, "syntax")
     ELSE IF ~UniqueOk(gr, b) THEN Naming(Rejected(st, "unique"), Repeated(gr, b))
     ELSE IF ~c.sw.macro THEN Reads(st)
     ELSE IF ~DefsOk(st.env, b) THEN Rejected(st, "macro")
     ELSE IF ~VarsKnown(st1.env, b) THEN Rejected(st1, "macro")
     ELSE IF HasVar(b) /\ ~SyntaxOk(gr, b2) THEN Rejected(st1, "syntax")
     ELSE IF c.sw.anal /\ ~LimitsOk(c, b2) THEN Naming(Rejected(st2, "limit"), OverLimit(c, b2))
     ELSE IF ~rot.ok THEN Naming(Rejected(st3, "rotation"), rot.missing)
     ELSE IF c.sw.groups /\ ~GroupsOk(c, b2) THEN Rejected(st3, "group")
     ELSE IF ~HaasOk(c, b2) THEN Rejected(st3, "haas")
     ELSE IF ~c.calc THEN [Rejected(st3, "") EXCEPT !.ok = TRUE, !.st.units = UnitsAfter(@, b2, 1)]
     ELSE IF b = <<>> THEN [out EXCEPT !.ok = TRUE]
     ELSE IF o.err # "" THEN [out EXCEPT !.err = o.err]
     ELSE IF c.sw.zero /\ Outside(c, o.p) # {} THEN Naming([out EXCEPT !.err = "travel"], Outside(c, o.p))
     ELSE [out EXCEPT !.st = st5, !.ok = TRUE]
=============================================================================
