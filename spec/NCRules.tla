------------------------------- MODULE NCRules ------------------------------
(* The rules a block is judged by: address ranges (V01), words that exclude each  *)
(* other (V02), limits and the spindle (V03), variables (M01) and the system      *)
(* variables (M03).                                                               *)
EXTENDS NCBase

(************************** address ranges: V01 *******************************)
\* g: the limits of the active units, address -> [rf, rt, df, dt, uq]
OptionalMarkOk(w) == \/ w.k = "none"
                     \/ w.k = "num" /\ ~w.neg /\ ~w.dot /\ w.ip \in 1..9

NumberOk(l, w) ==
  /\ w.ip >= 0 => LET s == IF w.neg THEN -w.ip ELSE w.ip IN s >= l.rf /\ s <= l.rt
  /\ IF l.dt = 0 THEN w.ip >= 0 /\ ~w.dot
     ELSE IF w.fd = 0 THEN w.ip >= 0
     ELSE w.fr >= l.df /\ w.fr <= l.dt /\ ~(w.neg /\ l.rf >= 0 /\ w.fr # 0)

WordOk(g, w) ==
  CASE w.k = "str" -> TRUE
    [] w.k = "odd" -> FALSE      \* signs, # and dots that make no number
    [] w.a = "/"   -> OptionalMarkOk(w)
    [] w.k = "none" -> FALSE
    [] w.k = "var" -> w.id >= g["#"].rf /\ w.id <= g["#"].rt
    [] w.k = "def" -> /\ w.id >= g["#"].rf /\ w.id <= g["#"].rt
                      /\ \A i \in DOMAIN w.ops :
                           LET o == w.ops[i]
                           IN IF o.k = "var" THEN o.id >= g["#"].rf /\ o.id <= g["#"].rt
                              ELSE o.k = "num" /\ NumberOk(g[o.a], o)
    [] OTHER -> Has(g, w.a) => NumberOk(g[w.a], w)

SyntaxOk(g, b) == \A i \in DOMAIN b : WordOk(g, b[i])

(*********************** words that exclude each other: V02 *******************)
UniqueOk(g, b) ==
  \A i, j \in DOMAIN b :
    (i < j /\ b[i].a = b[j].a /\ b[i].k # "str" /\ Has(g, b[i].a)) => ~g[b[i].a].uq

\* the value of a code, as the tables of the control spell it
CodeKey(w) == ToString(w.ip) \o (IF w.fd > 0 /\ w.fr # 0 THEN "." \o ToString(w.fr) ELSE "")
CodesOk(groups, a, b) ==
  LET idx == {i \in DOMAIN b : b[i].a = a /\ HasInt(b[i]) /\ Has(groups, CodeKey(b[i]))}
  IN \A i, j \in idx : i < j => Elems(groups[CodeKey(b[i])]) \cap Elems(groups[CodeKey(b[j])]) = {}
GroupsOk(c, b) == CodesOk(c.gg, "G", b) /\ CodesOk(c.mg, "M", b)
HaasOk(c, b) == c.haas => Cardinality({i \in DOMAIN b : b[i].a = "M"}) <= 1

Repeated(g, b) == {b[i].a : i \in {i \in DOMAIN b : b[i].k # "str" /\ Has(g, b[i].a) /\ g[b[i].a].uq
                                  /\ \E j \in DOMAIN b : j < i /\ b[j].a = b[i].a}}

(****************************** limits: V03 ***********************************)
\* on lathes a tool number holds the tool and its offset, half of the digits each
ToolDigits(c, w) == IF c.mtype = "lathe" /\ Len(w.ds) > 2 THEN SubSeq(w.ds, 1, Len(w.ds) \div 2) ELSE w.ds
Digit(ch) == CASE ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4
               [] ch = "5" -> 5 [] ch = "6" -> 6 [] ch = "7" -> 7 [] ch = "8" -> 8 [] ch = "9" -> 9
RECURSIVE Number(_)
Number(ds) == IF Len(ds) = 0 THEN 0 ELSE Number(SubSeq(ds, 1, Len(ds) - 1)) * 10 + Digit(SubSeq(ds, Len(ds), Len(ds)))

LimitOk(c, w) ==
  CASE w.a = "S" /\ HasInt(w) -> w.ip <= c.maxs
    [] w.a = "T" /\ HasInt(w) -> Number(ToolDigits(c, w)) <= c.maxt
    [] w.a = "F" /\ IsNum(w)  -> w.ip < c.maxf \/ (w.ip = c.maxf /\ w.fr = 0)
    [] OTHER -> TRUE
OverLimit(c, b) == {b[i].a : i \in {i \in DOMAIN b : ~LimitOk(c, b[i])}}
LimitsOk(c, b) == \A i \in DOMAIN b : LimitOk(c, b[i])

(************************** the running spindle: V03 **************************)
RotInit == [s |-> FALSE, m |-> FALSE, g |-> FALSE, e |-> FALSE]
SetsSpeed(w) == w.a = "S" /\ w.k # "str"
SetsDirection(w) == w.a = "M" /\ HasInt(w) /\ w.ip \in {3, 4}
Cuts(w) == w.a = "G" /\ HasInt(w) /\ (w.ip = 1 \/ w.ip \in 81..89)

Rotation(c, r, b) ==  \* -> [r, ok, missing]: what a report names
  IF c.def.operator
  THEN [r |-> r, ok |-> \A i \in DOMAIN b : ~SetsSpeed(b[i]) /\ ~SetsDirection(b[i]),
        missing |-> (IF \E i \in DOMAIN b : SetsSpeed(b[i]) THEN {"S"} ELSE {}) \cup
                    (IF \E i \in DOMAIN b : SetsDirection(b[i]) THEN {"M3"} ELSE {})]
  ELSE LET n == [s |-> r.s \/ \E i \in DOMAIN b : SetsSpeed(b[i]),
                 m |-> r.m \/ \E i \in DOMAIN b : SetsDirection(b[i]),
                 g |-> r.g \/ \E i \in DOMAIN b : Cuts(b[i]),
                 e |-> r.e]
           bad == ~n.e /\ n.g /\ ~(n.s /\ n.m)
       IN [r |-> [n EXCEPT !.e = @ \/ bad], ok |-> ~bad,
           missing |-> (IF n.s THEN {} ELSE {"S"}) \cup (IF n.m THEN {} ELSE {"M3"})]

(****************************** variables: M01 ********************************)
\* env: variable -> value. A definition evaluates its operands from left to right.
OperandVal(env, o) == IF o.k = "num" THEN Val(o)
                      ELSE IF ~Has(env, o.id) THEN NONE
                      ELSE IF o.neg THEN -env[o.id] ELSE env[o.id]
RECURSIVE Sum(_, _, _)
Sum(env, ops, n) ==
  IF n = 0 THEN 0
  ELSE LET l == Sum(env, ops, n - 1)
           r == OperandVal(env, ops[n])
       IN IF l = NONE \/ r = NONE THEN NONE ELSE IF ops[n].a = "-" THEN l - r ELSE l + r
DefVal(env, w) == IF w.ops = <<>> THEN NONE ELSE Sum(env, w.ops, Len(w.ops))    \* a variable alone defines nothing

Defs(b) == SelectSeq(b, LAMBDA w : w.k = "def")
DefsOk(env, b) == \A i \in DOMAIN b : b[i].k = "def" => DefVal(env, b[i]) # NONE
\* at most one definition fits in a block: the rest of the block is its text
Define(env, b) ==
  LET d == Defs(b) IN IF Len(d) = 0 THEN env ELSE Put(env, d[1].id, DefVal(env, d[1]))

VarsKnown(env, b) == \A i \in DOMAIN b : b[i].k = "var" => Has(env, b[i].id)
\* the block with the values of its variables written instead
Subst(env, b) ==
  [i \in DOMAIN b |-> IF b[i].k = "var"
                      THEN Lit(b[i].a, IF b[i].neg THEN -env[b[i].id] ELSE env[b[i].id])
                      ELSE b[i]]
HasVar(b) == \E i \in DOMAIN b : b[i].k = "var"

(*************************** system variables: M03 ****************************)
SysIds(a) == CASE a = "B" -> {4102, 4302, 4502} [] a = "D" -> {4107, 4307, 4507}
               [] a = "F" -> {4109, 4309, 4509} [] a = "H" -> {4111, 4311, 4511}
               [] a = "M" -> {4113, 4313, 4513} [] a = "N" -> {4114, 4314, 4514}
               [] a = "S" -> {4119, 4319, 4519} [] OTHER -> {}
ToolIds == {4120, 4320, 4520}
PI == 3101
EULER == 3102

RECURSIVE SysAssign(_, _, _)
SysAssign(env, b, i) ==
  IF i > Len(b) THEN env
  ELSE IF b[i].k # "num" \/ SysIds(b[i].a) = {} THEN SysAssign(env, b, i + 1)
  ELSE SysAssign([id \in SysIds(b[i].a) |-> Val(b[i])] @@ env, b, i + 1)

(***************************** active units: V01 ******************************)
RECURSIVE UnitsAfter(_, _, _)
UnitsAfter(u, b, i) ==
  IF i > Len(b) THEN u
  ELSE UnitsAfter(IF b[i].a = "G" /\ HasInt(b[i])
                  THEN (CASE b[i].ip = 20 -> "in" [] b[i].ip = 21 -> "mm" [] OTHER -> u)
                  ELSE u, b, i + 1)
=============================================================================
