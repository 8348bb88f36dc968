------------------------------- MODULE NCExpr -------------------------------
(* Arithmetic expressions of NC programs (M02). A token is a record               *)
(*   [k |-> kind, x |-> text] of the kinds                                        *)
(*   "val"  a number or a variable with a value    "undef" a variable without one *)
(*   "add"  + - OR XOR                             "mul"   * / AND MOD            *)
(*   "fn"   the name of a function                 "[" "]" brackets               *)
(* The meaning of an expression is defined twice: by the grammar (Parse), and by  *)
(* a machine that reads one token after the other and keeps the operators that    *)
(* wait for their operand (Read). TLC checks that they agree on every sequence of *)
(* tokens, and that printing a tree and reading it again gives the tree back.     *)
(* Both give the operations in the order they are carried out (postfix).          *)
EXTENDS Integers, Sequences, TLC

SIGN == {"+", "-"}
IsSign(t) == t.k = "add" /\ t.x \in SIGN
IsOperand(t) == t.k \in {"val", "undef"}
IsBinary(t) == t.k \in {"add", "mul"}
Op(a, x) == [k |-> a, x |-> x]              \* "sign", "fn", "add", "mul" in a postfix sequence

(******************************* the grammar **********************************)
Bad == [ok |-> FALSE, i |-> 0, p |-> <<>>]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE [k |-> "end", x |-> ""]

RECURSIVE Expr(_, _), ExprRest(_, _), Term(_, _), TermRest(_, _), Factor(_, _)
Bracket(s, i) ==   \* [ expression ]
  IF At(s, i).k # "[" THEN Bad
  ELSE LET e == Expr(s, i + 1)
       IN IF e.ok /\ At(s, e.i).k = "]" THEN [e EXCEPT !.i = @ + 1] ELSE Bad
Factor(s, i) ==
  LET t == At(s, i)
  IN IF IsOperand(t) THEN [ok |-> TRUE, i |-> i + 1, p |-> <<t>>]
     ELSE IF IsSign(t) THEN LET f == Factor(s, i + 1)
                            IN IF f.ok THEN [f EXCEPT !.p = Append(@, Op("sign", t.x))] ELSE Bad
     ELSE IF t.k = "fn" THEN LET b == Bracket(s, i + 1)
                             IN IF b.ok THEN [b EXCEPT !.p = Append(@, t)] ELSE Bad
     ELSE Bracket(s, i)
TermRest(s, l) ==
  IF l.ok /\ At(s, l.i).k = "mul"
  THEN LET r == Factor(s, l.i + 1)
       IN IF r.ok THEN TermRest(s, [r EXCEPT !.p = l.p \o r.p \o <<At(s, l.i)>>]) ELSE Bad
  ELSE l
Term(s, i) == TermRest(s, Factor(s, i))
ExprRest(s, l) ==
  IF l.ok /\ At(s, l.i).k = "add"
  THEN LET r == Term(s, l.i + 1)
       IN IF r.ok THEN ExprRest(s, [r EXCEPT !.p = l.p \o r.p \o <<At(s, l.i)>>]) ELSE Bad
  ELSE l
Expr(s, i) == ExprRest(s, Term(s, i))

\* the whole sequence is one expression
Parse(s) == LET e == Expr(s, 1) IN IF e.ok /\ e.i = Len(s) + 1 THEN e ELSE Bad
Defined(s) == \A i \in DOMAIN s : s[i].k # "undef"

(******************************* the machine **********************************)
\* wait: operators and brackets that are not finished, the last one at the end
Start == [mode |-> "opnd", depth |-> 0, wait |-> <<>>, out |-> <<>>]
Rank(w) == CASE w.k = "add" -> 1 [] w.k = "mul" -> 2 [] w.k \in {"sign", "fn"} -> 3 [] OTHER -> 0

RECURSIVE Pop(_, _)
Pop(m, rank) ==    \* carries out what binds at least as strongly as the rank
  IF m.wait = <<>> \/ Rank(m.wait[Len(m.wait)]) < rank \/ rank = 0 THEN m
  ELSE Pop([m EXCEPT !.wait = SubSeq(@, 1, Len(@) - 1), !.out = Append(@, m.wait[Len(m.wait)])], rank)

Dead == [mode |-> "dead", depth |-> 0, wait |-> <<>>, out |-> <<>>]
Read(m, t) ==
  CASE m.mode = "opnd" /\ IsOperand(t) -> [m EXCEPT !.mode = "oper", !.out = Append(@, t)]
    [] m.mode = "opnd" /\ IsSign(t)    -> [m EXCEPT !.wait = Append(@, Op("sign", t.x))]
    [] m.mode = "opnd" /\ t.k = "fn"   -> [m EXCEPT !.mode = "fn", !.wait = Append(@, t)]
    [] m.mode \in {"opnd", "fn"} /\ t.k = "[" -> [m EXCEPT !.mode = "opnd", !.depth = @ + 1, !.wait = Append(@, t)]
    [] m.mode = "oper" /\ IsBinary(t)  ->
         LET q == Pop(m, Rank(t)) IN [q EXCEPT !.mode = "opnd", !.wait = Append(@, t)]
    [] m.mode = "oper" /\ t.k = "]" /\ m.depth > 0 ->
         LET q == Pop(m, 1)            \* down to the bracket
             r == [q EXCEPT !.depth = @ - 1, !.wait = SubSeq(@, 1, Len(@) - 1)]
         IN r
    [] OTHER -> Dead
Accepts(m) == m.mode = "oper" /\ m.depth = 0
Result(m) == Pop(m, 1).out

(******************************** printing ************************************)
\* a tree as the sequence of its postfix operations, printed with the brackets it needs
RECURSIVE Written(_, _)   \* stack of [s |-> tokens, r |-> rank of the outermost operation]
LB == [k |-> "[", x |-> "["]
RB == [k |-> "]", x |-> "]"]
Wrap(e, rank) == IF e.r >= rank THEN e.s ELSE <<LB>> \o e.s \o <<RB>>
Written(p, st) ==
  IF p = <<>> THEN st[1].s
  ELSE LET t == p[1]
           n == Len(st)
       IN Written(Tail(p),
            CASE IsOperand(t) -> Append(st, [s |-> <<t>>, r |-> 4])
              [] t.k = "sign" -> Append(SubSeq(st, 1, n - 1), [s |-> <<Op("add", t.x)>> \o Wrap(st[n], 3), r |-> 3])
              [] t.k = "fn"   -> Append(SubSeq(st, 1, n - 1), [s |-> <<t>> \o Wrap(st[n], 9), r |-> 4])
              [] OTHER -> Append(SubSeq(st, 1, n - 2),
                                 [s |-> Wrap(st[n - 1], Rank(t)) \o <<t>> \o Wrap(st[n], Rank(t) + 1), r |-> Rank(t)]))
=============================================================================
