------------------------------- MODULE NCBase -------------------------------
(* Words, values and blocks of an NC program, as every other module uses them.    *)
(* A block is a sequence of words. A word is a record                             *)
(*   [a |-> address, k |-> kind, ...] with the kinds                              *)
(*   "num"  a number: neg (sign), ip (integer part, -1 if there is none),         *)
(*          dot, fd digits after the dot with the value fr, ds the digits of the  *)
(*          integer part as written                                               *)
(*   "var"  a number given by the variable id, with sign neg                      *)
(*   "none" an address without any number                                         *)
(*   "def"  the definition of the variable id by the operands ops, each a word    *)
(*          whose address is the operator in front of it ("=", "+", "-")          *)
(*   "str"  a comment, program name or program start                              *)
(* All numbers are scaled by 10000, TLC's integers being whole and of 32 bits.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SCALE == 10000
NONE  == -2000000000        \* "no value" where an optional number is kept

Abs(x) == IF x < 0 THEN -x ELSE x
Has(f, k) == k \in DOMAIN f
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE NONE
Put(f, k, v) == (k :> v) @@ f
Drop(f, S) == [k \in (DOMAIN f \ S) |-> f[k]]
Elems(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]

RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)

\* the value of a literal number: at most four digits after the dot count here
FracOf(w) == IF w.fd = 0 THEN 0
             ELSE IF w.fd <= 4 THEN w.fr * Pow10(4 - w.fd) ELSE w.fr \div Pow10(w.fd - 4)
Val(w) == LET m == (IF w.ip < 0 THEN 0 ELSE w.ip) * SCALE + FracOf(w)
          IN IF w.neg THEN -m ELSE m

\* the number v written as a literal: digits after the dot without closing zeros
RECURSIVE Trim(_, _)
Trim(fr, fd) == IF fd = 0 \/ fr % 10 # 0 THEN <<fr, fd>> ELSE Trim(fr \div 10, fd - 1)
Lit(a, v) ==
  LET m == Abs(v)
      t == Trim(m % SCALE, 4)
  IN [a |-> a, k |-> "num", neg |-> v < 0, ip |-> m \div SCALE,
      dot |-> m % SCALE # 0, fd |-> t[2], fr |-> t[1], ds |-> ToString(m \div SCALE), id |-> 0]

\* constructors for the models
Num(a, v)  == Lit(a, v)
Whole(a, i) == Lit(a, i * SCALE)
Vr(a, n)   == [a |-> a, k |-> "var", neg |-> FALSE, ip |-> 0, dot |-> FALSE, fd |-> 0, fr |-> 0, ds |-> "", id |-> n]
NVr(a, n)  == [Vr(a, n) EXCEPT !.neg = TRUE]
No(a)      == [Vr(a, 0) EXCEPT !.k = "none"]
Def(n, ops) == [a |-> "#", k |-> "def", neg |-> FALSE, ip |-> 0, dot |-> FALSE, fd |-> 0, fr |-> 0, ds |-> "",
                id |-> n, ops |-> ops]

IsNum(w) == w.k = "num"
HasInt(w) == w.k = "num" /\ w.ip >= 0
HasFrac(w) == w.k = "num" /\ w.fd > 0
Calc == {"#", "=", "+", "-", "*", "/", ":", "N", "GOTO"}   \* addresses that carry no variable of the program

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Filter(s, P(_)) == SelectSeq(s, P)
=============================================================================
