------------------------------- MODULE NCCond -------------------------------
(* Brackets outside of assignments (M04): the condition of IF and WHILE, the      *)
(* value of an address in brackets. What follows the word is a sequence of tokens *)
(*   "val" "undef"  a number or a variable, with and without a value              *)
(*   "add"  + -     "mul"  * /      "rel"  EQ NE ... AND OR XOR                    *)
(*   "fn"   the name of a function  "[" "]" brackets                              *)
(* The sequence is "whole", "broken" (brackets do not pair or an operand is       *)
(* missing) or "other" (every bracket and operator is whole, but what stands side *)
(* by side has no meaning). Defined twice: by a machine that reads one token      *)
(* after the other, and by the positions of the sequence (Pairs, Operands).       *)
EXTENDS Integers, Sequences, TLC

Opnd(t) == t.k \in {"val", "undef"}
Binary(t) == t.k \in {"add", "mul", "rel"}
Sign(t) == t.k = "add"

(******************************** the machine *********************************)
Start == [want |-> "first", depth |-> 0, verdict |-> "whole"]
Broken(m) == [m EXCEPT !.verdict = "broken", !.want = "dead"]
Other(m) == [m EXCEPT !.verdict = IF @ = "whole" THEN "other" ELSE @]
Read(m, t) ==
  CASE m.want = "dead" -> m
    [] m.want = "first" ->                 \* the word itself is followed by a bracket
         IF t.k = "[" THEN [m EXCEPT !.want = "operand", !.depth = 1] ELSE [Other(m) EXCEPT !.want = "dead"]
    [] m.want = "operand" ->
         IF t.k = "[" THEN [m EXCEPT !.depth = @ + 1]
         ELSE IF Opnd(t) THEN [m EXCEPT !.want = "operator"]
         ELSE IF t.k = "fn" THEN [m EXCEPT !.want = "bracket"]
         ELSE IF Sign(t) THEN m
         ELSE Broken(m)
    [] m.want = "bracket" ->               \* a function takes a bracket
         IF t.k = "[" THEN [m EXCEPT !.want = "operand", !.depth = @ + 1] ELSE [Other(m) EXCEPT !.want = "dead"]
    [] m.want = "operator" ->
         IF m.depth = 0 THEN [Other(m) EXCEPT !.want = "dead"]
         ELSE IF Binary(t) THEN [m EXCEPT !.want = "operand"]
         ELSE IF t.k = "]" THEN [m EXCEPT !.depth = @ - 1]
         ELSE [Other(m) EXCEPT !.want = "dead"]
End(m) == IF m.verdict # "whole" THEN m.verdict
          ELSE IF m.want = "operator" /\ m.depth = 0 THEN "whole"
          ELSE IF m.want = "first" THEN "other"
          ELSE "broken"

(****************************** the positions *********************************)
Count(s, k, i) == Len(SelectSeq(SubSeq(s, 1, i), LAMBDA t : t.k = k))
Depth(s, i) == Count(s, "[", i) - Count(s, "]", i)
Pairs(s) == Depth(s, Len(s)) = 0 /\ \A i \in 1..Len(s) : Depth(s, i) >= 0
\* an operand begins at the position
Begins(s, i) == i <= Len(s) /\ (Opnd(s[i]) \/ s[i].k \in {"[", "fn"} \/ Sign(s[i]))
\* an operand ends at the position
Ends(s, i) == i >= 1 /\ (Opnd(s[i]) \/ s[i].k = "]")
Operands(s) == \A i \in DOMAIN s :
  /\ Binary(s[i]) => Begins(s, i + 1) /\ (Sign(s[i]) \/ Ends(s, i - 1))
  /\ s[i].k = "[" => Begins(s, i + 1)
  /\ s[i].k = "]" => Ends(s, i - 1)
  /\ s[i].k = "fn" => i < Len(s) /\ s[i + 1].k = "["
\* nothing stands side by side without an operator, and one bracket is around it all
Joined(s) == /\ \A i \in 1..(Len(s) - 1) : Ends(s, i) => (Binary(s[i + 1]) \/ s[i + 1].k = "]")
             /\ \A i \in 1..(Len(s) - 1) : Depth(s, i) > 0
Whole(s) == s # <<>> /\ s[1].k = "[" /\ Pairs(s) /\ Operands(s) /\ Joined(s)

\* what the block is: a value in brackets needs the values of its variables,
\* the condition of a jump that is not followed does not
Verdict(m, s, value) ==
  LET v == End(m)
  IN IF v = "whole" /\ value /\ \E i \in DOMAIN s : s[i].k = "undef" THEN "missing" ELSE v
=============================================================================
