------------------------------- MODULE NCSplit ------------------------------
(* Splitting a program into parts (T04). A block is                               *)
(*   [mot |-> its motion code: -1 none, 0..3, 81 a drilling cycle, 80;            *)
(*    tool |-> it changes the tool, path, time |-> what it cuts, text |-> it      *)
(*    contains the text, num |-> it takes a number]                               *)
(* The wish p is [type |-> "blocks" "path" "time" "tool" "text", limit, rapid     *)
(*   |-> only at rapid moves, retract |-> with retract blocks].                   *)
EXTENDS Integers, Sequences

SplitInit(n) == [act |-> -1, cyc |-> FALSE, acc |-> 0, tools |-> 0, parts |-> << <<>> >>, n |-> n]
Motion(s, b) == IF b.mot \in 0..3 THEN b.mot ELSE IF b.mot # -1 THEN -1 ELSE s.act
Cycle(s, b) == IF b.mot = 81 THEN TRUE ELSE IF b.mot # -1 THEN FALSE ELSE s.cyc
\* the block belongs to a cycle that began before it
Inside(s, b) == (b.mot = -1 /\ s.cyc) \/ b.mot = 80
Starts(p, s, b) ==
  CASE p.type = "text" -> b.text
    [] p.type = "tool" -> b.tool /\ s.tools > 0
    [] OTHER -> s.acc >= p.limit /\ ~Inside(s, b) /\ (p.rapid => Motion(s, b) = 0)
\* an output block: number of the program's block, or 0 for a retract block
Step(p, s, b, k) ==
  LET new == Starts(p, s, b)
      R == IF p.retract THEN <<0>> ELSE <<>>
      ps == IF new THEN [s.parts EXCEPT ![Len(s.parts)] = @ \o R] \o <<R>> ELSE s.parts
  IN [act |-> Motion(s, b), cyc |-> Cycle(s, b),
      acc |-> (IF new THEN 0 ELSE s.acc) + (CASE p.type = "blocks" -> 1 [] p.type = "path" -> b.path [] p.type = "time" -> b.time [] OTHER -> 0),
      tools |-> s.tools + (IF b.tool THEN 1 ELSE 0),
      parts |-> [ps EXCEPT ![Len(ps)] = Append(@, k)], n |-> s.n]
\* the numbers of the blocks of the parts: one after the other
Numbers(parts, prog, rnum, n) ==
  LET RECURSIVE Go(_, _, _)      \* all blocks in order
      Go(q, m, acc) == IF q = <<>> THEN acc
                       ELSE LET t == IF q[1] = 0 THEN rnum ELSE prog[q[1]].num
                            IN Go(Tail(q), IF t THEN m + 1 ELSE m, Append(acc, IF t THEN m ELSE 0))
      RECURSIVE Flat(_)
      Flat(x) == IF x = <<>> THEN <<>> ELSE x[1] \o Flat(Tail(x))
  IN Go(Flat(parts), n, <<>>)
=============================================================================
