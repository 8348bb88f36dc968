------------------------------- MODULE NCDoc --------------------------------
(* A document: lines, each blank or a block with the places of its words. Reading *)
(* it runs the machine line by line; what is not accepted becomes a diagnostic at *)
(* a line and a character.                                                        *)
(* A line is [b block, gaps, widths, blank, len]: gaps[i] characters stand before *)
(* the word i, which is widths[i] long; len is the length of the line.            *)
EXTENDS NCProps, NCShow

RECURSIVE Start(_, _)
Start(l, i) == l.gaps[i] + (IF i = 1 THEN 0 ELSE Start(l, i - 1) + l.widths[i - 1])

\* the first word which is no word of the control in the active units, 0 if all are
FirstFault(c, st, b) ==
  LET f == {i \in DOMAIN b : ~WordOk(Gram(c, st.units), b[i])}
  IN IF f = {} THEN 0 ELSE CHOOSE i \in f : \A j \in f : i <= j

\* where the diagnostic of a line that is not accepted may start: from..to
Where(c, st, l, s) ==
  LET k == FirstFault(c, st, l.b)
  IN IF s.err = "syntax" /\ k > 0     \* at the word; within a definition at the faulty operand
       THEN [from |-> Start(l, k), to |-> Start(l, k) + (IF l.b[k].k = "def" THEN l.widths[k] ELSE 0)]
     ELSE IF s.err = "syntax" THEN [from |-> 0, to |-> l.len]          \* of the block with its values: no place in the text
     ELSE [from |-> 0, to |-> IF l.b = <<>> THEN 0 ELSE l.gaps[1]]

\* reading the line number n: the machine afterwards, the diagnostics (one or none) and what it shows
ReadLine(c, st, l, n) ==
  IF l.blank THEN [st |-> st, diag |-> <<>>, show |-> <<>>]
  ELSE LET s == Step(c, st, l.b) w == Where(c, st, l, s)
       IN [st |-> s.st, show |-> <<Show(s)>>,
           diag |-> IF s.ok THEN <<>> ELSE <<[line |-> n, from |-> w.from, to |-> w.to, err |-> s.err, names |-> SeqOf(s.names)]>>]

RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(c, st, ls, n) ==
  IF ls = <<>> THEN <<>>
  ELSE LET r == ReadLine(c, st, Head(ls), n) IN r.diag \o ReadFrom(c, r.st, Tail(ls), n + 1)
Diagnostics(c, ls) == ReadFrom(c, MachineInit(c), ls, 0)

(********************************** the laws ***********************************)
\* one at most for each line, in their order, none for blank ones
OnePerLine(ls, ds) == /\ \A i, j \in DOMAIN ds : i < j => ds[i].line < ds[j].line
                      /\ \A i \in DOMAIN ds : ds[i].line \in 0..(Len(ls) - 1) /\ ~ls[ds[i].line + 1].blank
\* within the line
InLine(ls, ds) == \A i \in DOMAIN ds : 0 <= ds[i].from /\ ds[i].from <= ds[i].to /\ ds[i].to <= ls[ds[i].line + 1].len
\* a blank line more moves what follows down and changes nothing else
Blank == [b |-> <<>>, gaps |-> <<>>, widths |-> <<>>, blank |-> TRUE, len |-> 0]
Inserted(ls, k) == SubSeq(ls, 1, k) \o <<Blank>> \o SubSeq(ls, k + 1, Len(ls))
BlankShifts(c, ls) == \A k \in 0..Len(ls) :
  Diagnostics(c, Inserted(ls, k)) = [i \in DOMAIN Diagnostics(c, ls) |->
     LET d == Diagnostics(c, ls)[i] IN IF d.line >= k THEN [d EXCEPT !.line = @ + 1] ELSE d]
\* what follows a line cannot change how it is judged
PrefixStays(c, ls) == \A k \in 0..Len(ls) : LET d == Diagnostics(c, SubSeq(ls, 1, k)) IN d = SubSeq(Diagnostics(c, ls), 1, Len(d))
\* a line that is no block in any units leaves nothing behind
NoBlock(c, l) == ~l.blank /\ \A u \in {"mm", "in"} : ~SyntaxOk(Gram(c, u), l.b)
NoBlockLeavesNothing(c, ls) == \A k \in DOMAIN ls : NoBlock(c, ls[k]) =>
  [i \in DOMAIN Diagnostics(c, [ls EXCEPT ![k] = Blank]) |-> Diagnostics(c, [ls EXCEPT ![k] = Blank])[i]] =
  SelectSeq(Diagnostics(c, ls), LAMBDA d : d.line # k - 1)
=============================================================================
