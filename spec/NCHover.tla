------------------------------ MODULE NCHover -------------------------------
(* What the words under the cursor mean. A line is a sequence of characters       *)
(* [c, u]: u is the number of places (UTF-16 units) the character takes. A word   *)
(* is a code (G54.1), a code given by a variable (G#1) or a variable (#1).        *)
(* tabs: the descriptions of the control: codes G and M, macros, and ranges of    *)
(* variables that share one.                                                      *)
EXTENDS NCDoc

CharAt(l, i) == IF i \in DOMAIN l THEN l[i].c ELSE ""
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letter(x) == IF x \in {"G", "g"} THEN "G" ELSE IF x \in {"M", "m"} THEN "M" ELSE ""
RECURSIVE Off(_, _)
Off(l, i) == IF i <= 1 THEN 0 ELSE Off(l, i - 1) + l[i - 1].u            \* where the character i stands
RECURSIVE DigitsEnd(_, _)
DigitsEnd(l, i) == IF CharAt(l, i) \in Digits THEN DigitsEnd(l, i + 1) ELSE i

\* the end of the word that begins at i, 0 if there is none
CodeEnd(l, i) ==
  IF Letter(CharAt(l, i)) = "" \/ CharAt(l, i + 1) \notin Digits THEN 0
  ELSE LET j == DigitsEnd(l, i + 1)
       IN IF CharAt(l, j) # "." THEN j ELSE IF CharAt(l, j + 1) \in Digits THEN j + 2 ELSE j + 1
VarEnd(l, i) == IF CharAt(l, i) = "#" /\ CharAt(l, i + 1) \in Digits THEN DigitsEnd(l, i + 1) ELSE 0
SelEnd(l, i) == IF Letter(CharAt(l, i)) = "" THEN 0 ELSE VarEnd(l, i + 1)

\* the words of a kind from left to right, and the one at a place
RECURSIVE Words(_, _, _)
Words(l, E(_, _), i) == IF i > Len(l) THEN <<>> ELSE IF E(l, i) > 0 THEN <<[from |-> i, to |-> E(l, i)]>> \o Words(l, E, E(l, i)) ELSE Words(l, E, i + 1)
WordAt(l, E(_, _), at) == LET ws == SelectSeq(Words(l, E, 1), LAMBDA w : Off(l, w.from) <= at /\ at < Off(l, w.to)) IN ws

RECURSIVE Text(_, _, _)
Text(l, i, j) == IF i >= j THEN "" ELSE l[i].c \o Text(l, i + 1, j)
\* the first digit that counts
RECURSIVE Lead(_, _, _)
Lead(l, i, j) == IF i + 1 < j /\ l[i].c = "0" /\ CharAt(l, i + 1) \in Digits THEN Lead(l, i + 1, j) ELSE i
\* codes are named without leading zeros; G1. and G1.0 are G1
CodeName(l, i, j) ==
  LET k == Lead(l, i, j) e == DigitsEnd(l, k)
  IN IF Text(l, e, j) \in {"", ".", ".0"} THEN Text(l, k, e) ELSE Text(l, k, j)
RECURSIVE NumberOf(_, _, _, _)
NumberOf(l, i, j, acc) == IF i >= j THEN acc ELSE NumberOf(l, i + 1, j, 10 * acc + (CHOOSE d \in 0..9 : ToString(d) = l[i].c))
VarId(l, i, j) == LET k == Lead(l, i, j) IN IF j - k > 8 THEN -1 ELSE NumberOf(l, k, j, 0)

\* a value as it is written
RECURSIVE Fraction(_, _)
Fraction(v, p) == IF v = 0 THEN "" ELSE ToString(v \div p) \o Fraction(v % p, p \div 10)
ValueText(v) ==
  LET a == IF v < 0 THEN -v ELSE v
  IN (IF v < 0 THEN "-" ELSE "") \o ToString(a \div SCALE) \o (IF a % SCALE = 0 THEN "" ELSE "." \o Fraction(a % SCALE, SCALE \div 10))

Known(tabs, letter, key) == key \in (IF letter = "G" THEN tabs.g ELSE tabs.m)
\* the macros that describe a variable: its own, else those whose range holds it
Describes(tabs, key, id) ==
  IF key \in tabs.macros THEN {key} ELSE {tabs.ranges[i].key : i \in {i \in DOMAIN tabs.ranges : tabs.ranges[i].a <= id /\ id <= tabs.ranges[i].b}}

Nothing == [k |-> "none"]
Hover(l, at, env, tabs) ==
  LET c == WordAt(l, CodeEnd, at) s == WordAt(l, SelEnd, at) v == WordAt(l, VarEnd, at) IN
  IF c # <<>> THEN
    LET w == c[1] g == Letter(l[w.from].c) key == CodeName(l, w.from + 1, w.to)
    IN [k |-> "code", from |-> Off(l, w.from), to |-> Off(l, w.to), text |-> Text(l, w.from, w.to), letter |-> g, key |-> key, known |-> Known(tabs, g, key)]
  ELSE IF s # <<>> THEN
    LET w == s[1] g == Letter(l[w.from].c) id == VarId(l, w.from + 2, w.to)
    IN IF id \notin DOMAIN env THEN Nothing
       ELSE [k |-> "sel", from |-> Off(l, w.from), to |-> Off(l, w.to), text |-> Text(l, w.from, w.to), letter |-> g, key |-> ValueText(env[id]), known |-> Known(tabs, g, ValueText(env[id]))]
  ELSE IF v # <<>> THEN
    LET w == v[1] id == VarId(l, w.from + 1, w.to) d == Describes(tabs, Text(l, Lead(l, w.from + 1, w.to), w.to), id)
    IN [k |-> "var", from |-> Off(l, w.from), to |-> Off(l, w.to), text |-> Text(l, w.from, w.to), id |-> id, has |-> id \in DOMAIN env, val |-> IF id \in DOMAIN env THEN env[id] ELSE 0, desc |-> SeqOf(d)]
  ELSE Nothing

\* completion: what is offered names every code of the control; the description of an item is the one of hovering over its text
Offered(tabs, macros) == {"G" \o x : x \in tabs.g} \cup {"M" \o x : x \in tabs.m} \cup (IF macros THEN {"#" \o x : x \in tabs.macros} ELSE {})

(********************************** the laws ***********************************)
Places(l) == 0..Off(l, Len(l) + 1)
InWord(l, env, tabs) == \A p \in Places(l) : LET h == Hover(l, p, env, tabs) IN h.k # "none" => h.from <= p /\ p < h.to
SameWord(l, env, tabs) == \A p \in Places(l) : LET h == Hover(l, p, env, tabs) IN h.k # "none" => \A q \in h.from..(h.to - 1) : Hover(l, q, env, tabs) = h
EndIsNothing(l, env, tabs) == Hover(l, Off(l, Len(l) + 1), env, tabs) = Nothing
\* what stands behind a space, or before one, is no part of the word
Space == [c |-> " ", u |-> 1]
SpaceSeparates(l, env, tabs) == \A p \in Places(l) \ {Off(l, Len(l) + 1)} :
  LET h == Hover(l, p, env, tabs) b == Hover(<<Space>> \o l, p + 1, env, tabs) IN
  /\ Hover(l \o <<Space>>, p, env, tabs) = h
  /\ IF h.k = "none" THEN b = h ELSE b = [h EXCEPT !.from = @ + 1, !.to = @ + 1]
\* one zero more at the front of the number changes neither code nor variable
OneZero == [c |-> "0", u |-> 1]
ZerosDoNotCount(l, env, tabs) == \A i \in DOMAIN l : (l[i].c \in Digits /\ i > 1 /\ CharAt(l, i - 1) \notin Digits \cup {"."}) =>
  LET l2 == SubSeq(l, 1, i - 1) \o <<OneZero>> \o SubSeq(l, i, Len(l)) h == Hover(l, Off(l, i), env, tabs) z == Hover(l2, Off(l, i), env, tabs) IN
  /\ h.k = z.k
  /\ h.k \in {"code", "sel"} => h.letter = z.letter /\ h.key = z.key /\ h.known = z.known
  /\ h.k = "var" => h.id = z.id /\ h.has = z.has /\ h.val = z.val /\ h.desc = z.desc
=============================================================================
