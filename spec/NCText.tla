------------------------------- MODULE NCText -------------------------------
(* What is done to the text of a block (T01, T02, T03, T05): conversion of units, *)
(* rotation of the axes, removal of comments, of marks of optional blocks and of  *)
(* numbers, and numbering. A block is a sequence of items                         *)
(*   [w |-> address, sg |-> sign "" "-" "+", op |-> opening brackets, m |-> "#"   *)
(*    or "", i |-> digits, d |-> dot, f |-> digits after the dot, cl |-> closing  *)
(*    brackets, x |-> text of a comment or name, as |-> "=" of S1=5]              *)
(* Comments have the address "(", names "O", the start of a program "%".          *)
(* Numbers are sequences of decimal digits: the arithmetic is exact.              *)
EXTENDS Integers, Sequences, FiniteSets

LENGTHS == {"X", "Y", "Z", "U", "V", "W", "I", "J", "K", "R"}
FEEDS == {"F"}

Has(it) == it.i # <<>> \/ it.f # <<>>                      \* has a number
Plain(it) == it.m = "" /\ it.op = "" /\ it.cl = ""         \* a number, no variable or expression

RECURSIVE Val(_)                                           \* digits as a number (short sequences only)
Val(ds) == IF ds = <<>> THEN 0 ELSE Val(SubSeq(ds, 1, Len(ds) - 1)) * 10 + ds[Len(ds)]
IsCode(it, n) == it.w = "G" /\ it.m = "" /\ it.i # <<>> /\ Len(it.i) < 9 /\ Val(it.i) = n

(*************************** arithmetic with digits ****************************)
RECURSIVE Mul(_, _, _)                                     \* digits times a number, with a carry
Mul(ds, n, c) ==
  IF ds = <<>> THEN IF c = 0 THEN <<>> ELSE Append(Mul(<<>>, n, c \div 10), c % 10)
  ELSE LET t == ds[Len(ds)] * n + c
       IN Append(Mul(SubSeq(ds, 1, Len(ds) - 1), n, t \div 10), t % 10)
RECURSIVE Div(_, _, _, _)                                  \* long division: [q |-> digits, r |-> rest]
Div(ds, n, q, r) ==
  IF ds = <<>> THEN [q |-> q, r |-> r]
  ELSE LET t == r * 10 + ds[1] IN Div(Tail(ds), n, Append(q, t \div n), t % n)
RECURSIVE Inc(_)                                           \* plus one
Inc(ds) == IF ds = <<>> THEN <<1>>
           ELSE IF ds[Len(ds)] < 9 THEN [ds EXCEPT ![Len(ds)] = @ + 1]
           ELSE Append(Inc(SubSeq(ds, 1, Len(ds) - 1)), 0)
RECURSIVE Lead(_)                                          \* without leading zeros
Lead(ds) == IF ds # <<>> /\ ds[1] = 0 THEN Lead(Tail(ds)) ELSE ds
RECURSIVE Trail(_)                                         \* without zeros at the end
Trail(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN Trail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
Zeros(n) == [k \in 1..n |-> 0]
Pow10(n) == LET RECURSIVE P(_) P(k) == IF k = 0 THEN 1 ELSE 10 * P(k - 1) IN P(n)

\* The number with the digits i.f scaled to inch or mm and rounded to p digits: the set of the roundings (two if it lies in the middle)
Scaled(i, f, to, p) ==
  LET n  == i \o f
      s  == Len(f)
      m  == IF to = "in" THEN n \o <<0>> ELSE Mul(n, 254, 0)      \* x 10 / 254, or x 254 / 10
      d  == IF to = "in" THEN 254 ELSE 10
      k  == p - s
      r  == IF k >= 0 THEN Div(m \o Zeros(k), d, <<>>, 0) ELSE Div(m, d * Pow10(-k), <<>>, 0)
      e  == IF k >= 0 THEN d ELSE d * Pow10(-k)
      Cut(q) == LET z == Zeros(IF Len(q) > p THEN 0 ELSE p + 1 - Len(q)) \o q
                    a == Lead(SubSeq(z, 1, Len(z) - p))
                IN [i |-> IF a = <<>> THEN <<0>> ELSE a, f |-> Trail(SubSeq(z, Len(z) - p + 1, Len(z)))]
  IN IF 2 * r.r < e THEN {Cut(r.q)} ELSE IF 2 * r.r > e THEN {Cut(Inc(r.q))} ELSE {Cut(r.q), Cut(Inc(r.q))}

(***************************** conversion (T01) ********************************)
Skipped(b) == b # <<>> /\ \E k \in DOMAIN b : b[k].w = "/" /\ \A j \in 1..k - 1 : b[j].w \in {"(", "%", "O"}
Dwell(b) == \E k \in DOMAIN b : IsCode(b[k], 4)
Rotation(b) == \E k \in DOMAIN b : IsCode(b[k], 68) /\ (b[k].f = <<>> \/ (Len(b[k].f) < 9 /\ Val(b[k].f) \in 2..4))
\* digits[a] is the number of digits after the dot of the address a in the new units
ConvItem(b, k, to, digits) ==
  LET it == b[k]
  IN IF Skipped(b) \/ ~Plain(it) THEN {it}
     ELSE IF IsCode(it, 20) /\ to = "mm" THEN {[it EXCEPT !.i = <<2, 1>>]}
     ELSE IF IsCode(it, 21) /\ to = "in" THEN {[it EXCEPT !.i = <<2, 0>>]}
     ELSE IF it.w \notin LENGTHS \cup FEEDS \/ Dwell(b) \/ ~Has(it) THEN {it}
     ELSE IF Rotation(b) /\ it.w \in {"I", "J", "K", "R"} THEN {it}
     ELSE {[it EXCEPT !.i = c.i, !.d = c.f # <<>>, !.f = c.f] : c \in Scaled(it.i, it.f, to, digits[it.w])}
Conv(b, to, digits) == [k \in DOMAIN b |-> ConvItem(b, k, to, digits)]

(****************************** rotation (T02) *********************************)
AXES == <<"X", "Y", "Z">>
VECT == <<"I", "J", "K">>
\* a quarter turn about the axis a takes the axis after it to the one before it, reversed, and that one to the axis after it
Nx(a) == (a % 3) + 1
Quarter(a, v) == IF v.n = a THEN v
                 ELSE IF v.n = Nx(a) THEN [n |-> Nx(Nx(a)), s |-> -v.s] ELSE [n |-> Nx(a), s |-> v.s]
RECURSIVE Turn(_, _, _)
Turn(a, q, v) == IF q = 0 THEN v ELSE Turn(a, q - 1, Quarter(a, v))     \* q quarter turns; v: the axis n with the sign s
Index(seq, w) == CHOOSE n \in 1..3 : seq[n] = w
In3(seq, w) == \E n \in 1..3 : seq[n] = w
Flip(it) == [it EXCEPT !.sg = IF it.sg = "-" THEN "" ELSE "-"]
PLANE == [n \in 1..3 |-> <<19, 18, 17>>[n]]                             \* the code of the plane across the axis n
RotItem(it, a, q) ==
  IF In3(AXES, it.w) \/ In3(VECT, it.w)
  THEN LET seq == IF In3(AXES, it.w) THEN AXES ELSE VECT
           v == Turn(a, q, [n |-> Index(seq, it.w), s |-> 1])
           r == [it EXCEPT !.w = seq[v.n]]
       IN IF v.s < 0 THEN Flip(r) ELSE r
  ELSE IF it.w = "G" /\ Plain(it) /\ it.f = <<>> /\ it.i # <<>> /\ Len(it.i) < 9
  THEN LET c == Val(it.i)
       IN IF c \in 17..19 THEN LET v == Turn(a, q, [n |-> CHOOSE n \in 1..3 : PLANE[n] = c, s |-> 1])
                               IN [it EXCEPT !.i = <<1, PLANE[v.n] - 10>>]
          ELSE IF c \in 2..3 THEN LET v == Turn(a, q, [n |-> 3, s |-> 1])       \* the axis of an arc of the XY plane
                                  IN [it EXCEPT !.i = <<IF v.s > 0 THEN c ELSE 5 - c>>]
          ELSE it
  ELSE it
Rot(b, a, q) == [k \in DOMAIN b |-> RotItem(b[k], a, q)]

(****************************** removals (T05, T03) ****************************)
NoComments(b) == SelectSeq(b, LAMBDA it : it.w # "(")
RECURSIVE NoMarks(_)
NoMarks(b) == IF b # <<>> /\ b[1].w = "/" /\ b[1].i # <<>> THEN NoMarks(Tail(b)) ELSE b
IsNumber(it) == it.w \in {"N", ":"}
NoNumber(b) == IF b # <<>> /\ IsNumber(b[1]) THEN Tail(b) ELSE b

(****************************** numbering (T03) ********************************)
\* the settings s: word, step, freq, max, only (existing numbers), zeros (full width); the state: next number and position in the group
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
Width(w) == IF w = "N" THEN 5 ELSE IF w = ":" THEN 4 ELSE 0
First(w) == IF w = ":" THEN 0 ELSE 1
Padded(n, k) == LET d == Digits(n) IN Zeros(IF k > Len(d) THEN k - Len(d) ELSE 0) \o d
NumberItem(s, n) == [w |-> s.word, sg |-> "", op |-> "", m |-> "", i |-> IF s.zeros THEN Padded(n, Width(s.word)) ELSE Digits(n),
                     d |-> FALSE, f |-> <<>>, cl |-> "", x |-> "", as |-> ""]
TakesNumber(s, b) ==
  /\ b # <<>>
  /\ IF IsNumber(b[1]) THEN TRUE ELSE ~s.only /\ b[1].w \notin {"/", "%", "O", "("}
Numbered(s, st, b) ==      \* [b |-> block, st |-> state]
  IF ~TakesNumber(s, b) THEN [b |-> b, st |-> st]
  ELSE LET due == s.freq < 2 \/ st.pos = 0
           rest == NoNumber(b)
           nx == st.n + s.step
       IN [b |-> IF due THEN <<NumberItem(s, st.n)>> \o rest ELSE rest,
           st |-> [n |-> IF ~due THEN st.n ELSE IF nx > s.max THEN First(s.word) ELSE nx,
                   pos |-> IF s.freq < 2 THEN st.pos ELSE (st.pos + 1) % s.freq]]
=============================================================================
