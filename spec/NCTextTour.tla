----------------------------- MODULE NCTextTour -----------------------------
(* All blocks of up to depth items of an alphabet, and blocks from outside, with  *)
(* what every operation on their text makes of them.                              *)
EXTENDS NCText, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Alphabet == In.alphabet
Scripts == In.scripts
Which == In.which              \* the operations asked for

VARIABLES h, b
vars == <<h, b>>

Ask(o, v) == IF \E k \in DOMAIN Which : Which[k] = o THEN v ELSE <<>>
Show(c) == [mm |-> Ask("conv", Conv(c, "mm", In.digits.mm)), in |-> Ask("conv", Conv(c, "in", In.digits.in)),
            rot |-> Ask("rot", [n \in 1..9 |-> Rot(c, ((n - 1) \div 3) + 1, ((n - 1) % 3) + 1)]),
            nc |-> Ask("rem", NoComments(c)), nm |-> Ask("rem", NoMarks(c)), nn |-> Ask("rem", NoNumber(c))]
Out == PrintT("TEXT " \o ToJson([h |-> h', o |-> Show(b')]))

Init == /\ h = <<>> /\ b = <<>>
Next == \/ /\ Len(h) < In.depth /\ (IF h = <<>> THEN TRUE ELSE h[1] > 0)
           /\ \E i \in 1..Len(Alphabet) : h' = Append(h, i) /\ b' = Append(b, Alphabet[i])
           /\ Out
        \/ /\ h = <<>>
           /\ \E n \in 1..Len(Scripts) : h' = <<-n>> /\ b' = Scripts[n]
           /\ Out
Spec == Init /\ [][Next]_vars

(***************************** laws of conversion ******************************)
Changed(it) == it.w \in LENGTHS \cup FEEDS \/ IsCode(it, 20) \/ IsCode(it, 21)
\* nothing else changes: every other item stays, and of the others address, sign and place
OnlyLengths == \A to \in {"mm", "in"} : \A k \in DOMAIN b : \A it \in ConvItem(b, k, to, In.digits[to]) :
  /\ [it EXCEPT !.i = b[k].i, !.d = b[k].d, !.f = b[k].f] = b[k]
  /\ ~Changed(b[k]) => it = b[k]
\* in units of the fourth digit (small numbers only)
Ten4(it) == Val(it.i) * 10000 + Val(it.f \o Zeros(4 - Len(it.f)))
Small(it) == Len(it.i) <= 4 /\ Len(it.f) <= 4
Abs(n) == IF n < 0 THEN -n ELSE n
\* there and back: within the rounding
Back == \A k \in DOMAIN b : b[k].w \in LENGTHS /\ Small(b[k]) =>
  /\ \A it \in ConvItem(b, k, "in", [In.digits.in EXCEPT ![b[k].w] = 4]) : \A c \in ConvItem([b EXCEPT ![k] = it], k, "mm", [In.digits.mm EXCEPT ![b[k].w] = 4]) :
       Abs(Ten4(c) - Ten4(b[k])) <= 13
  /\ \A it \in ConvItem(b, k, "mm", [In.digits.mm EXCEPT ![b[k].w] = 4]) : \A c \in ConvItem([b EXCEPT ![k] = it], k, "in", [In.digits.in EXCEPT ![b[k].w] = 4]) :
       Small(it) => Ten4(c) = Ten4(b[k])
\* what the number means: 254 tenths of a mm are ten inches, up to half of the last digit
Meaning == \A k \in DOMAIN b : b[k].w \in LENGTHS /\ Len(b[k].i) <= 2 /\ Len(b[k].f) <= 4 =>
  \A it \in ConvItem(b, k, "in", [In.digits.in EXCEPT ![b[k].w] = 4]) : it = b[k] \/ 2 * Abs(Ten4(it) * 254 - Ten4(b[k]) * 10) <= 254
\* dwell blocks, skipped blocks, variables keep their numbers
Keeps == \A to \in {"mm", "in"} : \A k \in DOMAIN b : (Dwell(b) \/ Skipped(b) \/ ~Plain(b[k])) /\ b[k].w # "G" => ConvItem(b, k, to, In.digits[to]) = {b[k]}

(****************************** laws of rotation *******************************)
Coord(c) == [k \in DOMAIN c |-> IF c[k].sg = "+" THEN [c[k] EXCEPT !.sg = ""] ELSE c[k]]
Places(c) == SelectSeq(Coord(c), LAMBDA it : ~(IsCode(it, 2) \/ IsCode(it, 3)))
Twice == \A a \in 1..3 : /\ Places(Rot(Rot(b, a, 1), a, 1)) = Places(Rot(b, a, 2))
                         /\ Places(Rot(Rot(b, a, 1), a, 3)) = Places(Rot(b, a, 0))
                         /\ Places(Rot(Rot(b, a, 2), a, 2)) = Places(Rot(b, a, 0))
\* a rotation keeps lengths and handedness: the images of the axes are again right handed
E3(n) == [k \in 1..3 |-> IF k = n THEN 1 ELSE 0]
Img(a, q, n) == LET v == Turn(a, q, [n |-> n, s |-> 1]) IN [k \in 1..3 |-> IF k = v.n THEN v.s ELSE 0]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Handed == \A a \in 1..3, q \in 1..3 : /\ Cross(Img(a, q, 1), Img(a, q, 2)) = Img(a, q, 3) /\ Cross(Img(a, q, 2), Img(a, q, 3)) = Img(a, q, 1)
                                      /\ Img(a, q, a) = E3(a)
\* the sense of an arc is a vector along the axis of its plane: clockwise against it. For the XY plane the new plane and direction say the image
Sense(n, c) == [k \in 1..3 |-> IF k = n THEN (IF c = 2 THEN -1 ELSE 1) ELSE 0]
ImgV(a, q, u) == [k \in 1..3 |-> u[1] * Img(a, q, 1)[k] + u[2] * Img(a, q, 2)[k] + u[3] * Img(a, q, 3)[k]]
G(n) == [w |-> "G", sg |-> "", op |-> "", m |-> "", i |-> Digits(n), d |-> FALSE, f |-> <<>>, cl |-> "", x |-> "", as |-> ""]
Arcs == \A a \in 1..3, q \in 1..3, c \in 2..3 :
  LET p == RotItem(G(17), a, q)  d == RotItem(G(c), a, q)
      n == CHOOSE n \in 1..3 : PLANE[n] = Val(p.i)
  IN Sense(n, Val(d.i)) = ImgV(a, q, Sense(3, c))

(****************************** laws of removal ********************************)
Removals == /\ NoComments(NoComments(b)) = NoComments(b) /\ NoMarks(NoMarks(b)) = NoMarks(b)
            /\ Len(NoComments(b)) + Cardinality({k \in DOMAIN b : b[k].w = "("}) = Len(b)
            /\ (\E k \in 0..Len(b) : NoMarks(b) = SubSeq(b, k + 1, Len(b)) /\ \A j \in 1..k : b[j].w = "/")
            /\ (\A k \in DOMAIN b : b[k].w # "(") => NoComments(b) = b
            /\ (IF b = <<>> THEN TRUE ELSE b[1].w # "/") => NoMarks(b) = b
=============================================================================
