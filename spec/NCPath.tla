------------------------------- MODULE NCPath -------------------------------
(* What a block that passed the rules does to the tool: motion (P01, P02, P03),   *)
(* time (P04) and the tool in the spindle (P05).                                  *)
(* Lengths are symbolic: a term is a sequence of parts [op, a] that add up, a     *)
(* being whole numbers scaled by 10000. The operators of the parts:               *)
(*   num <v>            the length v                                              *)
(*   peck <n,q,r,z>     n q / 5, n pecks of q from r to z                          *)
(*   pecks <n,q>        (n^2 + n) q, n pecks each going back                       *)
(*   line <x,y,z,h>     sqrt(x^2+y^2+z^2), x halved first if h = 1                *)
(*   arcc <x0,y0,x1,y1,i,j,d,h>  around the centre (x0+i, y0+j), d = 1 if in the  *)
(*                      mathematical direction of the plane, x and i halved if h  *)
(*   arcr <x0,y0,x1,y1,r,h>      with the radius r, more than half if r < 0       *)
(*   helc <i,j,p,n>     a turn of radius |(i,j)| and pitch p, divided by n        *)
(*   helr <r,p,n>       the same with the radius given                            *)
(*   spiq <i,j,q>       a spiral of the radius |(i,j)| with q per turn            *)
(*   spil <i,j,l>       a spiral of the radius |(i,j)| with l turns               *)
(*   back <z,q>         sqrt(z^2+q^2)                                             *)
EXTENDS NCBase

Part(op, a) == <<[op |-> op, a |-> a]>>
Zero == <<>>
Len1(v) == IF v = 0 THEN Zero ELSE Part("num", <<v>>)
Line(x, y, z, h) == IF x = 0 /\ y = 0 /\ z = 0 THEN Zero ELSE Part("line", <<x, y, z, h>>)
RECURSIVE Times(_, _)
Times(t, n) == IF n <= 0 THEN Zero ELSE t \o Times(t, n - 1)

PartZero(q) == CASE q.op = "num" -> q.a[1] = 0
                 [] q.op \in {"peck", "pecks"} -> q.a[1] = 0
                 [] q.op = "arcc" -> q.a[5] = 0 /\ q.a[6] = 0
                 [] q.op = "arcr" -> q.a[5] = 0
                 [] q.op = "helc" -> q.a[1] = 0 /\ q.a[2] = 0 /\ q.a[3] = 0
                 [] q.op = "helr" -> q.a[1] = 0 /\ q.a[2] = 0
                 [] OTHER -> FALSE
IsZero(t) == \A i \in DOMAIN t : PartZero(t[i])

DrillPlain == {74, 81, 82, 84, 85, 86, 88, 89}
DrillPeck  == {73, 76, 83, 87}
Drills     == DrillPlain \cup DrillPeck
Planes     == {17, 18, 19}
Turnable   == {"X", "Y", "Z", "A", "B", "C"}

Axes(plane)  == CASE plane = 17 -> <<"X", "Y", "Z">> [] plane = 18 -> <<"X", "Z", "Y">> [] OTHER -> <<"Y", "Z", "X">>
Centre(plane) == CASE plane = 17 -> <<"I", "J", "K">> [] plane = 18 -> <<"I", "K", "J">> [] OTHER -> <<"J", "K", "I">>
\* 1 if the code turns in the mathematical direction of (first axis, second axis)
Turns(plane, g) == IF (g = 3) = (plane # 18) THEN 1 ELSE 0

(***************************** the state **************************************)
Point(c, p) == [a \in DOMAIN p |-> p[a] - (IF Has(c.zero, a) THEN c.zero[a] ELSE 0)]
PathInit(c) ==
  [pos |-> Point(c, c.base), f |-> NONE, s |-> IF c.def.operator THEN c.def.rot ELSE NONE,
   g |-> c.def.motion, plane |-> c.def.plane, ret |-> c.def.ret, prog |-> c.def.prog, css |-> c.def.css,
   fmode |-> c.def.fmode, helix |-> "none", byR |-> FALSE, cyc |-> <<>>, first |-> TRUE, tool |-> "", auto |-> FALSE]

(********************** what a block says **************************************)
\* the words before an optional block mark
RECURSIVE Visible(_, _)
Visible(b, i) == IF i > Len(b) \/ b[i].a = "/" THEN <<>>
                 ELSE IF b[i].k = "num" THEN <<b[i]>> \o Visible(b, i + 1) ELSE Visible(b, i + 1)
Vis(b) == Visible(b, 1)

Params(c) == {"X", "Y", "Z", "I", "J", "K", "R", "Q", "L", "P", "U"} \cup DOMAIN c.axes
ParamVal(w) == IF w.a = "P" /\ ~w.dot THEN Val(w) \div 1000 ELSE Val(w)
RECURSIVE Values(_, _, _)
Values(c, v, n) == IF n = 0 THEN <<>>
                   ELSE IF v[n].a \in Params(c) THEN Put(Values(c, v, n - 1), v[n].a, ParamVal(v[n]))
                   ELSE Values(c, v, n - 1)

LastOf(v, P(_), F(_)) == LET s == SelectSeq(v, P) IN IF s = <<>> THEN NONE ELSE F(Last(s))
IsG(w) == w.a = "G" /\ HasInt(w)
IsM(w) == w.a = "M" /\ HasInt(w) /\ ~w.dot
IsT(w) == w.a = "T" /\ HasInt(w) /\ ~w.dot
Motions == {0, 1, 2, 3, 80} \cup Drills
KnownG == Motions \cup Planes \cup {90, 91, 94, 95, 96, 97, 98, 99}
GKey(w) == ToString(w.ip) \o (IF w.fd > 0 THEN "." \o ToString(w.fr) ELSE "")

\* words that are not positions in a block with one of these codes
OtherCodes(a) ==
  CASE a = "X" -> {"4", "10", "50.1", "51.1", "52", "68", "68.2", "68.3", "68.4", "92"}
    [] a \in {"Y", "Z"} -> {"10", "50.1", "51.1", "52", "68", "68.2", "68.3", "68.4", "92"}
    [] a \in {"I", "J", "K"} -> {"68.2", "68.4"}
    [] a = "R" -> {"5", "5.1", "6.2", "10", "68", "68.3"}
    [] a \in {"U", "W"} -> {"71", "72"}
    [] OTHER -> {}
OfOther(a, other) == OtherCodes(a) \cap other # {}

Said(c, b) ==
  LET v == Vis(b)
      G(S) == LastOf(v, LAMBDA w : IsG(w) /\ w.ip \in S, LAMBDA w : w.ip)
      ts == SelectSeq(v, IsT)
      m6 == \E i \in DOMAIN v : IsM(v[i]) /\ v[i].ip = 6
      code(cd) == cd # <<>> /\ \E i \in DOMAIN v : IsM(v[i]) /\ v[i].a = cd[1] /\ v[i].ds = cd[2]
  IN [f |-> LastOf(v, LAMBDA w : w.a = "F", Val), s |-> LastOf(v, LAMBDA w : w.a = "S", Val),
      g |-> G(Motions), plane |-> G(Planes), prog |-> G({90, 91}), fmode |-> G({94, 95}),
      css |-> G({96, 97}), ret |-> G({98, 99}),
      other |-> {GKey(v[i]) : i \in {j \in DOMAIN v : IsG(v[j]) /\ v[j].ip \notin KnownG}},
      t |-> IF ts = <<>> THEN "" ELSE IF m6 THEN ts[1].ds ELSE Last(ts).ds,
      hast |-> ts # <<>>, m6 |-> m6,
      pallet |-> code(c.palc), measure |-> ~c.automeas /\ code(c.measc),
      vals |-> Values(c, v, Len(v))]

TakesTool(c, b) == LET d == Said(c, b) IN d.hast /\ (c.def.tnum \/ d.m6)

ToolId(c, ds) == IF c.mtype = "lathe" /\ Len(ds) > 2 THEN SubSeq(ds, 1, Len(ds) \div 2) ELSE ds

Pick(x, y) == IF x = NONE THEN y ELSE x
SaveModal(p, d) == [p EXCEPT !.f = Pick(d.f, @), !.s = Pick(d.s, @), !.plane = Pick(d.plane, @),
                             !.ret = Pick(d.ret, @), !.prog = Pick(d.prog, @), !.css = Pick(d.css, @),
                             !.fmode = Pick(d.fmode, @)]

\* where the words of the block leave the tool
Saved(p, vals, other, incr) ==
  LET keep == {a \in DOMAIN vals : /\ a \notin {"Q", "L"}
                                   /\ ~(p.g \in Drills /\ a = Axes(p.plane)[3])
                                   /\ ~OfOther(a, other)}
      new == [a \in keep |-> IF incr /\ a \in Turnable /\ Has(p.pos, a) THEN p.pos[a] + vals[a] ELSE vals[a]]
  IN [p EXCEPT !.pos = new @@ p.pos]

(******************************* drilling **************************************)
\* the rapid and cutting path of one hole: z0 level before, z depth, r retract level, q peck
HoleAbs(g, ret98, z0, z, r, q, incDepth) ==
  LET D == IF incDepth THEN Abs(z) ELSE Abs(r - z)
      n == IF q = NONE \/ q <= 0 THEN 0 ELSE D \div q
      R0 == Abs(r - z0)
      Peck(k) == Part("peck", <<k, IF k = 0 THEN 0 ELSE q, IF incDepth THEN 0 ELSE r, z>>)
  IN CASE g \in {81, 82, 85, 86, 88, 89} ->
            IF incDepth
            THEN IF ret98 THEN LET rapid == z0 - r + Abs(z) IN [w |-> Len1(2 * Abs(z) - rapid), f |-> Len1(rapid)]
                 ELSE [w |-> Len1(Abs(z)), f |-> Len1(z0 - r + Abs(z))]
            ELSE [w |-> Len1(D), f |-> Len1(IF ret98 THEN Abs(2 * z0 - r - z) ELSE Abs(z0 - z))]
       [] g \in {74, 84} -> [w |-> Len1(2 * D), f |-> Len1(IF ret98 THEN 2 * R0 ELSE R0)]
       [] g = 87 -> [w |-> Len1(Abs(r - z)), f |-> Len1(Abs(2 * R0 + 4 * q - Abs(r - z)))]
       [] g = 76 -> [w |-> Len1(D),
                     f |-> Len1(IF incDepth THEN (IF ret98 THEN 2 * R0 ELSE R0) + Abs(z) + 2 * q
                                ELSE R0 + (IF ret98 THEN Abs(z - z0) ELSE D) + 2 * q)]
       [] g = 73 -> [w |-> Len1(D) \o Peck(n),
                     f |-> Len1((IF ret98 THEN 2 * R0 ELSE R0) + D)]
       [] g = 83 -> LET rest == D - n * q
                        total == (IF ret98 THEN 2 ELSE 1) * R0 + (IF rest > 0 THEN 2 * D ELSE 0)
                        lin == n * q + rest
                    IN [w |-> Len1(lin) \o Peck(n),
                        f |-> Part("pecks", <<n, q>>) \o Len1(total - lin) \o Peck(-n)]

HoleInc(g, ret98, z, r, q) ==
  LET D == Abs(z)  R0 == Abs(r)
      n == IF q = NONE \/ q <= 0 THEN 0 ELSE D \div q
      Peck(k) == Part("peck", <<k, IF k = 0 THEN 0 ELSE q, 0, z>>)
  IN CASE g \in {81, 82, 85, 86, 88, 89} -> [w |-> Len1(D), f |-> Len1(D + (IF ret98 THEN 2 * R0 ELSE R0))]
       [] g \in {74, 84} -> [w |-> Len1(2 * D), f |-> Len1(IF ret98 THEN 2 * R0 ELSE 0)]
       [] g = 87 -> [w |-> Len1(D), f |-> Len1(2 * R0 + 3 * q) \o Part("back", <<z, q>>)]
       [] g = 76 -> [w |-> Len1(D), f |-> Len1((IF ret98 THEN R0 ELSE 0) + D + 2 * q)]
       [] g = 73 -> [w |-> Len1(D) \o Peck(n),
                     f |-> Len1((IF ret98 THEN 2 * R0 ELSE R0) + D) \o Peck(n)]
       [] g = 83 -> LET rest == D - n * q
                        total == (IF ret98 THEN 2 ELSE 1) * R0 + (IF rest > 0 THEN 2 * D ELSE 0)
                    IN [w |-> Len1(D) \o Peck(n),
                        f |-> Part("pecks", <<n, q>>) \o Len1(total - D) \o Peck(-n)]

(*************************** one motion ***************************************)
\* result of a motion: p the state, vals the words that are still positions,
\* w and f the cutting and rapid path, err what is missing, skip: nothing is done
Result(p, vals, w, f) == [p |-> p, vals |-> vals, w |-> w, f |-> f, err |-> "", skip |-> FALSE]
Fails(p, e) == [p |-> p, vals |-> <<>>, w |-> Zero, f |-> Zero, err |-> e, skip |-> FALSE]
Skips(p) == [p |-> p, vals |-> <<>>, w |-> Zero, f |-> Zero, err |-> "", skip |-> TRUE]

\* m: modes in force in the block
Lathe(c, m) == c.mtype = "lathe" \/ (c.mtype = "millturn" /\ m.plane = 18)
Half(c, m) == IF Lathe(c, m) /\ ~c.diam2x THEN 1 ELSE 0

Ended(p, m) == IF m.g \in {2, 3} THEN p ELSE [p EXCEPT !.helix = "none"]
Cancels(c, g) == CASE g = 0 -> c.def.c0 [] g = 1 -> c.def.c1 [] g = 2 -> c.def.c2 [] g = 3 -> c.def.c3
Leaves(c, p, g) == IF Cancels(c, g) THEN [p EXCEPT !.first = TRUE] ELSE p

Straight(c, p0, m, vals, target) ==
  LET p == Leaves(c, p0, m.g)
      abs == m.prog = 90 \/ target # <<>>
      to == IF target # <<>> THEN target ELSE vals
      missing == {a \in {"X", "Y", "Z"} : ~Has(p.pos, a) /\ (abs \/ ~Has(to, a))}
      d(a) == IF ~Has(to, a) THEN 0 ELSE IF abs THEN to[a] - p.pos[a] ELSE to[a]
      t == Line(d("X"), d("Y"), d("Z"), Half(c, m))
  IN IF missing # {} THEN Fails(p, "missing")
     ELSE IF m.g = 0 THEN Result(p, vals, Zero, t) ELSE Result(p, vals, t, Zero)

Circular(c, p0, m, said, vals) ==
  LET ax == Axes(m.plane)  ce == Centre(m.plane)
      has(k) == Has(vals, k)
      x == Get(vals, ax[1])  y == Get(vals, ax[2])  z == Get(vals, ax[3])
      i0 == Get(vals, ce[1]) j0 == Get(vals, ce[2]) k0 == Get(vals, ce[3])
      r0 == Get(vals, "R")   q == Get(vals, "Q")    l == Get(vals, "L")
      p == Leaves(c, p0, m.g)
      px == Get(p.pos, ax[1]) py == Get(p.pos, ax[2]) pz == Get(p.pos, ax[3])
      mi == Pick(i0, Get(p.pos, ce[1])) mj == Pick(j0, Get(p.pos, ce[2]))
      mk == Pick(k0, Get(p.pos, ce[3])) mr == Pick(r0, Get(p.pos, "R"))
      inc == m.prog = 91
      h == Half(c, m)
      tox == IF x = NONE THEN px ELSE IF inc THEN px + x ELSE x
      toy == IF y = NONE THEN py ELSE IF inc THEN py + y ELSE y
      Arc(pp) ==
        LET modal == r0 = NONE /\ (i0 = NONE \/ j0 = NONE)
            i == IF modal THEN mi ELSE i0
            j == IF modal THEN mj ELSE j0
        IN IF r0 = NONE /\ (i = NONE \/ j = NONE) THEN Fails(pp, "centre")
           ELSE Result(pp, vals,
                       IF i # NONE /\ j # NONE
                       THEN Part("arcc", <<px, py, tox, toy, i, j, Turns(m.plane, m.g), h>>)
                       ELSE Part("arcr", <<px, py, tox, toy, r0, h>>), Zero)
      spiral == q # NONE \/ l # NONE
      starts == ~spiral /\ p.helix = "none" /\ x # NONE /\ y # NONE /\ z # NONE
                /\ ((i0 # NONE /\ j0 # NONE /\ k0 # NONE) \/ r0 # NONE)
      fullTurn == IF inc THEN x = 0 /\ y = 0 ELSE x = px /\ y = py
      helix == IF starts THEN (IF fullTurn THEN "full" ELSE "quarter") ELSE p.helix
      \* the last given of radius and centre counts
      gi == IF spiral THEN mi ELSE i0
      gj == IF spiral THEN mj ELSE j0
      byR == IF r0 # NONE /\ (gi = NONE \/ gj = NONE) THEN TRUE
             ELSE IF gi # NONE \/ gj # NONE THEN FALSE ELSE p.byR
      ph == [p EXCEPT !.helix = helix, !.byR = byR]
      off == [ph EXCEPT !.helix = "none"]
      centred == mi # NONE /\ mj # NONE /\ ~(byR /\ mr # NONE)
      dz == IF inc THEN (IF z = NONE THEN 0 ELSE z) ELSE IF z = NONE THEN 0 ELSE pz - z
      Turn(n, pitch) == IF centred THEN Part("helc", <<mi, mj, pitch, n>>)
                        ELSE Part("helr", <<mr, pitch, n>>)
      noRadius == mr = NONE /\ (mi = NONE \/ mj = NONE \/ mk = NONE)
      atStart == IF inc THEN (x = NONE \/ x = 0) /\ (y = NONE \/ y = 0) ELSE tox = px /\ toy = py
      quarter == IF inc THEN starts \/ (x # NONE /\ mi # NONE /\ mj # NONE)
                 ELSE px # tox /\ py # toy /\ z # NONE /\ z # pz
  IN IF said.g = NONE /\ DOMAIN vals = {} THEN Skips(p0)
     ELSE IF px = NONE \/ py = NONE THEN Fails(p, "missing")
     ELSE IF spiral /\ (mi = NONE \/ mj = NONE) THEN Fails(p, "centre")
     ELSE IF q = 0 THEN Fails(p, "missing")       \* endless turns
     ELSE IF spiral /\ helix = "none"
          THEN Result(p, vals, IF mi = 0 /\ mj = 0 THEN Zero
                               ELSE IF q # NONE THEN Part("spiq", <<mi, mj, q>>) ELSE Part("spil", <<mi, mj, l>>), Zero)
     ELSE IF helix = "none" THEN Arc(p)
     ELSE IF starts /\ pz = NONE THEN Fails(p, "missing")
     ELSE IF noRadius THEN Fails([p EXCEPT !.helix = helix], "centre")
     ELSE IF helix = "full"
          THEN IF atStart THEN Result(ph, vals, Turn(1, dz), Zero) ELSE Result(off, vals, Turn(2, dz), Zero)
     ELSE IF quarter THEN Result(ph, vals, Turn(4, 4 * dz), Zero)
     ELSE IF centred THEN Result(off, vals, Part("arcc", <<px, py, tox, toy, mi, mj, Turns(m.plane, m.g), h>>), Zero)
     ELSE Result(off, vals, Part("arcr", <<px, py, tox, toy, mr, h>>), Zero)

Drill(c, p0, m, said, vals) ==
  LET ax == Axes(m.plane)
      p == p0
      given == [a \in DOMAIN vals \cap {ax[3], "R", "Q"} |-> vals[a]]
      cyc == given @@ (IF p.first THEN <<>> ELSE p.cyc)
      pc == [p EXCEPT !.cyc = cyc]
      z0 == Get(p.pos, ax[3])
      zd == IF c.noY THEN 0 ELSE Get(cyc, ax[3])
      inc == m.prog = 91
      peck == IF Has(cyc, "Q") THEN Abs(cyc["Q"]) ELSE NONE       \* its sign is ignored
      hole == IF inc THEN HoleInc(m.g, m.ret = 98, zd, cyc["R"], peck)
              ELSE HoleAbs(m.g, m.ret = 98, z0, zd, cyc["R"], peck, c.def.zval)
      d(a) == IF ~Has(vals, a) THEN 0 ELSE IF inc THEN vals[a] ELSE vals[a] - p.pos[a]
      between == Line(d(ax[1]), d(ax[2]), 0, 0)
      k == Get(vals, "K")
      n == IF ~inc THEN 1 ELSE IF k = NONE \/ k < 0 THEN 1 ELSE k \div SCALE
      vals2 == IF inc /\ k # NONE /\ k > 0
               THEN [a \in DOMAIN vals |-> IF a \in {ax[1], ax[2]} THEN vals[a] * n ELSE vals[a]] ELSE vals
      done == [pc EXCEPT !.first = FALSE]
  IN IF said.g = NONE /\ DOMAIN vals = {} THEN Skips(p0)
     ELSE IF z0 = NONE THEN Fails(pc, "missing")
     ELSE IF zd = NONE \/ ~Has(cyc, "R") THEN Fails(pc, "missing")
     ELSE IF m.g \in DrillPeck /\ peck = NONE THEN Fails(pc, "missing")
     ELSE IF m.g \in {73, 83} /\ peck = 0 THEN Fails(pc, "missing")
     ELSE IF ~Has(p.pos, ax[1]) \/ ~Has(p.pos, ax[2]) THEN Fails(pc, "missing")
     ELSE IF k = 0 THEN Result(done, vals, Zero, between)
     ELSE Result(done, vals2, Times(hole.w, n), Times(hole.f \o between, n))

(***************************** a whole block **********************************)
\* -> [p, err, w, f, wait, rate]; units as they were before the block
NoRate == [k |-> "none", f |-> 0, s |-> 0]
Out(p, err, w, f, wait, rate) == [p |-> p, err |-> err, w |-> w, f |-> f, wait |-> wait, rate |-> rate]

PathStep(c, units, p0, b) ==
  LET d == Said(c, b)
      exch == (c.def.tnum /\ d.hast) \/ (~c.def.tnum /\ d.m6)
      wait1 == (IF exch THEN c.tex + (IF c.automeas THEN c.tmeas ELSE 0) ELSE 0)
               + (IF d.measure THEN c.tmeas ELSE 0) + (IF d.pallet THEN c.tpal ELSE 0)
      takes == d.hast /\ (c.def.tnum \/ d.m6)
      p1 == [p0 EXCEPT !.auto = @ \/ (d.hast /\ c.def.autorapid),
                       !.tool = IF takes THEN ToolId(c, d.t) ELSE @]
      \* a tool that is only chosen
      chosen == d.hast /\ ~exch
      withG == d.g # NONE \/ d.plane # NONE \/ d.ret # NONE \/ d.prog # NONE
      pm == SaveModal(p1, d)
      \* dwell
      dwell == "4" \in d.other
      \* no dwell gives time back
      Sec(a) == IF dwell /\ Has(d.vals, a) /\ d.vals[a] > 0 THEN d.vals[a] ELSE 0
      wait == wait1 + Sec("X") + Sec("U") + Sec("P")
      vals == LET v1 == IF dwell THEN Drop(d.vals, {"X", "U", "P"}) ELSE d.vals
              IN Drop(v1, {a \in DOMAIN v1 : OfOther(a, d.other)})
      home == ~exch /\ "28" \in d.other
      target == IF exch THEN Point(c, c.texp) ELSE IF home THEN Point(c, c.base) ELSE <<>>
      goes == exch \/ home
      auto == p1.auto /\ DOMAIN vals # {}
      p2 == [p1 EXCEPT !.g = IF goes \/ auto THEN 0 ELSE @, !.auto = IF auto THEN FALSE ELSE @]
      m == [g |-> Pick(d.g, p2.g), plane |-> Pick(d.plane, p2.plane), prog |-> Pick(d.prog, p2.prog),
            css |-> Pick(d.css, p2.css), ret |-> Pick(d.ret, p2.ret), fmode |-> Pick(d.fmode, p2.fmode)]
      p3 == Ended(p2, m)
      res == CASE m.g \in {0, 1} -> Straight(c, p3, m, vals, target)
               [] m.g \in {2, 3} -> Circular(c, p3, m, d, vals)
               [] m.g = 80 -> Result([p3 EXCEPT !.first = TRUE], vals, Zero, Zero)
               [] OTHER -> Drill(c, p3, m, d, vals)
      g2 == IF m.g = 80 /\ c.def.g80rapid THEN 0 ELSE m.g
      p4 == [SaveModal(res.p, d) EXCEPT !.g = g2]
      p5 == IF goes THEN Saved(p4, target, d.other, FALSE) ELSE Saved(p4, res.vals, d.other, p4.prog = 91)
      rev == Lathe(c, m) /\ m.fmode = 95
      cutting == ~IsZero(res.w)
      rate == IF ~cutting \/ p5.f = NONE \/ p5.f <= 0 THEN NoRate
              ELSE IF ~rev THEN [k |-> "min", f |-> p5.f, s |-> 0]
              ELSE IF p5.s = NONE \/ p5.s <= 0 THEN NoRate
              ELSE [k |-> IF m.css = 96 THEN (IF units = "in" THEN "cssin" ELSE "cssmm") ELSE "rev", f |-> p5.f, s |-> p5.s]
      err == IF cutting /\ p5.f = NONE THEN "feed"
             ELSE IF cutting /\ p5.f > 0 /\ rev /\ p5.s = NONE THEN "speed" ELSE ""
  IN IF chosen /\ withG THEN Out(p1, "twithg", Zero, Zero, wait1, NoRate)
     ELSE IF chosen THEN Out(Saved(pm, d.vals, d.other, pm.prog = 91), "", Zero, Zero, wait1, NoRate)
     ELSE IF ~goes /\ ~auto /\ p2.g = NONE /\ d.g = NONE
          THEN Out(Saved(pm, vals, d.other, pm.prog = 91), "", Zero, Zero, wait, NoRate)
     ELSE IF res.err # "" THEN Out(res.p, res.err, Zero, Zero, wait, NoRate)
     ELSE IF res.skip THEN Out(SaveModal(res.p, d), "", Zero, Zero, wait, NoRate)
     ELSE Out(p5, err, res.w, res.f, wait, rate)

\* axes outside their travel: V04
Outside(c, p) == {a \in DOMAIN p.pos \cap DOMAIN c.axes :
                    LET z == IF a \in {"X", "Y", "Z"} /\ Has(c.zero, a) THEN c.zero[a] ELSE 0
                    IN p.pos[a] < c.axes[a][1] - z \/ p.pos[a] > c.axes[a][2] - z}
=============================================================================
