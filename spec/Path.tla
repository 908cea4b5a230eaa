-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Path data: text, segments, normalized and transformed path data, its    *)
(* box and its length.                                                     *)
(* A segment is [t: command letter, v: numbers]. The shape of an arc is    *)
(* kept as the matrix Q of its ellipse {p : p Q^-1 p = 1}:                 *)
(*   v = <<q11, q12, q22, large, sweep, x, y>>                             *)
(* As in the code, a run of M (m) segments is one moveto with the lineto   *)
(* segments that follow it implicitly.                                     *)
(* A state is [p: the current list of segments].                           *)
(***************************************************************************)
EXTENDS Rat

POk(s)    == [st |-> s, out |-> [r |-> "ok"]]
PSay(s, b, why) == [st |-> s, out |-> [r |-> IF b THEN "ok" ELSE why]]

Cmds == {"A", "B", "C", "H", "L", "M", "Q", "S", "T", "V", "Z",
         "a", "b", "c", "h", "l", "m", "q", "s", "t", "v", "z"}
Lows == {"a", "b", "c", "h", "l", "m", "q", "s", "t", "v", "z"}
Up(c) == IF c \in Lows THEN ToUp[c] ELSE c
Argc(c) == CASE Up(c) = "A" -> 7 [] Up(c) = "C" -> 6 [] Up(c) \in {"Q", "S"} -> 4
             [] Up(c) \in {"L", "M", "T"} -> 2 [] Up(c) = "Z" -> 0 [] OTHER -> 1

Turn(a) == IF a[2] # 1 THEN -1 ELSE a[1] % 360
Cos4(a) == CASE Turn(a) = 0 -> R1 [] Turn(a) = 180 -> RNeg(R1) [] OTHER -> R0
Sin4(a) == CASE Turn(a) = 90 -> R1 [] Turn(a) = 270 -> RNeg(R1) [] OTHER -> R0

(* The matrix of an ellipse; angles are multiples of 45 degrees.           *)
Ell(rx, ry, phi) ==
  LET a == RSq(rx) b == RSq(ry) k == phi[1] % 180
      m == RHalf(RAdd(a, b)) d == RHalf(RSub(a, b))
  IN CASE k = 0 -> <<a, R0, b>> [] k = 90 -> <<b, R0, a>>
       [] k = 45 -> <<m, d, m>> [] k = 135 -> <<m, RNeg(d), m>>
Flag(x) == IF x[1] = 0 THEN R0 ELSE R1
Seg(t, v) == [t |-> t, v |-> IF Up(t) = "A"
                THEN Ell(v[1], v[2], v[3]) \o <<Flag(v[4]), Flag(v[5]), v[6], v[7]>>
                ELSE v]

(* ---- the grammar of path data ------------------------------------------- *)
RECURSIVE SkipWS(_, _)
SkipWS(s, i) == IF i <= Len(s) /\ Ch(s, i) \in WS THEN SkipWS(s, i + 1) ELSE i
SkipSep(s, i) == LET j == SkipWS(s, i)
                 IN IF j <= Len(s) /\ Ch(s, j) = "," THEN SkipWS(s, j + 1) ELSE j
RECURSIVE DigEnd(_, _)
DigEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Digits THEN DigEnd(s, i + 1) ELSE i
RECURSIVE DigVal(_, _, _, _)
DigVal(s, i, j, n) == IF i >= j THEN n ELSE DigVal(s, i + 1, j, 10 * n + DigitVal[Ch(s, i)])
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
IsCh(s, i, set) == i <= Len(s) /\ Ch(s, i) \in set
ReadNum(s, i) ==       \* number at i: its value and what follows it
  LET neg == IsCh(s, i, {"-"})
      a == IF IsCh(s, i, {"-", "+"}) THEN i + 1 ELSE i
      b == DigEnd(s, a)
      c == IF IsCh(s, b, {"."}) THEN DigEnd(s, b + 1) ELSE b
      fd == IF c > b THEN c - b - 1 ELSE 0
      man == DigVal(s, b + 1, c, DigVal(s, a, b, 0))
      es == IF IsCh(s, c + 1, {"-", "+"}) THEN c + 2 ELSE c + 1
      ex == IsCh(s, c, {"e", "E"}) /\ IsCh(s, es, Digits)
      d == IF ex THEN DigEnd(s, es) ELSE c
      e == (IF ex THEN (IF IsCh(s, c + 1, {"-"}) THEN -1 ELSE 1) * DigVal(s, es, d, 0)
            ELSE 0) - fd
      q == IF e >= 0 THEN <<man * Pow10(e), 1>> ELSE Q(man, Pow10(-e))
  IN [v |-> IF neg THEN RNeg(q) ELSE q, j |-> d]
RECURSIVE PParse(_, _, _, _, _)
PParse(s, i, c, args, acc) ==
  LET k == SkipSep(s, i)
  IN IF k > Len(s) THEN acc
     ELSE IF Ch(s, k) \in {"Z", "z"}
          THEN PParse(s, k + 1, "", <<>>, Append(acc, Seg(Ch(s, k), <<>>)))
     ELSE IF Ch(s, k) \in Cmds THEN PParse(s, k + 1, Ch(s, k), <<>>, acc)
     ELSE LET n == IF c \in {"A", "a"} /\ Len(args) \in {3, 4}
                   THEN [v |-> <<DigitVal[Ch(s, k)], 1>>, j |-> k + 1]
                   ELSE ReadNum(s, k)
              q == Append(args, n.v)
          IN IF Len(q) = Argc(c)
             THEN PParse(s, n.j, c, <<>>, Append(acc, Seg(c, q)))
             ELSE PParse(s, n.j, c, q, acc)
ParsePath(s) == PParse(s, 1, "", <<>>, <<>>)

(* ---- walking along a path ------------------------------------------------ *)
(* w: current point, start of the subpath, control point to reflect, last   *)
(* command, bearing                                                         *)
W0 == [x |-> R0, y |-> R0, sx |-> R0, sy |-> R0, cx |-> R0, cy |-> R0, last |-> "", b |-> R0]
Rot(w, x, y) == LET c == Cos4(w.b) s == Sin4(w.b)
                IN <<RSub(RMul(c, x), RMul(s, y)), RAdd(RMul(s, x), RMul(c, y))>>
RotE(w, v) == IF Turn(w.b) \in {90, 270} THEN <<v[3], RNeg(v[2]), v[1]>>
              ELSE SubSeq(v, 1, 3)
(* The absolute form of a segment; H and V become L.                        *)
PtAt(w, t, x, y) == IF t \in Lows
                    THEN LET r == Rot(w, x, y) IN <<RAdd(w.x, r[1]), RAdd(w.y, r[2])>>
                    ELSE <<x, y>>
RECURSIVE Pts(_, _, _)
Pts(w, t, v) == IF v = <<>> THEN <<>>
                ELSE PtAt(w, t, v[1], v[2]) \o Pts(w, t, SubSeq(v, 3, Len(v)))
AbsSeg(w, g) ==
  LET t == g.t v == g.v IN
  CASE t = "H" -> [t |-> "L", v |-> <<v[1], w.y>>]
    [] t = "V" -> [t |-> "L", v |-> <<w.x, v[1]>>]
    [] t = "h" -> [t |-> "L", v |-> PtAt(w, t, v[1], R0)]
    [] t = "v" -> [t |-> "L", v |-> PtAt(w, t, R0, v[1])]
    [] t \in {"Z", "z"} -> [t |-> "Z", v |-> <<>>]
    [] t = "a" -> [t |-> "A", v |-> RotE(w, v) \o <<v[4], v[5]>> \o PtAt(w, t, v[6], v[7])]
    [] OTHER -> [t |-> Up(t), v |-> Pts(w, t, v)]
AbsG(w, g) == IF g.t = "A" THEN g ELSE AbsSeg(w, g)
Third(a, b) == RAdd(RMul(a, <<1, 3>>), RMul(b, <<2, 3>>))    \* 1/3 a + 2/3 b
Refl(w, k) == IF w.last \in k
              THEN <<RSub(RMul(<<2, 1>>, w.x), w.cx), RSub(RMul(<<2, 1>>, w.y), w.cy)>>
              ELSE <<w.x, w.y>>
(* What a segment draws from w: curves as cubics, and where it leads.       *)
Draw(w, g) ==
  LET a == AbsG(w, g) v == a.v n == Len(v) t == a.t
      r == Refl(w, IF t = "S" THEN {"C", "c", "S", "s"} ELSE {"Q", "q", "T", "t"})
      q == IF t = "Q" THEN <<v[1], v[2]>> ELSE r
      end == IF t = "Z" THEN <<w.sx, w.sy>> ELSE <<v[n - 1], v[n]>>
      ctl == CASE t = "C" -> <<v[3], v[4]>> [] t = "S" -> <<v[1], v[2]>>
               [] t \in {"Q", "T"} -> q [] OTHER -> end
      out == CASE t = "S" -> [t |-> "C", v |-> r \o v]
               [] t \in {"Q", "T"} ->
                    [t |-> "C", v |-> <<Third(w.x, q[1]), Third(w.y, q[2]),
                       Third(end[1], q[1]), Third(end[2], q[2]), end[1], end[2]>>]
               [] OTHER -> a
      new == t = "M" /\ w.last \notin {"M", "m"}
  IN [g |-> out,
      w |-> [w EXCEPT !.x = end[1], !.y = end[2], !.cx = ctl[1], !.cy = ctl[2],
                      !.last = g.t, !.sx = IF new THEN end[1] ELSE @,
                      !.sy = IF new THEN end[2] ELSE @]]
Bear(w, g) == [w EXCEPT !.b = IF g.t = "B" THEN g.v[1] ELSE RAdd(@, g.v[1]),
                        !.last = g.t]
IsB(g) == g.t \in {"B", "b"}
Walk(w, g) == IF IsB(g) THEN Bear(w, g) ELSE Draw(w, g).w

(* All that a path draws: [w: where from, g: absolute segment].             *)
RECURSIVE Drawn(_, _)
Drawn(w, p) ==
  IF p = <<>> THEN <<>>
  ELSE IF IsB(p[1]) THEN Drawn(Bear(w, p[1]), Tail(p))
  ELSE LET d == Draw(w, p[1])
       IN <<[w |-> w, g |-> d.g]>> \o Drawn(d.w, Tail(p))

(* An arc with no radius is a line, one that leads nowhere is left out.     *)
Det(v) == RSub(RMul(v[1], v[3]), RSq(v[2]))
Flat(g) == g.t = "A" /\ Det(g.v)[1] = 0
Nowhere(d) == d.g.t = "A" /\ ~Flat(d.g) /\ d.w.x = d.g.v[6] /\ d.w.y = d.g.v[7]
Basic(d) == IF Flat(d.g) THEN [d EXCEPT !.g = [t |-> "L", v |-> <<d.g.v[6], d.g.v[7]>>]]
            ELSE d
Strokes(p) == LET q == SelectSeq(Drawn(W0, p), LAMBDA d : ~Nowhere(d))
              IN TLCEval([i \in 1 .. Len(q) |-> Basic(q[i])])
Norm(p) == LET q == Strokes(p) IN TLCEval([i \in 1 .. Len(q) |-> q[i].g])
HasArc(p) == \E i \in 1 .. Len(p) : p[i].t \in {"A", "a"}

Thirds(p) == \E i \in 1 .. Len(p) : \E k \in 1 .. Len(p[i].v) : p[i].v[k][2] % 3 = 0

(* ---- transformation ------------------------------------------------------ *)
Map(m, x, y) == <<RAdd(RAdd(RMul(m[1], x), RMul(m[3], y)), m[5]),
                  RAdd(RAdd(RMul(m[2], x), RMul(m[4], y)), m[6])>>
RECURSIVE MapPts(_, _)
MapPts(m, v) == IF v = <<>> THEN <<>>
                ELSE Map(m, v[1], v[2]) \o MapPts(m, SubSeq(v, 3, Len(v)))
MapEll(m, v) ==          \* L Q L^T
  LET a == m[1] b == m[2] c == m[3] d == m[4]
      ac == RAdd(RMul(a, v[1]), RMul(c, v[2])) ad == RAdd(RMul(a, v[2]), RMul(c, v[3]))
      bc == RAdd(RMul(b, v[1]), RMul(d, v[2])) bd == RAdd(RMul(b, v[2]), RMul(d, v[3]))
  IN <<RAdd(RMul(ac, a), RMul(ad, c)), RAdd(RMul(ac, b), RMul(ad, d)),
       RAdd(RMul(bc, b), RMul(bd, d))>>
Mirror(m) == RSub(RMul(m[1], m[4]), RMul(m[2], m[3]))[1] < 0
MapSeg(m, a) ==
  IF a.t = "A"
  THEN [t |-> "A", v |-> MapEll(m, a.v) \o
          <<a.v[4], IF Mirror(m) THEN RSub(R1, a.v[5]) ELSE a.v[5]>> \o
          Map(m, a.v[6], a.v[7])]
  ELSE [a EXCEPT !.v = MapPts(m, @)]
RECURSIVE Xf(_, _, _)
Xf(w, p, m) ==
  IF p = <<>> THEN <<>>
  ELSE IF IsB(p[1]) THEN Xf(Bear(w, p[1]), Tail(p), m)
  ELSE <<MapSeg(m, AbsG(w, p[1]))>> \o Xf(Draw(w, p[1]).w, Tail(p), m)

(* ---- fixed point: units of 1/256 ----------------------------------------- *)
UNIT == 256
Fix(r) == (r[1] * UNIT) \div r[2]
FixPt(x, y) == <<Fix(x), Fix(y)>>
RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo       \* lo^2 <= n < hi^2
                     ELSE LET m == (lo + hi) \div 2
                          IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m)
ISqrt(n) == SqrtIn(n, 0, 46340)
Dist(a, b) == LET dx == AbsI(a[1] - b[1]) dy == AbsI(a[2] - b[2])
              IN IF dx + dy > 30000 THEN 8 * ISqrt(((dx \div 8) * (dx \div 8)) + ((dy \div 8) * (dy \div 8)))
                 ELSE ISqrt((dx * dx) + (dy * dy))
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
(* A cubic cut into 2^k cubics.                                             *)
RECURSIVE Cut(_, _)
Cut(c, k) ==
  IF k = 0 THEN <<c>>
  ELSE LET a == Mid(c[1], c[2]) b == Mid(c[2], c[3]) d == Mid(c[3], c[4])
           e == Mid(a, b) f == Mid(b, d) g == Mid(e, f)
       IN Cut(<<c[1], a, e, g>>, k - 1) \o Cut(<<g, f, d, c[4]>>, k - 1)
RECURSIVE SumS(_)
SumS(q) == IF q = <<>> THEN 0 ELSE q[1] + SumS(Tail(q))
Pieces(d) == LET v == d.g.v
             IN TLCEval(Cut(<<FixPt(d.w.x, d.w.y), FixPt(v[1], v[2]), FixPt(v[3], v[4]),
                      FixPt(v[5], v[6])>>, 4))

(* ---- arcs ---------------------------------------------------------------- *)
RSqrt(r) == <<ISqrt(r[1]), ISqrt(r[2])>>         \* of a rational square
IsSquare(r) == LET q == RSqrt(r) IN RSq(q) = r
(* p Q^-1 q *)
Form(v, p, q) ==
  RDiv(RAdd(RSub(RMul(v[3], RMul(p[1], q[1])),
                 RMul(v[2], RAdd(RMul(p[1], q[2]), RMul(p[2], q[1])))),
            RMul(v[1], RMul(p[2], q[2]))), Det(v))
(* The centre, and the factor by which too small an ellipse is scaled.      *)
ArcOf(d) ==
  LET v == d.g.v
      h == <<RHalf(RSub(d.w.x, v[6])), RHalf(RSub(d.w.y, v[7]))>>
      mid == <<RHalf(RAdd(d.w.x, v[6])), RHalf(RAdd(d.w.y, v[7]))>>
      a == Form(v, h, h)
      f2 == RSub(RInv(a), R1)
      rr == RSqrt(Det(v))
      qh == <<RDiv(RSub(RMul(v[3], h[1]), RMul(v[2], h[2])), Det(v)),
              RDiv(RSub(RMul(v[1], h[2]), RMul(v[2], h[1])), Det(v))>>
      k == RMul(rr, IF v[4] = v[5] THEN RNeg(RSqrt(f2)) ELSE RSqrt(f2))
  IN IF ~RLt(a, R1) THEN [c |-> mid, k |-> a, ok |-> TRUE]
     ELSE [c |-> <<RAdd(mid[1], RMul(k, qh[2])), RSub(mid[2], RMul(k, qh[1]))>>,
           k |-> R1, ok |-> IsSquare(f2) /\ IsSquare(Det(v))]
Cross(p, q) == (p[1] * q[2]) - (p[2] * q[1])
(* Cubics (control points in 1/200) that follow an arc: their points lie on *)
(* the ellipse and go round in the arc's direction.                         *)
AU == 200
FixA(r) == (r[1] * AU) \div r[2]
SubA(p, c) == <<p[1] - c[1], p[2] - c[2]>>
OnArc(d, o, p) ==      \* p relative to the centre
  LET v == d.g.v s == 16
      q(i) == (v[i][1] * s) \div v[i][2]
      dt == RMul(Det(v), <<s, 1>>)
      n == ((q(3) * ((p[1] * p[1]) \div 100)) - (2 * (q(2) * ((p[1] * p[2]) \div 100))))
           + (q(1) * ((p[2] * p[2]) \div 100))
      full == RMul(RMul(dt, o.k), <<(AU * AU) \div 100, 1>>)
      want == full[1] \div full[2]
  IN AbsI(n - want) <= (want \div 33)
ArcCubic(d, o, c) ==
  LET ctr == <<FixA(o.c[1]), FixA(o.c[2])>>
      ps == Cut(c, 2)
      pt(i) == SubA(IF i = 0 THEN c[1] ELSE ps[i][4], ctr)
  IN /\ \A i \in 0 .. 4 : OnArc(d, o, pt(i))
     /\ \A i \in 1 .. 4 : LET x == Cross(pt(i - 1), pt(i))
                          IN IF d.g.v[5] = R1 THEN x > 0 ELSE x < 0
Near2(p, q, e) == AbsI(p[1] - q[1]) <= e /\ AbsI(p[2] - q[2]) <= e
(* Normalized path data as recorded (numbers in 1/200): the strokes q from  *)
(* the i-th on, the recorded segments u from the j-th on. cur: where the    *)
(* recorded segments have come to.                                          *)
PtU(v, i) == <<v[i], v[i + 1]>>
NearU(v, r) == Len(v) = Len(r) /\ \A i \in 1 .. Len(v) : AbsI(v[i] - FixA(r[i])) <= 2
RECURSIVE ArcRun(_, _, _, _, _)
ArcRun(d, o, u, j, cur) ==       \* index after the cubics of arc d, or 0
  IF j > Len(u) \/ u[j].t # "C" THEN 0
  ELSE LET v == u[j].v IN
       IF o.ok /\ ~ArcCubic(d, o, <<cur, PtU(v, 1), PtU(v, 3), PtU(v, 5)>>) THEN 0
       ELSE IF Near2(PtU(v, 5), <<FixA(d.g.v[6]), FixA(d.g.v[7])>>, 2) THEN j + 1
       ELSE ArcRun(d, o, u, j + 1, PtU(v, 5))
RECURSIVE SameDrawing(_, _, _, _)
SameDrawing(q, i, u, j) ==
  IF i > Len(q) THEN j = Len(u) + 1
  ELSE LET d == q[i] IN
       IF d.g.t = "A"
       THEN LET n == ArcRun(d, ArcOf(d), u, j, <<FixA(d.w.x), FixA(d.w.y)>>)
            IN n # 0 /\ SameDrawing(q, i + 1, u, n)
       ELSE /\ j <= Len(u) /\ u[j].t = d.g.t /\ NearU(u[j].v, d.g.v)
            /\ SameDrawing(q, i + 1, u, j + 1)

(* ---- box and length, between bounds --------------------------------------- *)
RECURSIVE MinS(_), MaxS(_)
MinS(q) == IF Len(q) = 1 THEN q[1] ELSE LET m == MinS(Tail(q)) IN IF q[1] < m THEN q[1] ELSE m
MaxS(q) == IF Len(q) = 1 THEN q[1] ELSE LET m == MaxS(Tail(q)) IN IF q[1] > m THEN q[1] ELSE m
(* Points certainly drawn, and points whose hull certainly holds the rest.   *)
ArcTips(d) ==     \* extreme points of the ellipse that lie on the arc
  LET o == ArcOf(d) v == d.g.v
      rx == RSqrt(RMul(v[1], o.k)) ry == RSqrt(RMul(v[3], o.k))
      s == <<RSub(d.w.x, o.c[1]), RSub(d.w.y, o.c[2])>>
      e == <<RSub(v[6], o.c[1]), RSub(v[7], o.c[2])>>
      x(p, q) == LET z == RSub(RMul(p[1], q[2]), RMul(p[2], q[1]))
                 IN IF v[5] = R1 THEN z[1] ELSE -z[1]
      on(t) == IF v[4] = R0 THEN x(s, t) >= 0 /\ x(t, e) >= 0
               ELSE ~(x(e, t) > 0 /\ x(t, s) > 0)
      tips == <<<<rx, R0>>, <<RNeg(rx), R0>>, <<R0, ry>>, <<R0, RNeg(ry)>>>>
      k == SelectSeq(tips, on)
  IN TLCEval([i \in 1 .. Len(k) |-> FixPt(RAdd(o.c[1], k[i][1]), RAdd(o.c[2], k[i][2]))])
Sure(d) ==
  LET from == FixPt(d.w.x, d.w.y) IN
  CASE d.g.t = "L" -> <<from, FixPt(d.g.v[1], d.g.v[2])>>
    [] d.g.t = "C" -> LET ps == Pieces(d) IN <<from>> \o [i \in 1 .. Len(ps) |-> ps[i][4]]
    [] d.g.t = "A" -> <<from, FixPt(d.g.v[6], d.g.v[7])>> \o ArcTips(d)
    [] d.g.t = "Z" -> <<from, FixPt(d.w.sx, d.w.sy)>>
    [] d.g.t = "M" -> IF d.w.last \in {"M", "m"}
                      THEN <<from, FixPt(d.g.v[1], d.g.v[2])>> ELSE <<>>
Hull(d) ==
  IF d.g.t = "C"
  THEN LET ps == Pieces(d) IN FlattenSeq([i \in 1 .. Len(ps) |-> ps[i]])
  ELSE Sure(d)
BoxOk(p, b) ==
  LET q == Strokes(p)
      sure == FlattenSeq([i \in 1 .. Len(q) |-> Sure(q[i])])
      hull == FlattenSeq([i \in 1 .. Len(q) |-> Hull(q[i])])
      xs(h, k) == [i \in 1 .. Len(h) |-> h[i][k]]
      tol == 4
  IN sure = <<>> \/
     (/\ b[1] <= MinS(xs(sure, 1)) + tol /\ b[1] >= MinS(xs(hull, 1)) - tol
      /\ b[2] <= MinS(xs(sure, 2)) + tol /\ b[2] >= MinS(xs(hull, 2)) - tol
      /\ b[3] >= MaxS(xs(sure, 1)) - tol /\ b[3] <= MaxS(xs(hull, 1)) + tol
      /\ b[4] >= MaxS(xs(sure, 2)) - tol /\ b[4] <= MaxS(xs(hull, 2)) + tol)

Poly(ps) == SumS([i \in 1 .. Len(ps) - 1 |-> Dist(ps[i], ps[i + 1])])
(* Points of the unit circle, in order; those an arc of an upright ellipse   *)
(* passes between its ends cut it into pieces that lie between a chord and   *)
(* two tangents.                                                             *)
UnitQ == LET z(a, b, c) == <<<<a, c>>, <<b, c>>>>
         IN <<<<R1, R0>>, z(12, 5, 13), z(4, 3, 5), z(3, 4, 5), z(5, 12, 13)>>
Spin(p) == <<RNeg(p[2]), p[1]>>
Units == LET a == UnitQ n == 5
             b == [i \in 1 .. n |-> Spin(a[i])] c == [i \in 1 .. n |-> Spin(b[i])]
         IN TLCEval(a \o b \o c \o [i \in 1 .. n |-> Spin(c[i])])
XP(p, q) == RSub(RMul(p[1], q[2]), RMul(p[2], q[1]))[1]
PassedUnits(s, e) ==
  LET x == XP(s, e) n == Len(Units)
      on(i) == LET t == Units[i] IN
               IF x > 0 THEN XP(s, t) > 0 /\ XP(t, e) > 0
               ELSE IF x = 0 THEN XP(s, t) > 0
               ELSE ~(XP(e, t) >= 0 /\ XP(t, s) >= 0)
      I == TLCEval({i \in 1 .. n : on(i)})
      before(i) == IF i = 1 THEN n ELSE i - 1
      first == CHOOSE i \in I : before(i) \notin I
      seq == [k \in 1 .. Cardinality(I) |-> Units[((first + k - 2) % n) + 1]]
  IN IF I = {} THEN <<>> ELSE seq
Meet(a, b) == LET d == RAdd(R1, RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])))
              IN <<RDiv(RAdd(a[1], b[1]), d), RDiv(RAdd(a[2], b[2]), d)>>
Upright(d, o) == /\ o.ok /\ d.g.v[2] = R0
                 /\ IsSquare(RMul(d.g.v[1], o.k)) /\ IsSquare(RMul(d.g.v[3], o.k))
ArcLen(d) ==
  LET o == ArcOf(d) v == d.g.v
      rx == RSqrt(RMul(v[1], o.k)) ry == RSqrt(RMul(v[3], o.k))
      unit(x, y) == <<RDiv(RSub(x, o.c[1]), rx), RDiv(RSub(y, o.c[2]), ry)>>
      at(u) == FixPt(RMul(rx, u[1]), RMul(ry, u[2]))
      p == unit(d.w.x, d.w.y) q == unit(v[6], v[7])
      s == IF v[5] = R1 THEN p ELSE q e == IF v[5] = R1 THEN q ELSE p
      us == <<s>> \o PassedUnits(s, e) \o <<e>>
      n == Len(us)
      m == [i \in 1 .. (2 * n) - 1 |->
              IF i % 2 = 1 THEN us[(i + 1) \div 2] ELSE Meet(us[i \div 2], us[(i \div 2) + 1])]
  IN IF ~Upright(d, o) THEN <<0, 1000000>>
     ELSE <<Poly([i \in 1 .. n |-> at(us[i])]) - n,
            Poly([i \in 1 .. (2 * n) - 1 |-> at(m[i])]) + (3 * n)>>
Len2(d) ==          \* lower and upper bound
  LET from == FixPt(d.w.x, d.w.y) IN
  CASE d.g.t = "C" ->
         LET ps == Pieces(d)
         IN <<Poly(<<from>> \o [i \in 1 .. Len(ps) |-> ps[i][4]]) - 20,
              SumS([i \in 1 .. Len(ps) |-> Poly(ps[i])]) + 52>>
    [] d.g.t = "A" -> ArcLen(d)
    [] OTHER -> LET n == Poly(Sure(d)) IN <<n, n>>
LengthOk(p, len) ==
  LET q == Strokes(p)
      b == TLCEval([i \in 1 .. Len(q) |-> Len2(q[i])])
      tol == 4 + (3 * Len(q))
  IN /\ len >= SumS([i \in 1 .. Len(q) |-> b[i][1]]) - tol
     /\ len <= SumS([i \in 1 .. Len(q) |-> b[i][2]]) + tol

EndOf(g) ==
  LET v == g.v n == Len(v) IN
  CASE g.t \in {"Z", "z", "B", "b"} -> <<NoNum, NoNum>>
    [] g.t = "H" -> <<v[1], NoNum>> [] g.t = "h" -> <<v[1], R0>>
    [] g.t = "V" -> <<NoNum, v[1]>> [] g.t = "v" -> <<R0, v[1]>>
    [] OTHER -> <<v[n - 1], v[n]>>

PathStart(s) == [p |-> [i \in 1 .. Len(s.p) |-> Seg(s.p[i].t, s.p[i].v)]]
PathObs(s) == s

PathStep(s, op) ==
  LET n == op.name IN
  CASE n = "parse" -> POk([s EXCEPT !.p = ParsePath(op.s)])
    [] n = "set"   -> POk(PathStart([p |-> op.q]))
    [] n = "push"  -> POk([s EXCEPT !.p = Append(@, Seg(op.g.t, op.g.v))])
    [] n = "roundtrip" -> POk(s)         \* serialize, then parse
    [] n = "text"  -> PSay(s, ParsePath(op.w) = s.p, "not these segments")
    [] n = "normalize" -> POk([s EXCEPT !.p = Norm(@)])
    [] n = "drawing" -> PSay(s, SameDrawing(Strokes(s.p), 1, op.w, 1), "another drawing")
    [] n = "transform" -> POk([s EXCEPT !.p = Xf(W0, @, op.m)])
    [] n = "box"    -> PSay(s, BoxOk(s.p, op.w), "another box")
    [] n = "length" -> PSay(s, LengthOk(s.p, op.w), "another length")
    [] n = "ends"   -> [st |-> s, out |-> [r |-> "ok",
                          v |-> [i \in 1 .. Len(s.p) |-> EndOf(s.p[i])]]]

(* ---- properties of the model ---------------------------------------------- *)
(* Normalized path data draws what the path draws, and stays as it is.        *)
NormIdem(s) == HasArc(s.p) \/ Norm(Norm(s.p)) = Norm(s.p)
(* Transforming and normalizing commute.                                      *)
NormXf(s, m) == HasArc(s.p) \/ Norm(Xf(W0, s.p, m)) = Xf(W0, Norm(s.p), m)
=============================================================================
