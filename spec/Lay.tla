-------------------------------- MODULE Lay --------------------------------
(***************************************************************************)
(* Lengths, basic shapes, viewports and coordinate systems.                *)
(* A state is                                                              *)
(*   N    elements in document order: [tag, par: index of the parent or 0, *)
(*        a: attributes (text)]                                            *)
(*   L    length objects: [n: number, u: unit, c: context (element or 0),  *)
(*        d: direction 0 unspecified, 1 horizontal, 2 vertical, 3 none]    *)
(*   Z    zoom and pan of each outermost svg element: [k, x, y]            *)
(*   win  size of the window                                               *)
(***************************************************************************)
EXTENDS Path

X == INSTANCE Xform

LOk(s)     == [st |-> s, out |-> [r |-> "ok"]]
LVal(s, v) == [st |-> s, out |-> [r |-> "ok", v |-> v]]
LErr(s, e) == [st |-> s, out |-> [r |-> e]]
LSay(s, b, why) == LErr(s, IF b THEN "ok" ELSE why)

(* ---- text ---------------------------------------------------------------- *)
Letters == LowerSet \cup UpperSet
RECURSIVE LetEnd(_, _)
LetEnd(t, i) == IF IsCh(t, i, Letters) THEN LetEnd(t, i + 1) ELSE i
IsNum(t, i) == LET j == IF IsCh(t, i, {"-", "+"}) THEN i + 1 ELSE i
               IN IsCh(t, j, Digits) \/ (IsCh(t, j, {"."}) /\ IsCh(t, j + 1, Digits))
AbsK == [px |-> R1, in |-> <<96, 1>>, cm |-> <<4800, 127>>, mm |-> <<480, 127>>,
         q |-> <<120, 127>>, pt |-> <<4, 3>>, pc |-> <<16, 1>>]
FontU == {"em", "ex", "cap", "ch", "ic"}
ViewU == {"vw", "vh", "vmin", "vmax"}
ResU  == {"dpi", "dpcm", "dppx"}
Units_ == DOMAIN AbsK \cup FontU \cup ViewU \cup ResU \cup {"%", "rem"}
(* A length as text: [ok, n, u]; what follows it is ignored.                *)
ParseLen(t) ==
  LET i == SkipWS(t, 1) no == [ok |-> FALSE, n |-> R0, u |-> ""] IN
  IF ~IsNum(t, i) THEN no
  ELSE LET r == ReadNum(t, i)
           j == LetEnd(t, r.j)
           u == IF IsCh(t, r.j, {"%"}) THEN "%" ELSE Lower(SubSeq(t, r.j, j - 1))
       IN IF u = "" \/ u \in Units_ THEN [ok |-> TRUE, n |-> r.v, u |-> u] ELSE no
(* All numbers of a text, as 'points' has them.                             *)
RECURSIVE AllNums(_, _, _)
AllNums(t, i, acc) == IF i > Len(t) THEN acc
                      ELSE IF IsNum(t, i)
                           THEN LET r == ReadNum(t, i) IN AllNums(t, r.j, Append(acc, r.v))
                           ELSE AllNums(t, i + 1, acc)
(* Items between commas and white space.                                    *)
Items(t) == SplitFrom(t, 1, "", <<>>, WS \cup {","})

(* A list of transform functions.                                           *)
NameEnd(t, i) == LetEnd(t, i)
RECURSIVE CloseAt(_, _)
CloseAt(t, i) == IF Ch(t, i) = ")" THEN i ELSE CloseAt(t, i + 1)
RECURSIVE TfList(_, _)
TfList(t, i0) ==
  LET i == SkipSep(t, i0) IN
  IF i > Len(t) THEN <<>>
  ELSE LET j == NameEnd(t, i) k == CloseAt(t, j)
           nm == SubSeq(t, i, j - 1)
           ty == CHOOSE n \in 1 .. 6 : X!Names[n] = nm
       IN <<X!Made(ty, AllNums(SubSeq(t, j + 1, k - 1), 1, <<>>)).o>> \o TfList(t, k + 1)
RECURSIVE MatQ(_)
MatQ(q) == IF q = <<>> THEN X!Id6 ELSE X!Mul6(X!Mat1(q[1]), MatQ(Tail(q)))

(* ---- the tree ------------------------------------------------------------ *)
Has_(s, e, n) == n \in DOMAIN s.N[e].a
At(s, e, n, d) == IF Has_(s, e, n) THEN s.N[e].a[n] ELSE d
Tag(s, e) == s.N[e].tag
Par(s, e) == s.N[e].par
IsVp(s, e) == Tag(s, e) \in {"svg", "symbol"}
RECURSIVE NearVp(_, _)
NearVp(s, e) == IF e = 0 THEN 0 ELSE IF IsVp(s, e) THEN e ELSE NearVp(s, Par(s, e))
RECURSIVE FarVp(_, _)                       \* outermost svg
FarVp(s, e) == IF e = 0 THEN 0
               ELSE LET f == FarVp(s, Par(s, e))
                    IN IF f # 0 THEN f ELSE IF Tag(s, e) = "svg" THEN e ELSE 0
Kids(s, e) == LET I == {i \in 1 .. Len(s.N) : Par(s, i) = e}
              IN TLCEval(SetToSortSeq(I, <))

(* ---- lengths ------------------------------------------------------------- *)
RECURSIVE FontSize(_, _)
FontSize(s, e) ==
  IF e = 0 THEN <<16, 1>>
  ELSE IF Has_(s, e, "font-size")
       THEN LET p == ParseLen(s.N[e].a["font-size"])
                k == CASE p.u = "" -> R1
                       [] p.u = "em" -> FontSize(s, Par(s, e))
                       [] p.u = "%" -> RMul(FontSize(s, Par(s, e)), <<1, 100>>)
                       [] OTHER -> AbsK[p.u]
            IN RMax(<<10, 1>>, RMul(p.n, k))
       ELSE FontSize(s, Par(s, e))
EmBase(s, c) == FontSize(s, c)
RemBase(s, c) == IF c = 0 THEN <<16, 1>> ELSE FontSize(s, 1)
ViewBox(s, e) ==                  \* [ok, b: numbers]
  LET q == Items(At(s, e, "viewBox", ""))
      v == [i \in 1 .. Len(q) |-> ParseLen(q[i])]
      ok == /\ Len(q) = 4 /\ \A i \in 1 .. 4 : v[i].ok
            /\ v[3].n[1] >= 0 /\ v[4].n[1] >= 0
  IN IF ok THEN [ok |-> TRUE, b |-> [i \in 1 .. 4 |-> v[i].n]]
     ELSE [ok |-> FALSE, b |-> <<>>]

Side(q, d) == IF d = 1 THEN q[1] ELSE q[2]
Diag(q) == LET m == RHalf(RAdd(RSq(q[1]), RSq(q[2])))
           IN IF IsSquare(m) THEN RSqrt(m) ELSE NoNum
(* Size of the viewport an element establishes; of the window for 0.        *)
RECURSIVE VpSize(_, _)
VpLen(s, e, n, dflt, d, q) ==
  LET t0 == At(s, e, n, "auto")
      p == ParseLen(IF t0 = "auto" THEN dflt ELSE IF t0 = "inherit" THEN "100%" ELSE t0)
      k == CASE p.u = "%"  -> RMul(Side(q, d), <<1, 100>>)
             [] p.u = "vw" -> RMul(q[1], <<1, 100>>)
             [] p.u = "vh" -> RMul(q[2], <<1, 100>>)
             [] p.u = "vmin" -> RMul(RMin(q[1], q[2]), <<1, 100>>)
             [] p.u = "vmax" -> RMul(RMax(q[1], q[2]), <<1, 100>>)
             [] p.u = "em" -> EmBase(s, e)
             [] p.u = "rem" -> RemBase(s, e)
             [] p.u = "" -> R1
             [] OTHER -> AbsK[p.u]
  IN RMul(p.n, k)
VpSize(s, e) ==                    \* <<width, height>>
  IF e = 0 THEN s.win
  ELSE LET q == VpSize(s, NearVp(s, Par(s, e)))
       IN <<VpLen(s, e, "width", "100%", 1, q), VpLen(s, e, "height", "100%", 2, q)>>
VpPos(s, e) ==
  IF e = 0 THEN <<R0, R0>>
  ELSE LET q == VpSize(s, NearVp(s, Par(s, e)))
       IN <<VpLen(s, e, "x", "0", 1, q), VpLen(s, e, "y", "0", 2, q)>>
(* What percentages of a length in element c refer to.                      *)
Around(s, c) ==
  IF c = 0 THEN <<<<100, 1>>, <<100, 1>>>>
  ELSE LET v == NearVp(s, c) IN
       IF v = 0 THEN VpSize(s, 0)
       ELSE LET b == ViewBox(s, v)
            IN IF b.ok THEN <<b.b[3], b.b[4]>> ELSE VpSize(s, v)
(* Pixels (or dppx) in one unit.                                            *)
Per(s, c, d, u) ==
  CASE u = "" -> R1
    [] u \in DOMAIN AbsK -> AbsK[u]
    [] u = "em" -> EmBase(s, c)
    [] u \in FontU -> RHalf(EmBase(s, c))          \* without fonts
    [] u = "rem" -> RemBase(s, c)
    [] u = "dpi" -> <<1, 96>> [] u = "dpcm" -> <<127, 4800>> [] u = "dppx" -> R1
    [] OTHER ->
       LET q == Around(s, c)
           k == CASE u = "vw" -> q[1] [] u = "vh" -> q[2]
                  [] u = "vmin" -> RMin(q[1], q[2]) [] u = "vmax" -> RMax(q[1], q[2])
                  [] u = "%" -> IF d \in {1, 2} THEN Side(q, d)
                                ELSE IF d = 0 THEN Diag(q) ELSE EmBase(s, c)
       IN RMul(k, <<1, 100>>)
SameKind(u, v) == (u \in ResU) = (v \in ResU)
Value(s, l, u, d) ==
  IF l.u = u THEN l.n
  ELSE RDiv(RMul(l.n, Per(s, l.c, d, l.u)), Per(s, l.c, d, u))
ValueIn(s, l, u) == Value(s, l, u, l.d)
Px(s, l) == ValueIn(s, l, "")
LenOf(s, t, c, d) == LET p == ParseLen(t) IN Px(s, [n |-> p.n, u |-> p.u, c |-> c, d |-> d])
Attr(s, e, n, dflt, d) == LenOf(s, At(s, e, n, dflt), e, d)

(* l with the unit of m, if it has none itself.                             *)
Fit(s, l, m) == IF l.u = "" /\ m.u # "" THEN [l EXCEPT !.n = ValueIn(s, l, m.u), !.u = m.u]
                ELSE l
(* The number of m in the unit of l: relative units differ in size between *)
(* elements and directions.                                                *)
Likewise(s, l, m) ==
  IF (l.c = m.c /\ l.d = m.d) \/ l.u \in ResU THEN ValueIn(s, m, l.u)
  ELSE RDiv(Px(s, m), Per(s, l.c, l.d, l.u))
Bin(s, f, l0, m) ==
  LET l == Fit(s, l0, m) v == Likewise(s, l, m)
  IN [l EXCEPT !.n = CASE f = "+" -> RAdd(@, v) [] f = "-" -> RSub(@, v)
                       [] f = "*" -> RMul(@, v) [] f = "/" -> RDiv(@, v)]
Compat(l, m) == SameKind(IF l.u = "" THEN m.u ELSE l.u, m.u) /\ SameKind(l.u, m.u)
Scaled(f, l, k) ==
  [l EXCEPT !.n = CASE f = "*" -> RMul(@, k) [] f = "/" -> RDiv(@, k) [] f = "r*" -> RMul(@, k)
                    [] f = "neg" -> RNeg(@) [] f = "abs" -> RAbs(@) [] f = "pos" -> @]
Order(s, l, m) ==
  LET v == Likewise(s, l, m) n == l.n
      b(x) == IF x THEN 1 ELSE 0
  IN <<b(n = v), b(n # v), b(RLt(n, v)), b(RLe(n, v)), b(RLt(v, n)), b(RLe(v, n))>>
LenText(s, l, u) == Decimal(ValueIn(s, l, u), 6) \o u

(* ---- viewport transformation --------------------------------------------- *)
Aligns == {"none", "xMinYMin", "xMidYMin", "xMaxYMin", "xMinYMid", "xMidYMid", "xMaxYMid",
           "xMinYMax", "xMidYMax", "xMaxYMax"}
Align(s, e) == LET q == Items(At(s, e, "preserveAspectRatio", ""))
               IN IF q # <<>> /\ q[1] \in Aligns THEN q[1] ELSE "xMidYMid"
Slice(s, e) == LET q == Items(At(s, e, "preserveAspectRatio", ""))
               IN Len(q) > 1 /\ q[2] = "slice"
Part(a, axis) == SubSeq(a, IF axis = 1 THEN 2 ELSE 6, IF axis = 1 THEN 4 ELSE 8)
Vtm(s, e) ==
  LET z == VpSize(s, e) o == VpPos(s, e) v == ViewBox(s, e) IN
  IF ~v.ok THEN X!Move6(o[1], o[2])
  ELSE LET b == v.b a == Align(s, e)
           kx == RDiv(z[1], b[3]) ky == RDiv(z[2], b[4])
           k == IF Slice(s, e) THEN RMax(kx, ky) ELSE RMin(kx, ky)
           sx == IF a = "none" THEN kx ELSE k
           sy == IF a = "none" THEN ky ELSE k
           room(i, sc) == RSub(z[i], RMul(b[i + 2], sc))
           extra(i, sc) == IF a = "none" THEN R0
                           ELSE CASE Part(a, i) = "Min" -> R0
                                  [] Part(a, i) = "Mid" -> RHalf(room(i, sc))
                                  [] OTHER -> room(i, sc)
       IN <<sx, R0, R0, sy, RAdd(RSub(o[1], RMul(b[1], sx)), extra(1, sx)),
            RAdd(RSub(o[2], RMul(b[2], sy)), extra(2, sy))>>

Transformable == {"g", "svg", "defs", "use", "circle", "ellipse", "rect", "line", "path",
                  "polygon", "polyline"}
Tf(s, e) ==
  LET t == At(s, e, "transform", "none")
  IN IF Tag(s, e) \notin Transformable \/ t = "none" THEN <<>> ELSE TfList(t, 1)
TfM(s, e) == MatQ(Tf(s, e))
(* From the inside of an element to the outside.                            *)
Local(s, e) == IF IsVp(s, e) THEN X!Mul6(TfM(s, e), Vtm(s, e)) ELSE TfM(s, e)
RECURSIVE Chain(_, _, _)
Chain(s, e, top) == IF e = top THEN Local(s, e)
                    ELSE X!Mul6(Chain(s, Par(s, e), top), Local(s, e))
Ctm(s, e, far) ==
  LET f == FarVp(s, e)
      near == NearVp(s, IF IsVp(s, e) THEN Par(s, e) ELSE e)
  IN IF f = 0 THEN X!Id6
     ELSE IF far THEN X!Mul6(<<s.Z[f].k, R0, R0, s.Z[f].k, s.Z[f].x, s.Z[f].y>>, Chain(s, e, f))
     ELSE Chain(s, e, IF e = f THEN e ELSE near)

(* ---- shapes --------------------------------------------------------------- *)
Inherit(s, e, n) ==          \* width, height: <<text, element it is from>>
  LET RECURSIVE go(_)
      go(c) == IF c = 0 THEN <<"0", e>>
               ELSE LET t == At(s, c, n, "auto")
                    IN IF t = "auto"
                       THEN (IF Tag(s, c) = "svg" THEN <<"100%", c>> ELSE <<"0", c>>)
                       ELSE IF t = "inherit" THEN go(Par(s, c)) ELSE <<t, c>>
  IN go(e)
InhLen(s, e, n, d) == LET r == Inherit(s, e, n) IN LenOf(s, r[1], r[2], d)
Auto(s, e, n) == At(s, e, n, "auto") = "auto"

RectG(s, e) ==
  LET w == InhLen(s, e, "width", 1) h == InhLen(s, e, "height", 2)
      rx0 == IF Auto(s, e, "rx") THEN R0 ELSE Attr(s, e, "rx", "", 1)
      ry0 == IF Auto(s, e, "ry") THEN R0 ELSE Attr(s, e, "ry", "", 2)
      rx1 == IF Auto(s, e, "rx") THEN ry0 ELSE rx0
      ry1 == IF Auto(s, e, "ry") THEN rx0 ELSE ry0
      both == Auto(s, e, "rx") /\ Auto(s, e, "ry")
  IN [x |-> Attr(s, e, "x", "0", 1), y |-> Attr(s, e, "y", "0", 2), width |-> w, height |-> h,
      rx |-> IF both THEN R0 ELSE RMin(rx1, RHalf(w)),
      ry |-> IF both THEN R0 ELSE RMin(ry1, RHalf(h))]
EllG(s, e) ==
  LET tx == At(s, e, "rx", "auto") ty == At(s, e, "ry", "auto")
      ux == IF tx = "auto" THEN ty ELSE tx
      uy == IF ty = "auto" THEN tx ELSE ty
  IN [rx |-> IF ux = "auto" THEN R0 ELSE LenOf(s, ux, e, 1),
      ry |-> IF uy = "auto" THEN R0 ELSE LenOf(s, uy, e, 2),
      cx |-> Attr(s, e, "cx", "0", 1), cy |-> Attr(s, e, "cy", "0", 2)]
Geometry(s, e) ==
  LET t == Tag(s, e) IN
  CASE t = "rect" -> RectG(s, e)
    [] t = "ellipse" -> EllG(s, e)
    [] t = "circle" -> [cx |-> Attr(s, e, "cx", "0", 1), cy |-> Attr(s, e, "cy", "0", 2),
                        r |-> Attr(s, e, "r", "0", 0)]
    [] t = "line" -> [x1 |-> Attr(s, e, "x1", "0", 1), y1 |-> Attr(s, e, "y1", "0", 2),
                      x2 |-> Attr(s, e, "x2", "0", 1), y2 |-> Attr(s, e, "y2", "0", 2)]
    [] t = "use" -> [x |-> Attr(s, e, "x", "0", 1), y |-> Attr(s, e, "y", "0", 2),
                     width |-> InhLen(s, e, "width", 1), height |-> InhLen(s, e, "height", 2)]
    [] t = "svg" -> LET o == VpPos(s, e) z == VpSize(s, e)
                    IN [x |-> o[1], y |-> o[2], width |-> z[1], height |-> z[2]]

Points(s, e) == LET q == AllNums(At(s, e, "points", ""), 1, <<>>)
                IN IF Len(q) % 2 = 1 THEN <<>>
                   ELSE [i \in 1 .. Len(q) \div 2 |-> <<q[(2 * i) - 1], q[2 * i]>>]
S_(t, v) == [t |-> t, v |-> v]
ArcTo(rx, ry, x, y) == Seg("A", <<rx, ry, R0, R0, R1, x, y>>)
Oval(cx, cy, rx, ry) ==
  IF rx[1] <= 0 \/ ry[1] <= 0 THEN <<>>
  ELSE <<S_("M", <<RAdd(cx, rx), cy>>), ArcTo(rx, ry, cx, RAdd(cy, ry)),
         ArcTo(rx, ry, RSub(cx, rx), cy), ArcTo(rx, ry, cx, RSub(cy, ry)),
         ArcTo(rx, ry, RAdd(cx, rx), cy), S_("Z", <<>>)>>
RectP(g) ==
  LET x == g.x y == g.y w == g.width h == g.height
      sq == g.rx[1] <= 0 \/ g.ry[1] <= 0
      rx == IF sq THEN R0 ELSE g.rx
      ry == IF sq THEN R0 ELSE g.ry
      arc(px, py) == IF sq THEN <<>> ELSE <<ArcTo(rx, ry, px, py)>>
      r == RAdd(x, w) b == RAdd(y, h)
  IN IF w[1] <= 0 \/ h[1] <= 0 THEN <<>>
     ELSE <<S_("M", <<RAdd(x, rx), y>>), S_("H", <<RSub(r, rx)>>)>> \o arc(r, RAdd(y, ry)) \o
          <<S_("V", <<RSub(b, ry)>>)>> \o arc(RSub(r, rx), b) \o
          <<S_("H", <<RAdd(x, rx)>>)>> \o arc(x, RSub(b, ry)) \o
          <<S_("V", <<RAdd(y, ry)>>)>> \o arc(RAdd(x, rx), y) \o <<S_("Z", <<>>)>>
Poly_(q, close) ==
  [i \in 1 .. Len(q) |-> S_(IF i = 1 THEN "M" ELSE "L", q[i])]
  \o (IF close /\ Len(q) > 1 THEN <<S_("Z", <<>>)>> ELSE <<>>)
Target(s, e) ==          \* element a use element refers to, or 0
  LET h == At(s, e, "href", "")
      r == IF h # "" THEN h ELSE At(s, e, "xlink:href", "")
      I == {i \in 1 .. Len(s.N) : At(s, i, "id", "") = SubSeq(r, 2, Len(r))}
  IN IF r = "" \/ I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

RECURSIVE PathOf(_, _, _), Outer(_, _, _)
(* What an element draws, in its own coordinate system.                     *)
PathOf(s, e, norm) ==
  LET t == Tag(s, e)
      g == IF t \in {"rect", "ellipse", "circle", "line", "use"} THEN Geometry(s, e) ELSE <<>>
      fin(p) == IF norm THEN Norm(p) ELSE p
  IN CASE t \in {"g", "svg"} ->
            LET k == Kids(s, e)
            IN FlattenSeq([i \in 1 .. Len(k) |-> Outer(s, k[i], norm)])
       [] t = "rect" -> fin(RectP(g))
       [] t = "ellipse" -> fin(Oval(g.cx, g.cy, g.rx, g.ry))
       [] t = "circle" -> fin(Oval(g.cx, g.cy, g.r, g.r))
       [] t = "line" -> IF g.x1 = g.x2 /\ g.y1 = g.y2 THEN <<>>
                        ELSE <<S_("M", <<g.x1, g.y1>>), S_("L", <<g.x2, g.y2>>)>>
       [] t = "polyline" -> Poly_(Points(s, e), FALSE)
       [] t = "polygon" -> Poly_(Points(s, e), TRUE)
       [] t = "path" -> LET d == At(s, e, "d", "none")
                        IN IF d = "none" THEN <<>> ELSE fin(ParsePath(d))
       [] t = "use" -> LET r == Target(s, e) IN
                       IF r = 0 THEN <<>>
                       ELSE LET p == Outer(s, r, norm)
                            IN IF g.x = R0 /\ g.y = R0 THEN p
                               ELSE Xf(W0, p, X!Move6(g.x, g.y))
       [] OTHER -> <<>>
(* The same in the coordinate system of its parent.                         *)
Outer(s, e, norm) ==
  LET p == PathOf(s, e, norm) q == Tf(s, e)
  IN IF p = <<>> \/ q = <<>> THEN p ELSE Xf(W0, p, MatQ(q))

(* Strokes whose box a graphics element has: a container's children in its  *)
(* own coordinate system, all others in their parent's.                     *)
RECURSIVE BoxStrokes(_, _, _, _)
BoxStrokes(s, e, m, top) ==
  LET t == Tag(s, e) IN
  IF t \in {"defs", "symbol"} THEN <<>>
  ELSE IF t \in {"g", "svg"}
  THEN LET k == SelectSeq(Kids(s, e), LAMBDA c : At(s, c, "display", "") # "none")
           mm == IF top \/ Tf(s, e) = <<>> THEN m ELSE X!Mul6(m, TfM(s, e))
       IN FlattenSeq([i \in 1 .. Len(k) |-> BoxStrokes(s, k[i], mm, FALSE)])
  ELSE LET p == Outer(s, e, FALSE)
       IN Strokes(IF m = X!Id6 THEN p ELSE Xf(W0, p, m))
BoxFits(q, b) ==
  LET sure == FlattenSeq([i \in 1 .. Len(q) |-> Sure(q[i])])
      hull == FlattenSeq([i \in 1 .. Len(q) |-> Hull(q[i])])
      xs(h, k) == [i \in 1 .. Len(h) |-> h[i][k]]
      tol == 4
  IN IF sure = <<>> THEN b = <<>>
     ELSE /\ Len(b) = 4
          /\ b[1] <= MinS(xs(sure, 1)) + tol /\ b[1] >= MinS(xs(hull, 1)) - tol
          /\ b[2] <= MinS(xs(sure, 2)) + tol /\ b[2] >= MinS(xs(hull, 2)) - tol
          /\ b[3] >= MaxS(xs(sure, 1)) - tol /\ b[3] <= MaxS(xs(hull, 1)) + tol
          /\ b[4] >= MaxS(xs(sure, 2)) - tol /\ b[4] <= MaxS(xs(hull, 2)) + tol

(* ---- steps ---------------------------------------------------------------- *)
LayStart(x) == [N |-> x.nodes, L |-> <<>>, win |-> x.win,
                Z |-> [i \in 1 .. Len(x.nodes) |-> [k |-> R1, x |-> R0, y |-> R0]]]
LayObs(s) == [lens |-> [i \in 1 .. Len(s.L) |-> <<s.L[i].n, s.L[i].u>>],
              attrs |-> [i \in 1 .. Len(s.N) |-> s.N[i].a]]
Put(s, i, l) == LOk([s EXCEPT !.L = IF i > Len(@) THEN Append(@, l) ELSE [@ EXCEPT ![i] = l]])
SetA(a, n, v) == [k \in DOMAIN a \cup {n} |-> IF k = n THEN v ELSE a[k]]
DelA(a, n) == [k \in DOMAIN a \ {n} |-> a[k]]
Par0(s, e) == LET m == Slice(s, e) IN <<Align(s, e), IF m THEN "slice" ELSE "meet">>

LayStep(s, op) ==
  LET n == op.name IN
  CASE n = "set"  -> LOk([s EXCEPT !.N[op.e].a = SetA(@, op.n, op.v)])
    [] n = "rem"  -> LOk([s EXCEPT !.N[op.e].a = DelA(@, op.n)])
    [] n = "resize" -> LOk([s EXCEPT !.win = op.v])
    [] n = "points" ->
         LOk([s EXCEPT !.N[op.e].a = SetA(@, "points",
                Join([i \in 1 .. Len(op.q) |->
                        Decimal(op.q[i][1], 6) \o "," \o Decimal(op.q[i][2], 6)], " "))])
    [] n = "getpoints" -> LVal(s, Points(s, op.e))
    [] n = "zoom" -> IF FarVp(s, op.e) # op.e THEN LOk(s)
                     ELSE LOk([s EXCEPT !.Z[op.e] = [k |-> op.v[1], x |-> op.v[2], y |-> op.v[3]]])
    [] n = "zoomed" -> LVal(s, IF FarVp(s, op.e) # op.e THEN <<R1, R0, R0>>
                               ELSE LET z == s.Z[op.e] IN <<z.k, z.x, z.y>>)
    \* viewports
    [] n = "view" -> LET v == NearVp(s, op.e)
                     IN LVal(s, VpPos(s, v) \o VpSize(s, v))
    [] n = "box4" -> LET v == ViewBox(s, op.e) IN LVal(s, v.b)
    [] n = "par"  -> LVal(s, Par0(s, op.e))
    [] n = "partext" -> LVal(s, IF op.v = "none" THEN "none" ELSE op.v \o " " \o op.m)
    [] n = "ctm"  -> LVal(s, Ctm(s, op.e, op.far))
    [] n = "vtm"  -> LVal(s, Vtm(s, op.e))
    \* shapes
    [] n = "geom" -> LVal(s, Geometry(s, op.e))
    [] n = "path" -> LVal(s, IF op.outer THEN Outer(s, op.e, op.norm) ELSE PathOf(s, op.e, op.norm))
    [] n = "bbox" -> LSay(s, BoxFits(BoxStrokes(s, op.e, X!Id6, TRUE), op.w), "another box")
    [] n = "length" -> LSay(s, LengthOk(PathOf(s, op.e, FALSE), op.w), "another length")
    \* lengths
    [] n = "mk"   -> LET p == ParseLen(op.s)
                     IN IF ~p.ok THEN LErr(s, "ValueError")
                        ELSE Put(s, op.i, [n |-> p.n, u |-> p.u, c |-> op.c, d |-> op.d])
    [] n = "new"  -> Put(s, op.i, [n |-> op.n, u |-> op.u, c |-> op.c, d |-> op.d])
    [] n = "reset" -> LOk([s EXCEPT !.L[op.i] = [@ EXCEPT !.n = op.n, !.u = op.u]])
    [] n = "bin"  -> IF ~SameKind(s.L[op.i].u, s.L[op.j].u) THEN LErr(s, "ValueError")
                     ELSE Put(s, op.k, Bin(s, op.f, s.L[op.i], s.L[op.j]))
    [] n = "sc"   -> Put(s, op.k, Scaled(op.f, s.L[op.i], op.v))
    [] n = "conv" -> IF ~SameKind(s.L[op.i].u, op.u) THEN LErr(s, "ValueError")
                     ELSE LOk([s EXCEPT !.L[op.i] = [@ EXCEPT !.n = ValueIn(s, s.L[op.i], op.u),
                                                             !.u = op.u]])
    [] n = "val"  -> IF ~SameKind(s.L[op.i].u, op.u) THEN LErr(s, "ValueError")
                     ELSE LVal(s, Value(s, s.L[op.i], op.u,
                                        IF op.d = 3 THEN s.L[op.i].d ELSE op.d))
    [] n = "cmp"  -> IF ~SameKind(s.L[op.i].u, s.L[op.j].u) THEN LErr(s, "ValueError")
                     ELSE LVal(s, Order(s, s.L[op.i], s.L[op.j]))
    [] n = "text" -> IF ~SameKind(s.L[op.i].u, op.u) THEN LErr(s, "ValueError")
                     ELSE LVal(s, LenText(s, s.L[op.i], op.u))
=============================================================================
