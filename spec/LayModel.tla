------------------------------ MODULE LayModel ------------------------------
(* Every short sequence of changes to small drawings, with every question    *)
(* about sizes, coordinate systems and shapes asked after each; and lengths  *)
(* of every kind combined.                                                   *)
EXTENDS Lay, ModelBase

Z(n) == <<n, 1>>
ND(t, p, a) == [tag |-> t, par |-> p, a |-> a]
LWin == <<Z(200), Z(100)>>
LayVpStarts ==
  {[win |-> LWin, nodes |->
     <<ND("svg", 0, [id |-> "r", width |-> "100%", viewBox |-> "0 0 100 50"]),
       ND("g", 1, [id |-> "g", transform |-> "translate(5,-5)"]),
       ND("svg", 2, [id |-> "s", x |-> "10%", width |-> "40", height |-> "50%"]),
       ND("rect", 3, [id |-> "q", width |-> "50%", height |-> "10"])>>]}
LayShapeStarts ==
  {[win |-> LWin, nodes |->
     <<ND("svg", 0, [id |-> "r", viewBox |-> "0 0 100 50"]),
       ND("g", 1, [id |-> "g", transform |-> "scale(2,1)"]),
       ND("rect", 2, [id |-> "q", x |-> "5", width |-> "20%", height |-> "1em"]),
       ND("use", 1, [id |-> "u", href |-> "#q", x |-> "3", transform |-> "rotate(90)"]),
       ND("ellipse", 1, [id |-> "e", cx |-> "1", rx |-> "4"]),
       ND("polygon", 2, [id |-> "p", points |-> "0,0 3,0 3,4"])>>]}
LayLenStarts ==
  {[win |-> <<Z(70), Z(10)>>, nodes |->
     <<ND("svg", 0, [id |-> "r", viewBox |-> "0 0 140 20"]),
       ND("g", 1, [id |-> "g", fs |-> "x"] @@ ("font-size" :> "32")),
       ND("line", 2, [id |-> "l"])>>]}

Set_(e, n, v) == [name |-> "set", e |-> e, n |-> n, v |-> v]
Rem_(e, n) == [name |-> "rem", e |-> e, n |-> n, c |-> 0]
LayVpOps(s) ==
  {Set_(e, "viewBox", v) : e \in {1, 3}, v \in {"0 0 10 10", "5,-5,40 20", "0 0 20", "0 0 -1 5"}}
  \cup {Set_(e, "preserveAspectRatio", v) : e \in {1, 3},
          v \in {"none", "xMinYMax slice", "xMaxYMid", "xMidYMin meet"}}
  \cup {Set_(3, n, v) : n \in {"width", "height"}, v \in {"20", "25vmax", "1em", "inherit"}}
  \cup {Set_(3, "transform", "scale(2)"), Rem_(3, "x"), Set_(1, "height", "auto"),
        Rem_(1, "viewBox"), [name |-> "resize", v |-> <<Z(50), Z(400)>>],
        [name |-> "zoom", e |-> 1, v |-> <<Z(2), Z(3), Z(-4)>>],
        [name |-> "zoomed", e |-> 1], [name |-> "zoomed", e |-> 3],
        [name |-> "zoom", e |-> 3, v |-> <<Z(3), Z(1), Z(1)>>]}
  \cup {[name |-> "view", e |-> e] : e \in {1, 2, 4}}
  \cup {[name |-> n, e |-> e] : n \in {"box4", "par", "vtm"}, e \in {1, 3}}
  \cup {[name |-> "ctm", e |-> e, far |-> f] : e \in 1 .. 4, f \in BOOLEAN}
LayShapeOps(s) ==
  {Set_(3, n, v) : n \in {"width", "rx", "ry"}, v \in {"4", "auto", "50%", "0"}}
  \cup {Set_(3, "height", v) : v \in {"inherit", "-2", "5vh"}}
  \cup {Set_(5, n, v) : n \in {"rx", "ry"}, v \in {"auto", "0", "3", "10%"}}
  \cup {Set_(e, "display", "none") : e \in {2, 3, 4}}
  \cup {Set_(4, "href", v) : v \in {"#g", "#e", "#x"}}
  \cup {Set_(e, "transform", v) : e \in {2, 3, 4},
          v \in {"", "none", "translate(1) scale(1,-1)", "rotate(90 1 2)"}}
  \cup {Rem_(3, "x"), Rem_(6, "points"), Set_(6, "points", "1 2 3"),
        [name |-> "points", e |-> 6, q |-> <<<<Z(1), <<1, 2>>>>, <<Z(-3), Z(0)>>>>]}
  \cup {[name |-> "geom", e |-> e] : e \in {1, 3, 4, 5}}
  \cup {[name |-> "path", e |-> e, outer |-> o, norm |-> FALSE] : e \in 1 .. 6, o \in BOOLEAN}
  \cup {[name |-> "getpoints", e |-> 6]}

LUs == {"px", "", "em", "%", "in", "vmin", "dpi", "rem"}
LayLenOps(s) ==
  LET m == Len(s.L) IN
  (IF m = 2 THEN {} ELSE
   {[name |-> "new", i |-> m + 1, n |-> Z(3), u |-> u, c |-> c, d |-> d] :
      u \in LUs, c \in {0, 3}, d \in {1, 2, 3}}
   \cup {[name |-> "mk", i |-> m + 1, s |-> t, c |-> 1, d |-> 0] :
      t \in {"1e1pt", "-.5EM", "+2.%", "abc", "4dppx", "5foo"}})
  \cup {[name |-> "conv", i |-> i, u |-> u] : i \in 1 .. m, u \in LUs}
  \cup {[name |-> "val", i |-> i, u |-> u, d |-> d] : i \in 1 .. m, u \in LUs, d \in {2, 3}}
  \cup {[name |-> "sc", i |-> i, k |-> i, f |-> f, v |-> Z(2)] : i \in 1 .. m,
          f \in {"*", "/", "r*", "neg", "abs", "pos"}}
  \cup (IF m < 2 THEN {} ELSE
        {[name |-> "bin", i |-> i, j |-> 3 - i, k |-> k, f |-> f] : i \in 1 .. 2, k \in 1 .. 2,
            f \in {"+", "-", "*", "/"}}
        \cup {[name |-> "cmp", i |-> i, j |-> j] : i \in 1 .. 2, j \in 1 .. 2})

(* Two lengths of every kind, combined.                                      *)
LayPairOps(s) ==
  LET m == Len(s.L) IN
  IF m < 2
  THEN {[name |-> "new", i |-> m + 1, n |-> Z(n), u |-> u, c |-> c[1], d |-> c[2]] :
          n \in {4 - m}, u \in {"", "px", "em", "%", "dppx"},
          c \in {<<0, 3>>, <<3, 1>>, <<2, 2>>}}
  ELSE {[name |-> "bin", i |-> i, j |-> 3 - i, k |-> k, f |-> f] : i \in 1 .. 2, k \in 1 .. 2,
          f \in {"+", "-", "*", "/"}}
       \cup {[name |-> "cmp", i |-> i, j |-> j] : i \in 1 .. 2, j \in 1 .. 2}

(* ---- what the specification itself guarantees ----------------------------- *)
Fine(l) == l.u \notin ResU
Lengths == {st.L[i] : i \in 1 .. Len(st.L)}
LenInv ==
  /\ \A l \in Lengths : \A u \in LUs : SameKind(l.u, u) =>
       ValueIn(st, [l EXCEPT !.n = ValueIn(st, l, u), !.u = u], l.u) = l.n
  /\ \A l, m \in Lengths : Fine(l) /\ Fine(m) =>
       /\ Px(st, Bin(st, "+", l, m)) = RAdd(Px(st, l), Px(st, m))
       /\ Px(st, Bin(st, "-", l, m)) = RSub(Px(st, l), Px(st, m))
       /\ Order(st, l, m)[3] = (IF RLt(Px(st, l), Px(st, m)) THEN 1 ELSE 0)
       /\ Order(st, l, m)[1] = Order(st, m, l)[1] /\ Order(st, l, m)[3] = Order(st, m, l)[5]

At6(m, x, y) == <<RAdd(RAdd(RMul(m[1], x), RMul(m[3], y)), m[5]),
                  RAdd(RAdd(RMul(m[2], x), RMul(m[4], y)), m[6])>>
VpEls == {e \in 1 .. Len(st.N) : IsVp(st, e)}
(* The viewBox is shown within the viewport (meet), covers it (slice), or is *)
(* stretched to it (none); and touches it at both sides of one axis.         *)
VtmInv == \A e \in VpEls :
  LET v == ViewBox(st, e) m == Vtm(st, e) o == VpPos(st, e) z == VpSize(st, e)
      p == At6(m, v.b[1], v.b[2]) q == At6(m, RAdd(v.b[1], v.b[3]), RAdd(v.b[2], v.b[4]))
      inside(i) == RLe(o[i], p[i]) /\ RLe(q[i], RAdd(o[i], z[i]))
      over(i)   == RLe(p[i], o[i]) /\ RLe(RAdd(o[i], z[i]), q[i])
  IN v.ok => /\ \E i \in 1 .. 2 : inside(i) /\ over(i)
             /\ IF Align(st, e) = "none" THEN \A i \in 1 .. 2 : inside(i) /\ over(i)
                ELSE /\ m[1] = m[4]
                     /\ \A i \in 1 .. 2 : IF Slice(st, e) THEN over(i) ELSE inside(i)
(* A coordinate system is its parent's, and then its own.                    *)
CtmInv == \A e \in 1 .. Len(st.N) :
  Par(st, e) # 0 => Ctm(st, e, TRUE) = X!Mul6(Ctm(st, Par(st, e), TRUE), Local(st, e))
(* A plain rectangle covers what its geometry says; transforming it is       *)
(* transforming what it draws.                                               *)
ShapeInv == \A e \in 1 .. Len(st.N) :
  Tag(st, e) = "rect" =>
    LET g == Geometry(st, e) p == PathOf(st, e, FALSE) IN
    /\ (g.width[1] <= 0 \/ g.height[1] <= 0) = (p = <<>>)
    /\ RLe(g.rx, RHalf(RMax(g.width, R0))) \/ RLe(g.rx, R0) \/ p = <<>>
    /\ p # <<>> /\ ~HasArc(p) =>
         LET n == SelectSeq(Norm(p), LAMBDA x : x.t # "Z")
             xs == {n[i].v[1] : i \in 1 .. Len(n)} ys == {n[i].v[2] : i \in 1 .. Len(n)}
         IN xs = {g.x, RAdd(g.x, g.width)} /\ ys = {g.y, RAdd(g.y, g.height)}
(* asking changes nothing *)
ACAsk == last'.op.name \in {"view", "zoomed", "box4", "par", "vtm", "ctm", "geom", "path", "val", "cmp",
                            "getpoints"} => st' = st
ACRefusedLen == last'.out.r # "ok" => st' = st
=============================================================================
