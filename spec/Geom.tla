-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Matrices and rectangles (geometry interfaces), in exact arithmetic.     *)
(*   M[i]  [m: 16 numbers m11 m12 .. m44, is2d, ro]                        *)
(*   R[i]  [x, y, w, h, ro]   x, y may be NoNum                            *)
(* An operation with w = 0 changes its object; otherwise it gives a new    *)
(* one, appended to M or R.                                                *)
(***************************************************************************)
EXTENDS Rat

At(c, r) == 4 * (c - 1) + r
Ident == [k \in 1 .. 16 |-> IF k \in {1, 6, 11, 16} THEN R1 ELSE R0]
With(m, ks, vs) ==                     \* components ks set to vs
  TLCEval([k \in 1 .. 16 |-> IF \E i \in 1 .. Len(ks) : ks[i] = k
                     THEN vs[CHOOSE i \in 1 .. Len(ks) : ks[i] = k] ELSE m[k]])
MM(a, b) == TLCEval([k \in 1 .. 16 |->
  LET c == ((k - 1) \div 4) + 1 r == ((k - 1) % 4) + 1
  IN RAdd(RAdd(RMul(a[At(1, r)], b[At(c, 1)]), RMul(a[At(2, r)], b[At(c, 2)])),
          RAdd(RMul(a[At(3, r)], b[At(c, 3)]), RMul(a[At(4, r)], b[At(c, 4)])))])
P2 == <<1, 2, 5, 6, 13, 14>>          \* positions of a b c d e f
Mat2(v) == With(Ident, P2, v)
Translate(t) == With(Ident, <<13, 14, 15>>, t)
ScaleM(s) == With(Ident, <<1, 6, 11>>, s)
RotZ(c, s) == With(Ident, <<1, 2, 5, 6>>, <<c, s, RNeg(s), c>>)
RotY(c, s) == With(Ident, <<1, 3, 9, 11>>, <<c, RNeg(s), s, c>>)
RotX(c, s) == With(Ident, <<6, 7, 10, 11>>, <<c, s, RNeg(s), c>>)
SkewX(t) == With(Ident, <<5>>, <<t>>)
SkewY(t) == With(Ident, <<2>>, <<t>>)
(* rotation about the unit vector u                                        *)
RotU(u, c, s) ==
  LET k == RSub(R1, c)
      x == u[1] y == u[2] z == u[3]
      f(a, b, e, t) == RAdd(RMul(RMul(a, b), k), RMul(e, t))
  IN With(Ident, <<1, 2, 3, 5, 6, 7, 9, 10, 11>>,
       <<f(x, x, c, R1), f(x, y, s, z), f(x, z, s, RNeg(y)),
         f(x, y, s, RNeg(z)), f(y, y, c, R1), f(y, z, s, x),
         f(x, z, s, y), f(y, z, s, RNeg(x)), f(z, z, c, R1)>>)

(* inverse by cofactors                                                    *)
Det3(a, b, c, d, e, f, g, h, i) ==
  RAdd(RSub(RMul(a, RSub(RMul(e, i), RMul(f, h))),
            RMul(b, RSub(RMul(d, i), RMul(f, g)))),
       RMul(c, RSub(RMul(d, h), RMul(e, g))))
Others(k) == IF k = 1 THEN <<2, 3, 4>> ELSE IF k = 2 THEN <<1, 3, 4>>
             ELSE IF k = 3 THEN <<1, 2, 4>> ELSE <<1, 2, 3>>
Minor(m, c, r) ==
  LET cs == Others(c) rs == Others(r)
  IN Det3(m[At(cs[1], rs[1])], m[At(cs[2], rs[1])], m[At(cs[3], rs[1])],
          m[At(cs[1], rs[2])], m[At(cs[2], rs[2])], m[At(cs[3], rs[2])],
          m[At(cs[1], rs[3])], m[At(cs[2], rs[3])], m[At(cs[3], rs[3])])
Cof(m, c, r) == IF (c + r) % 2 = 0 THEN Minor(m, c, r) ELSE RNeg(Minor(m, c, r))
Det4(m) == RSumS([c \in 1 .. 4 |-> RMul(m[At(c, 1)], Cof(m, c, 1))])
Inv2(m) ==
  LET a == m[1] b == m[2] c == m[5] d == m[6] e == m[13] f == m[14]
      t == RSub(RMul(a, d), RMul(b, c))
  IN Mat2(<<RDiv(d, t), RNeg(RDiv(b, t)), RNeg(RDiv(c, t)), RDiv(a, t),
            RDiv(RSub(RMul(c, f), RMul(d, e)), t),
            RDiv(RSub(RMul(b, e), RMul(a, f)), t)>>)
InvM(x) == IF x.is2d THEN Inv2(x.m)
           ELSE LET t == Det4(x.m)
                IN [k \in 1 .. 16 |->
                      LET c == ((k - 1) \div 4) + 1 r == ((k - 1) % 4) + 1
                      IN RDiv(Cof(x.m, r, c), t)]

Pt(m, p) == [r \in 1 .. 4 |->
  RSumS([k \in 1 .. 4 |-> RMul(m[At(k, r)], p[k])])]
Pt2(m, x, y) == LET p == Pt(m, <<x, y, R0, R1>>) IN <<p[1], p[2]>>

(* ---- construction from named components ------------------------------- *)
Comps == <<"m11", "m12", "m13", "m14", "m21", "m22", "m23", "m24",
           "m31", "m32", "m33", "m34", "m41", "m42", "m43", "m44">>
Alias == [a |-> 1, b |-> 2, c |-> 5, d |-> 6, e |-> 13, f |-> 14]
AliasNames == {"a", "b", "c", "d", "e", "f"}
CompIx(n) == IF n \in AliasNames THEN Alias[n] ELSE Ix(Comps, n)
Only3d == {3, 4, 7, 8, 9, 10, 11, 12, 15, 16}
FromDict(kw, is2) ==                   \* <<error, matrix, is2d>>
  LET val(k) == {kw[i][2] : i \in {j \in 1 .. Len(kw) : CompIx(kw[j][1]) = k}}
      clash  == \E k \in 1 .. 16 : Cardinality(val(k)) > 1
      m      == [k \in 1 .. 16 |-> IF val(k) = {} THEN Ident[k]
                                   ELSE CHOOSE v \in val(k) : TRUE]
      flat   == \A k \in Only3d : m[k] = Ident[k]
  IN IF clash \/ (is2 = 1 /\ ~flat) THEN [r |-> "ValueError"]
     ELSE [r |-> "ok", m |-> m, is2d |-> IF is2 = -1 THEN flat ELSE is2 = 1]

(* ---- steps ------------------------------------------------------------- *)
GOut(r, v, s) == [r |-> r, v |-> v, s |-> s]
GOk(st) == [st |-> st, out |-> GOut("ok", <<>>, <<>>)]
GErr(st, e) == [st |-> st, out |-> GOut(e, <<>>, <<>>)]
GVal(st, v) == [st |-> st, out |-> GOut("ok", v, <<>>)]
GStr(st, s) == [st |-> st, out |-> GOut("ok", <<>>, s)]
NewM(st, m, f, ro) == GOk([st EXCEPT !.M = Append(@, [m |-> m, is2d |-> f, ro |-> ro])])
(* the result of changing register i                                       *)
PutM(st, op, m, f) ==
  IF op.w = 0 THEN GOk([st EXCEPT !.M[op.i].m = m, !.M[op.i].is2d = f])
  ELSE NewM(st, m, f, FALSE)
Tf(b) == IF b THEN <<"True">> ELSE <<"False">>
ToList(x) == IF x.is2d THEN [k \in 1 .. 6 |-> x.m[P2[k]]] ELSE x.m
Text2(x, sep) ==
  (IF x.is2d THEN "matrix(" ELSE "matrix3d(") \o
  Join([k \in 1 .. Len(ToList(x)) |-> Decimal(ToList(x)[k], 6)], sep) \o ")"

MatStep(st, op) ==
  LET x == IF "i" \in DOMAIN op /\ op.i > 0 THEN st.M[op.i] ELSE [m |-> Ident, is2d |-> TRUE, ro |-> FALSE]
      times(m, keep) == PutM(st, op, MM(x.m, m), x.is2d /\ keep)
  IN CASE op.f = "new" ->
            IF Len(op.v) = 6 THEN NewM(st, Mat2(op.v), TRUE, op.ro)
            ELSE IF Len(op.v) = 16 THEN NewM(st, op.v, FALSE, op.ro)
            ELSE GErr(st, "TypeError")
       [] op.f = "dict" ->
            IF op.bad # "" THEN GErr(st, "TypeError")
            ELSE LET d == FromDict(op.kw, op.is2)
                 IN IF d.r # "ok" THEN GErr(st, d.r) ELSE NewM(st, d.m, d.is2d, op.ro)
       [] op.f = "json" -> NewM(st, x.m, x.is2d, op.ro)
       [] op.f = "mul" -> times(st.M[op.j].m, st.M[op.j].is2d)
       [] op.f = "translate" -> times(Translate(op.t), op.t[3] = R0)
       [] op.f = "scale" ->
            times(MM(MM(Translate(op.o), ScaleM(op.s)),
                     Translate([k \in 1 .. 3 |-> RNeg(op.o[k])])),
                  op.s[3] = R1 /\ op.o[3] = R0)
       [] op.f = "rotate" ->
            times(MM(MM(RotZ(op.z[1], op.z[2]), RotY(op.y[1], op.y[2])),
                     RotX(op.x[1], op.x[2])),
                  op.y = <<R1, R0>> /\ op.x = <<R1, R0>> /\ op.t[1] = 0 /\ op.t[2] = 0)
       [] op.f = "axis" ->
            IF op.len = R0 THEN PutM(st, op, x.m, x.is2d)
            ELSE LET u == [k \in 1 .. 3 |-> RDiv(op.u[k], op.len)]
                 IN times(RotU(u, op.c, op.s), u[1] = R0 /\ u[2] = R0)
       [] op.f = "vector" ->
            IF op.len = R0 THEN PutM(st, op, x.m, x.is2d)
            ELSE times(RotZ(RDiv(op.x, op.len), RDiv(op.y, op.len)), TRUE)
       [] op.f = "skewx" -> times(SkewX(op.t), TRUE)
       [] op.f = "skewy" -> times(SkewY(op.t), TRUE)
       [] op.f = "flipx" -> times(ScaleM(<<RNeg(R1), R1, R1>>), TRUE)
       [] op.f = "flipy" -> times(ScaleM(<<R1, RNeg(R1), R1>>), TRUE)
       [] op.f = "inverse" -> PutM(st, op, InvM(x), x.is2d)
       [] op.f = "set" ->
            LET k == CompIx(op.n)
            IN PutM(st, op, [x.m EXCEPT ![k] = op.v],
                    x.is2d /\ ~(k \in Only3d /\ op.v # Ident[k]))
       [] op.f = "clear" ->
            PutM(st, op, Ident, IF op.is2 = -1 THEN x.is2d ELSE op.is2 = 1)
       [] op.f = "point" ->
            LET p == Pt(x.m, op.p)
            IN GVal(st, IF x.is2d /\ op.p[3] = R0 /\ op.p[4] = R1
                        THEN <<p[1], p[2]>> ELSE p)
       [] op.f = "parts" ->
            LET n == IF x.is2d THEN 2 ELSE 3
            IN GVal(st, [k \in 1 .. n |-> x.m[12 + k]] \o
                        [k \in 1 .. n |-> RAdd(RAdd(RSq(x.m[At(k, 1)]), RSq(x.m[At(k, 2)])),
                                               RSq(x.m[At(k, 3)]))])
       [] op.f = "angle" ->           \* cos and sin of the z rotation, squared with sign
            LET q == RAdd(RSq(x.m[1]), RSq(x.m[2]))
                sq(v) == IF v[1] < 0 THEN RNeg(RDiv(RSq(v), q)) ELSE RDiv(RSq(v), q)
            IN GVal(st, <<sq(x.m[1]), sq(x.m[2])>>)
       [] op.f = "eq" -> GStr(st, Tf(x.m = st.M[op.j].m))
       [] op.f = "ident" -> GStr(st, Tf(x.m = Ident))
       [] op.f = "text" -> GStr(st, <<Text2(x, op.sep)>>)

(* ---- rectangles -------------------------------------------------------- *)
Placed(r) == r.x # NoNum /\ r.y # NoNum
Valid(r)  == Placed(r) /\ RLt(R0, r.w) /\ RLt(R0, r.h)
Rt(r) == RAdd(r.x, r.w)
Bt(r) == RAdd(r.y, r.h)
Pos0(v) == RMax(v, R0)
In(v, a, b) == RLe(a, v) /\ RLe(v, b)
RContains(r, x, y, w, h) ==
  /\ Valid(r)
  /\ In(x, r.x, Rt(r)) /\ In(RAdd(x, Pos0(w)), r.x, Rt(r))
  /\ In(y, r.y, Bt(r)) /\ In(RAdd(y, Pos0(h)), r.y, Bt(r))
Coords(r, x1, y1, x2, y2) ==
  [r EXCEPT !.x = x1, !.y = y1, !.w = RSub(x2, x1), !.h = RSub(y2, y1)]
Unite(r, x, y, w, h) ==
  IF x = NoNum \/ y = NoNum THEN r
  ELSE LET x2 == RAdd(x, Pos0(w)) y2 == RAdd(y, Pos0(h))
       IN IF ~Placed(r) THEN Coords(r, x, y, x2, y2)
          ELSE IF RContains(r, x, y, w, h) THEN r
          ELSE Coords(r, RMin(r.x, x), RMin(r.y, y), RMax(Rt(r), x2), RMax(Bt(r), y2))
(* Rectangles that do not overlap leave each other as they are.            *)
Overlap(r, o) == /\ Valid(r) /\ Valid(o)
                 /\ RLt(r.x, Rt(o)) /\ RLt(o.x, Rt(r))
                 /\ RLt(r.y, Bt(o)) /\ RLt(o.y, Bt(r))
Intersect(r, o) ==
  IF ~Overlap(r, o) THEN r
  ELSE Coords(r, RMax(r.x, o.x), RMax(r.y, o.y), RMin(Rt(r), Rt(o)), RMin(Bt(r), Bt(o)))
RectTransform(r, m) ==
  IF ~Placed(r) THEN r
  ELSE LET a == Pt2(m, r.x, r.y) b == Pt2(m, Rt(r), r.y)
           c == Pt2(m, Rt(r), Bt(r)) d == Pt2(m, r.x, Bt(r))
           xs == <<a[1], b[1], c[1], d[1]>> ys == <<a[2], b[2], c[2], d[2]>>
       IN Coords(r, RMinS(xs), RMinS(ys), RMaxS(xs), RMaxS(ys))
Normal(r) ==
  [r EXCEPT !.x = IF RLt(r.w, R0) THEN RAdd(r.x, r.w) ELSE r.x, !.w = RAbs(r.w),
            !.y = IF RLt(r.h, R0) THEN RAdd(r.y, r.h) ELSE r.y, !.h = RAbs(r.h)]
PutR(st, op, r) == IF op.w = 0 THEN GOk([st EXCEPT !.R[op.i] = r])
                   ELSE GOk([st EXCEPT !.R = Append(@, [r EXCEPT !.ro = FALSE])])
MkR(x, y, w, h, ro) == [x |-> x, y |-> y, w |-> w, h |-> h, ro |-> ro]

RectStep(st, op) ==
  LET r == IF "i" \in DOMAIN op /\ op.i > 0 THEN st.R[op.i] ELSE MkR(R0, R0, R0, R0, FALSE)
      v == IF "v" \in DOMAIN op THEN op.v ELSE <<>>
  IN CASE op.f = "new" -> GOk([st EXCEPT !.R = Append(@, MkR(v[1], v[2], v[3], v[4], op.ro))])
       [] op.f = "copy" -> GOk([st EXCEPT !.R = Append(@, [r EXCEPT !.ro = op.ro])])
       [] op.f = "set" ->
            PutR(st, op, CASE op.n = "x" -> [r EXCEPT !.x = v[1]]
                           [] op.n = "y" -> [r EXCEPT !.y = v[1]]
                           [] op.n = "width" -> [r EXCEPT !.w = v[1]]
                           [] op.n = "height" -> [r EXCEPT !.h = v[1]]
                           [] op.n = "coords" -> Coords(r, v[1], v[2], v[3], v[4])
                           [] op.n = "rect" -> MkR(v[1], v[2], v[3], v[4], r.ro)
                           [] op.n = "size" -> [r EXCEPT !.w = v[1], !.h = v[2]]
                           [] op.n = "move" -> [r EXCEPT !.x = v[1], !.y = v[2]])
       [] op.f = "adjust" ->
            PutR(st, op, IF ~Valid(r) THEN r
                         ELSE Coords(r, RAdd(r.x, v[1]), RAdd(r.y, v[2]),
                                     RAdd(Rt(r), v[3]), RAdd(Bt(r), v[4])))
       [] op.f = "translate" ->
            PutR(st, op, [r EXCEPT !.x = RAdd(@, v[1]), !.y = RAdd(@, v[2])])
       [] op.f = "transpose" -> PutR(st, op, [r EXCEPT !.w = r.h, !.h = r.w])
       [] op.f = "normalize" -> PutR(st, op, Normal(r))
       [] op.f = "unite" -> PutR(st, op, Unite(r, v[1], v[2], v[3], v[4]))
       [] op.f = "or" -> LET o == st.R[op.j]
                         IN PutR(st, op, Unite(r, o.x, o.y, o.w, o.h))
       [] op.f = "intersect" -> PutR(st, op, Intersect(r, st.R[op.j]))
       [] op.f = "transform" -> PutR(st, op, RectTransform(r, st.M[op.m].m))
       [] op.f = "contains" -> GStr(st, Tf(RContains(r, v[1], v[2], v[3], v[4])))
       [] op.f = "eq" -> LET o == st.R[op.j]
                         IN GStr(st, Tf(r.x = o.x /\ r.y = o.y /\ r.w = o.w /\ r.h = o.h))

GeomStart(s) == [M |-> <<>>, R |-> <<>>]
GeomStep(st, op) == IF op.name = "m" THEN MatStep(st, op) ELSE RectStep(st, op)
GeomObs(st) ==
  [m |-> [i \in 1 .. Len(st.M) |-> [m |-> st.M[i].m, is2d |-> st.M[i].is2d]],
   r |-> [i \in 1 .. Len(st.R) |->
            LET r == st.R[i] IN [xywh |-> <<r.x, r.y, r.w, r.h>>,
              right |-> IF r.x = NoNum THEN NoNum ELSE Rt(r),
              bottom |-> IF r.y = NoNum THEN NoNum ELSE Bt(r),
              valid |-> Valid(r),
              empty |-> ~Valid(r)]]]
=============================================================================
