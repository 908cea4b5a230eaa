----------------------------- MODULE GeomModel -----------------------------
(* Every pair of rectangles on a small grid, combined in every way; every  *)
(* elementary matrix operation on a few matrices.                          *)
EXTENDS Geom, ModelBase

GeomStarts == {"none"}
Z(n) == <<n, 1>>
Bases == {<<Z(1), Z(1), Z(2), Z(2)>>, <<Z(1), Z(1), Z(0), Z(2)>>,
          <<NoNum, NoNum, Z(0), Z(0)>>, <<Z(1), Z(1), Z(-1), Z(2)>>}
Grid == {<<Z(x), Z(y), Z(w), Z(h)>> :
           x \in 0 .. 4, y \in 0 .. 3, w \in 0 .. 3, h \in {0, 1, 2, 4}}
RectOps(s) ==
  IF Len(s.R) = 0 THEN {[name |-> "r", f |-> "new", v |-> v, ro |-> FALSE, w |-> 0, i |-> 0] : v \in Bases}
  ELSE IF Len(s.R) = 1
       THEN {[name |-> "r", f |-> "new", v |-> v, ro |-> FALSE, w |-> 1, i |-> 0] : v \in Grid}
  ELSE {[name |-> "r", f |-> f, i |-> i, j |-> 3 - i, w |-> w] :
          f \in {"or", "intersect"}, i \in {1, 2}, w \in {0, 1}}
       \cup {[name |-> "r", f |-> "contains", i |-> 1, w |-> 1,
              v |-> LET o == s.R[2] IN <<o.x, o.y, o.w, o.h>>]}
       \cup {[name |-> "r", f |-> "eq", i |-> 1, j |-> 2, w |-> 1]}
GeomModelOps(s) == IF Len(s.R) > 2 THEN {} ELSE RectOps(s)

MatBases == {<<Z(1), Z(0), Z(0), Z(1), Z(0), Z(0)>>, <<Z(1), Z(2), Z(-1), Z(3), Z(4), <<1, 2>>>>}
Mat3 == [k \in 1 .. 16 |-> IF k \in {1, 6, 11, 16} THEN Z(2) ELSE IF k \in {2, 9, 13} THEN Z(1) ELSE Z(0)]
A0 == <<R1, R0>>
A90 == <<R0, R1>>
MatOps(s) ==
  IF Len(s.M) = 0 THEN {[name |-> "m", f |-> "new", v |-> v, ro |-> FALSE, w |-> 0, i |-> 0] :
                           v \in MatBases \cup {Mat3}}
  ELSE LET i == Len(s.M) o(f) == [name |-> "m", f |-> f, i |-> i]
       IN {[name |-> "m", f |-> "translate", i |-> i, w |-> w, t |-> <<Z(3), Z(-1), z>>] :
             w \in {0, 1}, z \in {Z(0), Z(2)}}
          \cup {[name |-> "m", f |-> "scale", i |-> i, w |-> w, k |-> 3,
                 s |-> <<Z(2), Z(3), sz>>, o |-> <<ox, Z(0), Z(0)>>] :
                 w \in {0, 1}, sz \in {Z(1), Z(2)}, ox \in {Z(0), Z(5)}}
          \cup {[name |-> "m", f |-> "rotate", i |-> i, w |-> w, x |-> x, y |-> y, z |-> z, t |-> t] :
                 w \in {0, 1}, t \in {<<0, 0, 0>>, <<1, 0, -1>>, <<0, 1, 0>>}, x \in {A0, A90}, y \in {A0, A90}, z \in {A0, A90}}
          \cup {[name |-> "m", f |-> f, i |-> i, w |-> w, t |-> Z(1)] :
                 f \in {"skewx", "skewy"}, w \in {0, 1}}
          \cup {[name |-> "m", f |-> f, i |-> i, w |-> 1] : f \in {"flipx", "flipy", "inverse"}}
          \cup {[name |-> "m", f |-> "mul", i |-> i, j |-> 1, w |-> w] : w \in {0, 1, 2}}
          \cup {[name |-> "m", f |-> "set", i |-> i, w |-> 0, n |-> n, v |-> v] :
                 n \in {Comps[k] : k \in 1 .. 16}, v \in {Z(0), Z(1), Z(2)}}
          \cup {[name |-> "m", f |-> "clear", i |-> i, w |-> 0, is2 |-> k] : k \in {-1, 0, 1}}
          \cup {[name |-> "m", f |-> "point", i |-> i, w |-> 0, p |-> <<Z(3), Z(-2), z, ww>>] :
                 z \in {Z(0), Z(1)}, ww \in {Z(1), Z(2)}}
Invertible(s, op) == op.f # "inverse" \/
  (LET x == s.M[op.i] IN IF x.is2d THEN RSub(RMul(x.m[1], x.m[6]), RMul(x.m[2], x.m[5])) # R0
                          ELSE Det4(x.m) # R0)
MatModelOps(s) == {op \in MatOps(s) : Invertible(s, op)}

(* A matrix marked 2d has the shape of one; the union of two rectangles    *)
(* contains both, their intersection lies in both.                         *)
TwoD == \A i \in 1 .. Len(st.M) :
          st.M[i].is2d => \A k \in Only3d : st.M[i].m[k] = Ident[k]
InR(a, b) == Placed(a) /\ Placed(b) /\ RLe(b.x, a.x) /\ RLe(Rt(a), Rt(b))
             /\ RLe(b.y, a.y) /\ RLe(Bt(a), Bt(b))
Boxes == \A i, j \in 1 .. Len(st.R) :
  LET a == st.R[i] b == st.R[j]
      u == Unite(a, b.x, b.y, b.w, b.h) n == Intersect(a, b)
  IN Valid(a) /\ Valid(b) =>
       /\ InR(a, u) /\ InR(b, u)
       /\ Unite(b, a.x, a.y, a.w, a.h) = [u EXCEPT !.ro = b.ro]
       /\ Overlap(a, b) => InR(n, a) /\ InR(n, b)
                           /\ Intersect(b, a) = [n EXCEPT !.ro = b.ro]
=============================================================================
