----------------------------- MODULE XformModel -----------------------------
(* Every list operation at every position on small lists with shared items. *)
EXTENDS Xform, ModelBase

Z(n) == <<n, 1>>
XformStarts == {[n |-> 1, objs |-> <<<<2, <<Z(3), Z(-1)>>>>, <<4, <<Z(90), Z(1), Z(0)>>>>>>,
                 lists |-> ls] :
                 ls \in {<<<<>>, <<2>>>>, <<<<1, 2>>, <<1>>>>, <<<<2, 1, 2>>, <<>>>>}}
X(f) == [name |-> "x", f |-> f]
Wide(s) ==
  LET P == -4 .. 4
  IN {[name |-> "x", f |-> f, l |-> 1, o |-> o, i |-> i, w |-> w] :
        f \in {"insert", "replace"}, o \in 0 .. 2, i \in P, w \in {0, 1}}
     \cup {[name |-> "x", f |-> "remove", l |-> 1, i |-> i, w |-> w] : i \in P, w \in 0 .. 2}
     \cup {[name |-> "x", f |-> "get", l |-> 1, i |-> i, w |-> w] : i \in P, w \in 0 .. 1}
     \cup {[name |-> "x", f |-> f, l |-> 1, os |-> os, w |-> w] :
             f \in {"extend", "add"}, os \in {<<2>>, <<1, 2>>}, w \in 0 .. 2}
     \cup {[name |-> "x", f |-> "lextend", l |-> 1, k |-> k, w |-> w] : k \in 1 .. 2, w \in 0 .. 1}
     \cup {[name |-> "x", f |-> "slice", l |-> 1, i |-> i, j |-> j, os |-> os, w |-> 0] :
             i \in P, j \in P, os \in {<<>>, <<2>>, <<1, 2>>, <<1, 0>>}}
     \cup {[name |-> "x", f |-> f, l |-> 1, i |-> i, j |-> j, w |-> 0] :
             f \in {"del", "part"}, i \in P, j \in P}
Narrow(s) ==
  {[name |-> "x", f |-> "oset", o |-> o, t |-> 3, v |-> v, w |-> 1] :
        o \in 1 .. 2, v \in {<<Z(2)>>, <<Z(2), Z(1), Z(1)>>}}
     \cup {[name |-> "x", f |-> "append", l |-> 1, o |-> o, w |-> 0] : o \in 0 .. 2}
     \cup {[name |-> "x", f |-> "init", l |-> 1, o |-> o, w |-> 0] : o \in 0 .. 1}
     \cup {[name |-> "x", f |-> f, l |-> 1, o |-> 1, i |-> i, w |-> 1] :
             f \in {"insert", "replace"}, i \in {-1, 0, 1}}
     \cup {[name |-> "x", f |-> "remove", l |-> 1, i |-> i, w |-> 0] : i \in {-1, 0, 2}}
     \cup {[name |-> "x", f |-> f, l |-> 1, w |-> 0] : f \in {"clear", "reverse", "mutmat", "len"}}
     \cup {[name |-> "x", f |-> f, l |-> l, w |-> 0] : f \in {"consolidate", "total"}, l \in 1 .. 2}
     \cup {[name |-> "x", f |-> "add", l |-> 1, os |-> <<2>>, w |-> 0],
            [name |-> "x", f |-> "lextend", l |-> 1, k |-> 1, w |-> 1],
            [name |-> "x", f |-> "slice", l |-> 1, i |-> 1, j |-> 2, os |-> <<1, 2>>, w |-> 0],
            [name |-> "x", f |-> "del", l |-> 1, i |-> 0, j |-> 1, w |-> 0]}
     \cup {[name |-> "x", f |-> "eset", e |-> 1, l |-> l] : l \in 1 .. 2}
     \cup {[name |-> "x", f |-> "eget", e |-> 1]}
     \cup {[name |-> "x", f |-> "enone", e |-> 1, s |-> "none"]}
XformWideOps(s) == Wide(s) \cup Narrow(s)
XformModelOps(s) == IF Len(s.O) < 4 /\ \A l \in 1 .. Len(s.L) : Len(s.L[l]) < 6 THEN Narrow(s) ELSE {}

(* What the attribute lists, read back, is what was written to it.         *)
AttrInv == \A i \in 1 .. Len(st.E) :
  st.E[i].s \notin {"-", "none"} =>
    st.E[i].s = Join([k \in 1 .. Len(st.E[i].q) |-> Text1(st.E[i].q[k], ", ")], " ")
Items == \A l \in 1 .. Len(st.L) : \A k \in 1 .. Len(st.L[l]) : st.L[l][k] \in 1 .. Len(st.O)
ACRefused == last'.out.r # "ok" => st' = st
ACSameTotal ==
  last'.op.f = "consolidate" =>
    LET a == st.L[last'.op.l] b == st'.L[last'.op.l]
    IN /\ Len(b) = IF a = <<>> THEN 0 ELSE 1
       /\ AllExact(st.O, a) => MatL(st.O, a) = MatL(st'.O, b)
=============================================================================
