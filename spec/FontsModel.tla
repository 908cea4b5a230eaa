----------------------------- MODULE FontsModel -----------------------------
(* Every short history of declarations of sizes and weights in a small tree. *)
EXTENDS Fonts, ModelBase

FontsStarts == {[u |-> 0]}
D(k, n, v) == [k |-> k, n |-> n, v |-> v]
Rel == {D("larger", R0, ""), D("smaller", R0, ""), D("em", <<3, 2>>, ""), D("pc", <<50, 1>>, "")}
Abs == {D("px", <<30, 1>>, ""), D("pt", <<15, 1>>, ""), D("abs", R0, "x-large"), D("inherit", R0, ""),
        D("initial", R0, ""), NoDecl}
Wts == {D("bolder", R0, ""), D("lighter", R0, ""), D("n", <<600, 1>>, ""), D("bold", R0, ""), NoDecl}
Sets(s, X, p, css) == {[name |-> "set", e |-> e, p |-> p, css |-> k, d |-> d] :
                         e \in 1 .. Len(s.par), k \in css, d \in X}
FontsOps(s) ==
  (IF Len(s.par) > 3 THEN {} ELSE {[name |-> "append", e |-> e] : e \in 1 .. Len(s.par)})
  \cup {[name |-> "move", e |-> e, to |-> t] :
          e \in 2 .. Len(s.par), t \in {x \in 1 .. Len(s.par) : TRUE}}
  \cup Sets(s, Rel \cup Abs, "s", {0, 1}) \cup Sets(s, Wts, "w", {0, 1})
FontsAll(s) == {o \in FontsOps(s) : o.name = "move" => o.e \notin Over(s, o.to)}
FontsThin(s) ==
  {o \in FontsAll(s) : /\ o.name = "append" => o.e = Len(s.par)
                       /\ o.name = "set" => o.css = 0 /\ o.d \in Rel \cup {D("bolder", R0, ""), D("lighter", R0, "")}}

(* An element that declares nothing looks like its parent.                   *)
ModelInherits ==
  \A e \in 2 .. Len(st.par) :
    /\ Declared(st, e, "s").k \in {"none", "inherit"} => Size(st, e) = Size(st, st.par[e])
    /\ Declared(st, e, "w").k \in {"none", "inherit"} => Weight(st, e) = Weight(st, st.par[e])
ModelBounds ==
  \A e \in 1 .. Len(st.par) : ~RLt(Size(st, e), Least) /\ Weight(st, e) \in {100, 400, 600, 700, 900}
(* bolder is never lighter, larger never smaller.                            *)
ModelOrder ==
  \A e \in 2 .. Len(st.par) :
    LET d == Declared(st, e, "w").k k == Declared(st, e, "s").k p == st.par[e] IN
    /\ d = "bolder" => Weight(st, e) >= Weight(st, p)
    /\ d = "lighter" => Weight(st, e) <= Weight(st, p)
    /\ k = "larger" => RLt(Size(st, p), Size(st, e))
    /\ k = "smaller" => ~RLt(Size(st, p), Size(st, e))
(* A declaration reaches only the elements below it.                         *)
ACLocal ==
  last'.op.name \in {"set", "move"} =>
    \A e \in 1 .. Len(st.par) :
      last'.op.e \notin Over(st', e) => Size(st, e) = Size(st', e) /\ Weight(st, e) = Weight(st', e)
FontsLocal == [][ACLocal]_mvars
=============================================================================
