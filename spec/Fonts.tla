------------------------------- MODULE Fonts -------------------------------
(***************************************************************************)
(* The sizes and weights of the fonts of a tree of elements.               *)
(*                                                                         *)
(* An element declares a font size and a font weight in attributes (a) and *)
(* in its style attribute (c), which wins.  A declared value is            *)
(*   none | inherit | unset | initial                                      *)
(*   abs (a keyword) | px n | pt n | em n | pc n (percent) | larger |      *)
(*   smaller                                     for the size, and         *)
(*   n (a number) | normal | bold | bolder | lighter    for the weight.    *)
(* A relative value is relative to the parent of the element declaring it, *)
(* and what is inherited is its computed value.                            *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

NoDecl == [k |-> "none", n |-> R0, v |-> ""]
Plain == [s |-> NoDecl, w |-> NoDecl]
FontsStart(st) ==
  [par |-> <<0>>, a |-> <<Plain>>, c |-> <<Plain>>]

Keyword(v) ==      \* of a medium size of 16
  CASE v \in {"xx-small", "x-small"} -> 10     \* the least there is
    [] v = "small" -> 13
    [] v = "medium" -> 16
    [] v = "large" -> 18
    [] v = "x-large" -> 24
    [] v = "xx-large" -> 32
Least == <<10, 1>>
Medium == <<16, 1>>

Declared(s, e, p) == IF s.c[e][p].k # "none" THEN s.c[e][p] ELSE s.a[e][p]
RECURSIVE Size(_, _)
Size(s, e) ==
  IF e = 0 THEN Medium
  ELSE LET d == Declared(s, e, "s")
           up == Size(s, s.par[e])
       IN IF d.k \in {"none", "inherit", "unset"} THEN up
          ELSE RMax(Least,
                 CASE d.k = "initial" -> Medium
                   [] d.k = "abs" -> <<Keyword(d.v), 1>>
                   [] d.k = "px" -> d.n
                   [] d.k = "pt" -> RMul(d.n, <<4, 3>>)
                   [] d.k = "em" -> RMul(d.n, up)
                   [] d.k = "pc" -> RMul(d.n, RMul(<<1, 100>>, up))
                   [] d.k = "larger" -> RMul(<<6, 5>>, up)
                   [] d.k = "smaller" -> RMul(<<5, 6>>, up))

Bolder(w) == IF w < 350 THEN 400 ELSE IF w < 550 THEN 700 ELSE 900
Lighter(w) == IF w < 550 THEN 100 ELSE IF w < 750 THEN 400 ELSE 700
RECURSIVE Weight(_, _)
Weight(s, e) ==
  IF e = 0 THEN 400
  ELSE LET d == Declared(s, e, "w")
           up == Weight(s, s.par[e])
       IN CASE d.k \in {"none", "inherit", "unset"} -> up
            [] d.k \in {"initial", "normal"} -> 400
            [] d.k = "bold" -> 700
            [] d.k = "bolder" -> Bolder(up)
            [] d.k = "lighter" -> Lighter(up)
            [] d.k = "n" -> d.n[1]

RECURSIVE Over(_, _)
Over(s, e) == IF e = 0 THEN {} ELSE {e} \cup Over(s, s.par[e])

FontsObs(s) ==
  [fonts |-> [e \in 1 .. Len(s.par) |-> [size |-> Size(s, e), weight |-> Weight(s, e)]]]
FOk(s) == [st |-> s, out |-> [r |-> "ok"]]
FontsStep(s, op) ==
  CASE op.name = "append" ->
         FOk([par |-> Append(s.par, op.e), a |-> Append(s.a, Plain), c |-> Append(s.c, Plain)])
    [] op.name = "move" ->
         FOk([s EXCEPT !.par[op.e] = op.to])
    [] op.name = "set" ->
         FOk(IF op.css = 1 THEN [s EXCEPT !.c[op.e][op.p] = op.d] ELSE [s EXCEPT !.a[op.e][op.p] = op.d])
=============================================================================
