----------------------------- MODULE TypedModel -----------------------------
(* Every short history of making, converting and reading numeric values.     *)
EXTENDS Typed, ModelBase

Op(n, is, v, u, us, q) == [name |-> n, is |-> is, v |-> v, u |-> u, us |-> us, q |-> q, lay |-> 0]
Of(n, is) == Op(n, is, R0, "", <<>>, <<>>)
TypedStarts == {[a |-> 0]}
Num(v, u) == NumTok(v, u)
Two == <<2, 1>>
Half == <<1, 2>>
(* every expression of three numbers and two marks, also grouped             *)
Marks == {"+", "-", "*", "/"}
Texts ==
  {<<FnTok("calc"), Num(Two, "px"), Tok(a), Num(<<3, 1>>, "number"), Tok(b), Num(<<5, 1>>, u), Tok(")")>> :
     a, b \in Marks, u \in {"number", "px"}}
  \cup {<<FnTok("calc"), Num(Two, "number"), Tok(a), Num(<<3, 1>>, "number"), Tok(b),
          Num(<<5, 1>>, "number"), Tok(c), Num(<<7, 1>>, "number"), Tok(")")>> : a, b, c \in Marks}
  \cup {<<FnTok("calc"), Tok("("), Num(Two, u), Tok(a), Num(<<3, 1>>, u), Tok(")"), Tok(b),
          Num(<<5, 1>>, "number"), Tok(")")>> : a, b \in Marks, u \in {"px", "number"}}
  \cup {<<FnTok("calc"), Num(Two, "number"), Tok(b), f, Num(Two, u), Tok(a), Num(<<3, 1>>, u),
          Tok(")"), Tok(")")>> : a, b \in Marks, u \in {"px", "number"}, f \in {Tok("("), FnTok("calc")}}
  \cup {<<FnTok(f), Num(Two, "px"), Tok(a), Num(<<3, 1>>, u), Tok(","), Num(<<1, 1>>, "in"), Tok(")")>> :
          f \in {"min", "max", "clamp"}, a \in Marks, u \in {"px", "number"}}
Units_ == {"px", "in", "em", "percent", "number", "deg", "turn"}
TypedOps(s) ==
  LET n == Len(s.vis)
      one == IF n > 3 THEN {} ELSE {Op("unit", <<>>, v, u, <<>>, <<>>) : v \in {Two}, u \in Units_}
      I == 1 .. n
  IN one
     \cup (IF n = 0 THEN {Op("parse", <<>>, R0, "", <<>>, q) : q \in Texts} ELSE {})
     \cup {Of(k, <<i>>) : k \in {"negate", "invert", "sum", "reparse"}, i \in I}
     \cup {Of(k, <<i, j>>) : k \in {"sum", "product", "max", "add", "equals"}, i, j \in I}
     \cup {Of(k, <<i, -3>>) : k \in {"sum", "product", "add"}, i \in I}
     \cup {Op("to", <<i>>, R0, u, <<>>, <<>>) : i \in I, u \in {"px", "in", "number", "deg"}}
     \cup {Op("tosum", <<i>>, R0, "", us, <<>>) : i \in I, us \in {<<>>, <<"px", "em">>, <<"percent", "in">>}}
     \cup {Op("set", <<i>>, Half, "", <<>>, <<>>) : i \in {x \in I : s.h[s.vis[x]].k = "unit"}}
(* fewer kinds, for longer histories                                         *)
Little(s, i) == LET q == SV(s.h, s.vis[i]).s
                IN \A j \in 1 .. Len(q) : AbsI(q[j].v[1]) < 400 /\ q[j].v[2] < 400
TypedThin(s) ==
  LET n == Len(s.vis)
      I == {i \in 1 .. n : Little(s, i)}
  IN (IF n > 2 THEN {} ELSE {Op("unit", <<>>, Two, u, <<>>, <<>>) : u \in {"px", "in", "percent", "number"}})
     \cup {Of(k, <<i>>) : k \in {"negate", "invert", "reparse"}, i \in I}
     \cup {Of(k, <<i, j>>) : k \in {"sum", "product", "add"}, i, j \in I}
     \cup {Op("to", <<i>>, R0, u, <<>>, <<>>) : i \in I, u \in {"px", "number"}}
     \cup {Op("tosum", <<i>>, R0, "", <<>>, <<>>) : i \in I}
     \cup {Op("set", <<i>>, Half, "", <<>>, <<>>) : i \in {x \in I : s.h[s.vis[x]].k = "unit"}}

Dims(t) == <<t.length, t.angle, t.time, t.frequency, t.resolution, t.flex>>
(* The items of a sum have the type of the value (percentages aside).        *)
ModelTyped ==
  \A j \in 1 .. Len(st.vis) :
    LET n == st.h[st.vis[j]] sv == SV(st.h, st.vis[j])
    IN sv.ok => \A k \in 1 .. Len(sv.s) :
         LET t == PowType(sv.s[k].m)
         IN (t.percent = 0 /\ n.ty.percent = 0) => Dims(t) = Dims(n.ty)
(* What is written and can be read again means the same.                     *)
ModelRoundTrip ==
  \A j \in 1 .. Len(st.vis) :
    LET i == st.vis[j]
        r == ReadValue(st.h, Text(st.h, i, "top"), 1)
    IN r.i # 0 => /\ ToSet(SV(r.h, r.i).s) = ToSet(SV(st.h, i).s)
                  /\ Dims(r.h[r.i].ty) = Dims(st.h[i].ty)
(* Nothing but setting a number changes a value handed out before.           *)
ACTypedApart ==
  last'.op.name # "set" =>
    /\ Len(st'.vis) >= Len(st.vis)
    /\ SubSeq(TypedObs(st').vals, 1, Len(st.vis)) = TypedObs(st).vals
(* A conversion there and back changes nothing.                              *)
ModelConverts ==
  \A j \in 1 .. Len(st.vis) :
    LET n == st.h[st.vis[j]]
    IN n.k = "unit" => \A w \in {"px", "in", "cm", "deg", "turn", "number", "em"} :
         Convertible(n.u, w) => Convert(Convert(n.v, n.u, w), w, n.u) = n.v
=============================================================================
