----------------------------- MODULE CharsModel -----------------------------
(* Every short history of writing, nesting, hiding and placing characters.   *)
EXTENDS Chars, ModelBase

Start(w) ==
   [ws |-> w, adv |-> <<<<97, 385, 771>>, <<98, 385, 771>>, <<32, 385, 771>>, <<9, 385, 771>>, <<10, 385, 771>>, <<13, 385, 771>>, <<160, 385, 771>>,
              <<23383, 0, 0>>, <<8203, 0, 0>>>>,
    box |-> <<<<576, 768>>, <<1152, 1472>>>>]
CharsStarts == {Start("")}
BreakStarts == {Start(w) : w \in {"", "pre", "pre-line", "pre-wrap"}}
Op(nm, n) ==
  [name |-> nm, n |-> n, k |-> "", s |-> <<>>, tail |-> <<>>, key |-> "", v |-> "", l |-> <<>>,
   from |-> 0, count |-> 0, sp |-> 0]
Els(s) == {n \in 1 .. Len(s.ns) : s.ns[n].k \in {"text", "tspan"}}
Texts == {<<97>>, <<32, 97, 32>>, <<32>>, <<97, 32, 10, 9, 98>>}
Few == {<<32, 97>>, <<97, 32>>, <<32>>}
CharsOps(s) ==
  (IF Len(s.ns) > 3 THEN {} ELSE
     {[Op("append", n) EXCEPT !.k = k, !.s = t, !.tail = u] :
        n \in Els(s), k \in {"tspan"}, t \in Few \cup {<<>>}, u \in {<<>>, <<32, 98>>, <<98>>}}
     \cup {[Op("append", n) EXCEPT !.k = k, !.s = <<97>>, !.tail = u] :
        n \in Els(s), k \in {"comment", "title"}, u \in {<<>>, <<32, 98>>}})
  \cup {[Op("text", n) EXCEPT !.s = t] : n \in Els(s), t \in Texts}
  \cup {[Op("set", n) EXCEPT !.key = "ws", !.v = w] : n \in Els(s), w \in {"pre", "pre-line", "nowrap"}}
  \cup {[Op("set", n) EXCEPT !.key = "disp", !.v = "none"] : n \in Els(s)}
  \cup {[Op("set", n) EXCEPT !.key = "size", !.v = "20"] : n \in Els(s)}
  \cup {[Op("place", n) EXCEPT !.key = k, !.l = l] :
          n \in Els(s), k \in {"x", "dx", "y"}, l \in {<<5>>, <<7, -3>>}}
  \cup {[Op("length", n) EXCEPT !.count = c, !.from = f] : n \in Els(s), c \in {-1, 1}, f \in {0, 1}}
  \cup {Op("chars", n) : n \in Els(s)}
  \cup {Op("box", 1)}
CharsThin(s) == {o \in CharsOps(s) :
  /\ o.name = "append" => o.k # "title" /\ o.tail # <<98>>
  /\ o.name = "text" => o.s \in Few \/ o.s = <<97, 32, 10, 9, 98>>
  /\ o.name = "set" => o.v \in {"pre", "none"}
  /\ o.name = "place" => o.key = "x" /\ o.l = <<7, -3>>
  /\ o.name \notin {"length", "chars"}}
CharsDeep(s) == {o \in CharsThin(s) :
  /\ o.name = "append" => o.n = Most(Els(s)) /\ (o.k = "comment" \/ o.s \in {<<32>>, <<32, 97>>})
  /\ o.name = "text" => o.n = Most(Els(s)) /\ o.s \in Few
  /\ o.name \notin {"place", "box"}}
Wider == {<<23383, 10, 23383>>, <<23383, 32, 10, 97>>, <<97, 13, 10, 23383>>, <<97, 10, 8203, 10, 97>>, <<10, 10, 97, 13>>, <<9, 97, 13, 10, 97, 32, 9>>, <<160>>}
CharsBreaks(s) ==
  (IF Len(s.ns) > 2 THEN {} ELSE
     {[Op("append", n) EXCEPT !.k = "tspan", !.s = t, !.tail = u] :
        n \in Els(s), t \in Wider, u \in Wider})
  \cup {[Op("text", n) EXCEPT !.s = t] : n \in Els(s), t \in Wider}
  \cup {[Op("set", n) EXCEPT !.key = "ws", !.v = w] : n \in Els(s), w \in {"pre", "pre-wrap", "pre-line", "nowrap"}}

AllCollapse == \A n \in 1 .. Len(st.ns) : Collapses(White(st.ns, n))
Text1 == CharsOf(st.ns, 1)
(* No space stands first, last or beside another where white space collapses.*)
ModelSpaces ==
  AllCollapse => \A i \in 1 .. Len(Text1) :
    Text1[i] = SPACE => i > 1 /\ i < Len(Text1) /\ Text1[i + 1] # SPACE
(* How the characters are divided into elements does not matter.             *)
Flat ==
  LET w == Written(st.ns, 1) IN FlattenSeq([i \in 1 .. Len(w) |-> w[i].s])
ModelFlat ==
  (/\ \A n \in 1 .. Len(st.ns) : White(st.ns, n) \in {"normal", "nowrap"}
   /\ \A i \in 1 .. Len(Flat) : Flat[i] \notin {ZERO, 23383})
    => Text1 = RStrip(LStrip(Tidy(Flat, "normal")))
(* What an element shows is part of what its parent shows.                   *)
ModelParts ==
  \A n \in Els(st) : n > 1 =>
    LET c == CharsOf(st.ns, n)
        p == CharsOf(st.ns, st.ns[n].par)
    IN c = <<>> \/ \E i \in 0 .. (Len(p) - Len(c)) : SubSeq(p, i + 1, i + Len(c)) = c
(* Lengths add up.                                                           *)
ModelLengths ==
  \A n \in Els(st) : \A k \in 0 .. 3 :
    Length(st, n, 0, -1) = Length(st, n, 0, k) + Length(st, n, k, -1)
(* Characters nobody placed stand side by side.                              *)
ModelBox ==
  (\A n \in 1 .. Len(st.ns) : st.ns[n].x = <<>> /\ st.ns[n].dx = <<>>)
    => Box(st) = <<>> \/ (Box(st)[1] = 0 /\ Box(st)[3] = Length(st, 1, 0, -1))
(* Sizes and positions never change the characters.                          *)
Unmoved ==
  [][last'.op.name \in {"place", "length", "box", "chars"} \/ (last'.op.name = "set" /\ last'.op.key = "size")
       => CharsOf(st'.ns, 1) = Text1]_mvars
Hides ==
  [][last'.op.name = "set" /\ last'.op.v = "none" => CharsOf(st'.ns, last'.op.n) = <<>>]_mvars
=============================================================================
