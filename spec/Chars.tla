------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* The characters of a text: which of the characters written in a text     *)
(* element, its tspans and between them are shown, how white space in them *)
(* collapses, how long every part is and where its characters stand.       *)
(*                                                                         *)
(* A text is a tree of nodes (node 1 is the text element); a character is  *)
(* its code.  The characters come in runs: what stands in an element before*)
(* its first child and after each of them.  White space collapses inside a *)
(* run and from run to run.  Lengths are in 1/64 of a unit; advances are   *)
(* those of a font with one advance for every character and size.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SPACE == 32
TAB == 9
BREAKS == {10, 13}
ZERO == 8203                          \* zero width space
WIDE == {23383, 65393}                \* East Asian, not Hangul

Blank == [k |-> "", par |-> 0, ch |-> <<>>, ws |-> "", disp |-> "", size |-> "",
          x |-> <<>>, y |-> <<>>, dx |-> <<>>, dy |-> <<>>, t |-> <<>>, tail |-> <<>>]
CharsStart(s) ==
  [ns |-> <<[Blank EXCEPT !.k = "text", !.ws = s.ws]>>,
   adv |-> s.adv, box |-> s.box]

(* ------------------------------------------------------------ inheritance *)
RECURSIVE Inherited(_, _, _, _)
Inherited(ns, n, key, dflt) ==
  IF ns[n][key] # "" THEN ns[n][key]
  ELSE IF ns[n].par = 0 THEN dflt ELSE Inherited(ns, ns[n].par, key, dflt)
White(ns, n) == Inherited(ns, n, "ws", "normal")
Size(ns, n) == Inherited(ns, n, "size", "10")
Collapses(w) == w \in {"normal", "nowrap", "pre-line"}
RECURSIVE Above(_, _)
Above(ns, n) == IF n = 0 THEN <<>> ELSE <<n>> \o Above(ns, ns[n].par)
Under(ns, n) == {m \in 1 .. Len(ns) : n \in {Above(ns, m)[i] : i \in 1 .. Len(Above(ns, m))}}

(* ------------------------------------------------------------------- runs *)
Run(n, s) == IF s = <<>> THEN <<>> ELSE <<[o |-> n, s |-> s]>>
RECURSIVE Written(_, _)
Written(ns, n) ==
  IF ns[n].disp = "none" THEN <<>>
  ELSE Run(n, ns[n].t) \o
       FlattenSeq([i \in 1 .. Len(ns[n].ch) |->
         LET c == ns[n].ch[i]
         IN (IF ns[c].k = "tspan" THEN Written(ns, c) ELSE <<>>) \o Run(n, ns[c].tail)])

(* ------------------------------------------------------ white space: a run *)
Soft(c) == c \in {SPACE, TAB}
At(s, i) == IF i < 1 \/ i > Len(s) THEN 0 ELSE s[i]
(* Spaces and tabs around a segment break are removed.                       *)
RECURSIVE Reaches(_, _, _)
Reaches(s, i, d) == LET c == At(s, i) IN IF Soft(c) THEN Reaches(s, i + d, d) ELSE c \in BREAKS
Trimmed(s) ==
  LET keep == {i \in 1 .. Len(s) : ~(Soft(s[i]) /\ (Reaches(s, i, 1) \/ Reaches(s, i, -1)))}
  IN [j \in 1 .. Cardinality(keep) |->
        s[CHOOSE i \in keep : Cardinality({k \in keep : k <= i}) = j]]
(* A run of segment breaks becomes a space, or nothing.                      *)
Vanishes(a, b) == a = ZERO \/ b = ZERO \/ (a \in WIDE /\ b \in WIDE)
RECURSIVE BreaksToSpaces(_, _)
BreaksToSpaces(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] \notin BREAKS THEN <<s[i]>> \o BreaksToSpaces(s, i + 1)
  ELSE LET j == CHOOSE k \in i .. Len(s) :
                  /\ At(s, k + 1) \notin BREAKS
                  /\ \A l \in i .. k : s[l] \in BREAKS
       IN (IF Vanishes(At(s, i - 1), At(s, j + 1)) THEN <<>> ELSE <<SPACE>>)
          \o BreaksToSpaces(s, j + 1)
(* Preserved breaks are line feeds.                                          *)
RECURSIVE LineFeeds(_, _)
LineFeeds(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 13 THEN <<10>> \o LineFeeds(s, IF At(s, i + 1) = 10 THEN i + 2 ELSE i + 1)
  ELSE <<s[i]>> \o LineFeeds(s, i + 1)
RECURSIVE Single(_, _)
Single(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE (IF Soft(s[i]) /\ Soft(At(s, i - 1)) THEN <<>>
        ELSE <<IF s[i] = TAB THEN SPACE ELSE s[i]>>) \o Single(s, i + 1)
Tidy(s, w) ==
  IF ~Collapses(w) THEN LineFeeds(s, 1)
  ELSE LET d == Trimmed(s)
       IN Single(IF w = "pre-line" THEN LineFeeds(d, 1) ELSE BreaksToSpaces(d, 1), 1)
LStrip(s) == IF s # <<>> /\ s[1] = SPACE THEN Tail(s) ELSE s
RStrip(s) == IF s # <<>> /\ s[Len(s)] = SPACE THEN Front(s) ELSE s

(* ---------------------------------------------- white space: from run to run *)
RECURSIVE Folded(_, _, _)
Folded(ns, rs, done) ==
  IF rs = <<>> THEN done
  ELSE LET r == rs[1]
           w == White(ns, r.o)
           t == Tidy(r.s, w)
           before == IF done = <<>> THEN SPACE ELSE LET b == done[Len(done)].s IN b[Len(b)]
           u == IF Collapses(w) /\ before = SPACE THEN LStrip(t) ELSE t
       IN Folded(ns, Tail(rs), done \o Run(r.o, u))
Shown(ns) ==
  LET f == Folded(ns, Written(ns, 1), <<>>)
      z == Len(f)
  IN IF z = 0 \/ ~Collapses(White(ns, f[z].o)) THEN f
     ELSE [f EXCEPT ![z].s = RStrip(@)]

(* The characters shown, each with the element it belongs to.                *)
Glyphs(ns) ==
  FlattenSeq([i \in 1 .. Len(Shown(ns)) |->
    LET r == Shown(ns)[i] IN [j \in 1 .. Len(r.s) |-> [o |-> r.o, c |-> r.s[j]]]])
Own(ns, n) == LET u == Under(ns, n) IN SelectSeq(Glyphs(ns), LAMBDA g : g.o \in u)
CharsOf(ns, n) == LET g == Own(ns, n) IN [i \in 1 .. Len(g) |-> g[i].c]

(* ---------------------------------------------------------------- lengths *)
Nth(s, n) == IF Size(s.ns, n) = "10" THEN 1 ELSE 2
Advance(s, g) ==
  LET i == CHOOSE j \in 1 .. Len(s.adv) : s.adv[j][1] = g.c IN s.adv[i][1 + Nth(s, g.o)]
RECURSIVE Total(_, _)
Total(s, gs) == IF gs = <<>> THEN 0 ELSE Advance(s, gs[1]) + Total(s, Tail(gs))
Length(s, n, from, count) ==
  LET g == Own(s.ns, n)
      b == IF count < 0 THEN Len(g) ELSE IF from + count < Len(g) THEN from + count ELSE Len(g)
  IN Total(s, SubSeq(g, from + 1, b))

(* -------------------------------------------------------------- positions *)
(* A list of positions is indexed by the characters of the element it was    *)
(* set on; a character takes the nearest value there is for it.              *)
Listed(ns, n, key) ==
  IF n = 1 /\ key \in {"x", "y"} /\ ns[1][key] = <<>> THEN <<0>> ELSE ns[n][key]
Index(ns, gs, i, a) == Cardinality({j \in 1 .. i : gs[j].o \in Under(ns, a)})
Value(ns, gs, i, key, dflt) ==
  LET up == Above(ns, gs[i].o)
      has == {k \in 1 .. Len(up) : Index(ns, gs, i, up[k]) <= Len(Listed(ns, up[k], key))}
      k == CHOOSE m \in has : \A l \in has : m <= l
  IN IF has = {} THEN dflt ELSE 64 * Listed(ns, up[k], key)[Index(ns, gs, i, up[k])]
RECURSIVE Placed(_, _, _, _, _)
Placed(s, gs, i, cx, cy) ==
  IF i > Len(gs) THEN <<>>
  ELSE LET x == Value(s.ns, gs, i, "x", cx) + Value(s.ns, gs, i, "dx", 0)
           y == Value(s.ns, gs, i, "y", cy) + Value(s.ns, gs, i, "dy", 0)
           a == Advance(s, gs[i])
           z == s.box[Nth(s, gs[i].o)]
       IN <<<<x, y - z[1], x + a, y - z[1] + z[2]>>>> \o Placed(s, gs, i + 1, x + a, y)
Least(S) == CHOOSE v \in S : \A w \in S : v <= w
Most(S) == CHOOSE v \in S : \A w \in S : v >= w
Box(s) ==
  LET p == Placed(s, Glyphs(s.ns), 1, 0, 0)
      I == 1 .. Len(p)
  IN IF p = <<>> THEN <<>>
     ELSE LET l == Least({p[i][1] : i \in I})
              t == Least({p[i][2] : i \in I})
          IN <<l, t, Most({p[i][3] : i \in I}) - l, Most({p[i][4] : i \in I}) - t>>

(* ------------------------------------------------------------------- steps *)
Ok == [r |-> "ok"]
CharsStep(s, op) ==
  LET ns == s.ns
      Now(x) == [st |-> [s EXCEPT !.ns = x], out |-> Ok]
  IN CASE op.name = "append" ->
            Now([Append(ns, [Blank EXCEPT !.k = op.k, !.par = op.n, !.t = op.s, !.tail = op.tail])
                   EXCEPT ![op.n].ch = Append(@, Len(ns) + 1)])
       [] op.name = "text" -> Now([ns EXCEPT ![op.n].t = op.s])
       [] op.name = "tail" -> Now([ns EXCEPT ![op.n].tail = op.s])
       [] op.name = "set" -> Now([ns EXCEPT ![op.n] = [@ EXCEPT ![op.key] = op.v]])
       [] op.name = "place" -> Now([ns EXCEPT ![op.n] = [@ EXCEPT ![op.key] = op.l]])
       [] op.name = "chars" -> [st |-> s, out |-> [r |-> "ok", v |-> CharsOf(ns, op.n)]]
       [] op.name = "length" ->
            [st |-> s, out |-> [r |-> "ok", v |-> Length(s, op.n, op.from, op.count)]]
       [] op.name = "box" -> [st |-> s, out |-> [r |-> "ok", v |-> Box(s)]]

CharsObs(s) == [chars |-> CharsOf(s.ns, 1)]
=============================================================================
