------------------------------- MODULE Media -------------------------------
(***************************************************************************)
(* Media queries asked of a window, each query kept and asked again after  *)
(* every change of the window.                                             *)
(* A query is [neg, ty, op, cs]:                                           *)
(*   neg  "" | "not" | "only" in front      ty  media type or ""           *)
(*   op   "and" | "or" | "mix" between the features cs                     *)
(* (ty = "" and neg = "not": one feature, negated)                         *)
(* A feature is [n, form, rel, v, rel2, v2]:                               *)
(*   form "bool"   (n)          "min"/"max"/"is"  (min-n: v) ..            *)
(*        "range"  (n rel v)    "flip"  (v rel n)   "between" (v rel n rel2 v2) *)
(* A value is [k, a, b, id]: k "len" a px | "res" a/1000 dppx | "int" a    *)
(*        | "ratio" a/b | "id" id | "bad"                                  *)
(* A state: [w, q]: the window, and the lists of queries asked             *)
(***************************************************************************)
EXTENDS Text

MErr(s, e) == [st |-> s, out |-> [r |-> e]]
MOk(s)     == MErr(s, "ok")

Types == {"all", "print", "screen", "speech", "tty", "tv", "projection", "handheld",
          "braille", "embossed", "aural"}

(* ---- what the window answers ------------------------------------------- *)
(* Sizes are those of the document element where it has them.                *)
VW(w) == IF w.dw = 0 THEN w.iw ELSE w.dw
VH(w) == IF w.dh = 0 THEN w.ih ELSE w.dh
Portrait(w) == IF w.sw > w.sh THEN w.angle \in {90, 270} ELSE w.angle \in {0, 180}
Pow2(n) == 2 ^ n

Numeric == {"width", "height", "device-width", "device-height", "resolution",
            "color", "color-index", "monochrome", "grid"}
Value(w, n) ==
  CASE n = "width" -> VW(w) [] n = "height" -> VH(w)
    [] n = "device-width" -> w.sw [] n = "device-height" -> w.sh
    [] n = "resolution" -> (w.dpr * w.zoom) \div 1000
    [] n = "color" -> w.depth [] n = "color-index" -> Pow2(w.depth)
    [] n = "monochrome" -> w.mono [] n = "grid" -> 0
Fits(n, v) ==
  CASE n \in {"width", "height", "device-width", "device-height"} -> v.k = "len"
    [] n = "resolution" -> v.k = "res"
    [] OTHER -> v.k = "int"
Ratios == {"aspect-ratio", "device-aspect-ratio"}
Discrete == {"orientation", "scan", "update", "overflow-block", "overflow-inline", "color-gamut"}
Word(w, n) ==
  CASE n = "scan" -> w.scan [] n = "update" -> w.update
    [] n = "color-gamut" -> w.gamut [] n \in {"overflow-block", "overflow-inline"} -> "none"
Unmet == {"pointer", "hover", "any-pointer", "any-hover"}

Rel(r, a, b) == CASE r = "<" -> a < b [] r = "<=" -> a <= b [] r = ">" -> a > b
                  [] r = ">=" -> a >= b [] r = "=" -> a = b
Turn(r) == CASE r = "<" -> ">" [] r = "<=" -> ">=" [] r = ">" -> "<" [] r = ">=" -> "<=" [] r = "=" -> "="

(* n of the window stands in relation r to v                                 *)
Holds(w, n, r, v) ==
  CASE n \in Numeric -> Fits(n, v) /\ Rel(r, Value(w, n), v.a)
    [] n \in Ratios ->
         v.k = "ratio" /\ (LET x == IF n = "aspect-ratio" THEN VW(w) ELSE w.sw
                               y == IF n = "aspect-ratio" THEN VH(w) ELSE w.sh
                           IN Rel(r, x * v.b, v.a * y))
    [] n = "orientation" -> r = "=" /\ v.id = (IF Portrait(w) THEN "portrait" ELSE "landscape")
    [] n \in Discrete -> r = "=" /\ v.id = Word(w, n)
    [] OTHER -> FALSE

RECURSIVE Conds(_, _)
Feature(w, c) ==
  CASE c.form = "group" -> Conds(w, c.g)           \* ((a) and (b))
    [] c.form = "not" -> ~Conds(w, c.g)            \* not (a)
    [] c.form = "bool" ->
         (CASE c.n \in {"update", "overflow-block", "overflow-inline"} -> Word(w, c.n) # "none"
            [] c.n \in {"color", "color-index", "monochrome", "grid"} -> Value(w, c.n) > 0
            [] c.n \in Unmet -> FALSE
            [] OTHER -> c.n \in Numeric \cup Ratios \cup Discrete)
    [] c.form = "is" -> Holds(w, c.n, "=", c.v)
    \* only features that have a range can be bounded
    [] c.form \in {"min", "max"} ->
         c.n \in (Numeric \cup Ratios) \ {"grid"} /\ Holds(w, c.n, IF c.form = "min" THEN ">=" ELSE "<=", c.v)
    [] c.form = "range" -> Holds(w, c.n, c.rel, c.v)
    [] c.form = "flip" -> Holds(w, c.n, Turn(c.rel), c.v)
    [] c.form = "between" -> Holds(w, c.n, Turn(c.rel), c.v) /\ Holds(w, c.n, c.rel2, c.v2)

TypeIs(w, t) == t \in Types /\ (t = "all" \/ w.media = t)
Conds(w, q) ==
  CASE q.op = "mix" -> FALSE
    [] q.op = "and" -> \A i \in 1 .. Len(q.cs) : Feature(w, q.cs[i])
    [] q.op = "or"  -> \E i \in 1 .. Len(q.cs) : Feature(w, q.cs[i])
Query(w, q) ==
  LET c == (q.ty = "" \/ TypeIs(w, q.ty)) /\ Conds(w, q)
  IN IF q.neg = "not" THEN ~c ELSE c
(* A list holds when one of its queries does.                                *)
Matches(w, l) == \E i \in 1 .. Len(l) : Query(w, l[i])

(* ---- operations ------------------------------------------------------------ *)
MediaStart(start) == [w |-> start.w, q |-> <<>>]
Quarter(a) == LET d == (a \div 90) * 90 IN d % 360
MediaStep(s, op) ==
  LET o == op.name IN
  CASE o = "ask" -> MOk([s EXCEPT !.q = Append(@, op.q)])
    [] o = "set" -> MOk([s EXCEPT !.w[op.f] = IF op.f = "angle" THEN Quarter(op.v) ELSE op.v])
    [] o = "word" -> MOk([s EXCEPT !.w[op.f] = op.t])

MediaObs(s) == [m |-> [i \in 1 .. Len(s.q) |-> Matches(s.w, s.q[i])],
                o |-> IF Portrait(s.w) THEN "portrait" ELSE "landscape"]

(* ---- laws of the answers ----------------------------------------------------- *)
Plain(f, n, v) == [n |-> n, form |-> f, rel |-> "=", v |-> v, rel2 |-> "=", v2 |-> v]
Laws(w, c) ==
  c.form \in {"min", "max", "is"} /\ c.n \in (Numeric \cup Ratios) \ {"grid"} =>
    (Feature(w, Plain("is", c.n, c.v)) <=>
       (Feature(w, Plain("min", c.n, c.v)) /\ Feature(w, Plain("max", c.n, c.v))))
Sound(s) ==
  \A i \in 1 .. Len(s.q) : \A j \in 1 .. Len(s.q[i]) :
    LET q == s.q[i][j] IN
    /\ \A k \in 1 .. Len(q.cs) : Laws(s.w, q.cs[k])
    /\ Query(s.w, [q EXCEPT !.neg = "not"]) = ~Query(s.w, [q EXCEPT !.neg = ""])
    /\ (Query(s.w, q) => Matches(s.w, s.q[i]))
=============================================================================
