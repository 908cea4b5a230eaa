------------------------------ MODULE Cascade ------------------------------
(***************************************************************************)
(* The values properties have: declared by the user agent, presentation    *)
(* attributes, style rules and the style attribute; cascaded by origin,    *)
(* importance, specificity and order; inherited or initial where nothing   *)
(* is declared.  The tree and the selectors are those of Find; besides:    *)
(*   pa[n]   presentation attributes <<property, value>>                   *)
(*   il[n]   declarations of the style attribute <<property, value, imp>>  *)
(*   css[n]  what a style element holds or a link refers to,               *)
(*           [ok, mq, dn, q]: whether its type is that of a style sheet,   *)
(*           its media, the default namespace and its rules                *)
(*           [k, sel, ds, mq, q]                                           *)
(*   pis     what the xml-stylesheet instructions before the root refer to *)
(*   wide    whether the window is                                         *)
(*   props   the properties looked at                                      *)
(***************************************************************************)
EXTENDS Find

CascadeStart(s) == [kind |-> s.kind, at |-> s.at, ch |-> s.ch, root |-> s.root, pa |-> s.pa, il |-> s.il, css |-> s.css,
                    pis |-> s.pis,
                    wide |-> s.wide, props |-> s.props]

(* ---- properties ----------------------------------------------------------- *)
More ==
  [x \in {"baseline-shift", "stroke-dashoffset"} |-> "0"]
  @@ [x \in {"fill-opacity", "flood-opacity", "stop-opacity", "stroke-opacity"} |-> "1"]
  @@ [x \in {"stroke-miterlimit"} |-> "4"]
  @@ [x \in {"tab-size"} |-> "8"]
  @@ [x \in {"cursor", "dominant-baseline", "font-kerning", "image-rendering", "shape-rendering",
       "text-rendering"} |-> "auto"]
  @@ [x \in {"alignment-baseline"} |-> "baseline"]
  @@ [x \in {"color", "flood-color"} |-> "black"]
  @@ [x \in {"stroke-linecap"} |-> "butt"]
  @@ [x \in {"writing-mode"} |-> "horizontal-tb"]
  @@ [x \in {"direction"} |-> "ltr"]
  @@ [x \in {"stroke-linejoin"} |-> "miter"]
  @@ [x \in {"text-orientation"} |-> "mixed"]
  @@ [x \in {"stroke-dasharray", "vector-effect"} |-> "none"]
  @@ [x \in {"clip-rule", "fill-rule"} |-> "nonzero"]
  @@ [x \in {"font-stretch", "letter-spacing", "unicode-bidi", "word-spacing"} |-> "normal"]
  @@ [x \in {"color-interpolation"} |-> "sRGB"]
  @@ [x \in {"text-anchor"} |-> "start"]
  @@ [x \in {"pointer-events"} |-> "visiblePainted"]
  @@ [x \in {"lighting-color"} |-> "white"]
Initial == [fill |-> "black", stroke |-> "none", visibility |-> "visible", opacity |-> "1", display |-> "inline",
            overflow |-> "visible"]
  @@ [x \in {"stroke-width"} |-> "1"] @@ [x \in {"font-size"} |-> "medium"]
  @@ [x \in {"font-style", "font-weight", "line-height", "white-space"} |-> "normal"]
  @@ [x \in {"font-family"} |-> "sans-serif"]
  @@ [x \in {"marker-start", "marker-mid", "marker-end", "text-decoration"} |-> "none"]
  @@ [x \in {"stop-color"} |-> "black"] @@ More
CProps == DOMAIN Initial
NonInherited == {"opacity", "display", "overflow", "text-decoration", "stop-color",
                 "alignment-baseline", "baseline-shift", "dominant-baseline", "flood-color", "flood-opacity",
                 "lighting-color", "stop-opacity", "unicode-bidi", "vector-effect"}
FontTab ==
  LET F(e, w, z, l, f) == << <<"font-style", e>>, <<"font-weight", w>>, <<"font-size", z>>, <<"line-height", l>>,
                              <<"font-family", f>> >>
  IN [x \in {"12px a"} |-> F("normal", "normal", "12px", "normal", "a")]
     @@ [x \in {"italic bold 20px/2 b"} |-> F("italic", "bold", "20px", "2", "b")]
     @@ [x \in {"inherit", "initial", "unset"} |-> F(x, x, x, x, x)]
(* The longhands a declaration is for.                                        *)
Longs(p, v) ==
  CASE p = "font" -> FontTab[v]
    [] p = "marker" -> << <<"marker-start", v>>, <<"marker-mid", v>>, <<"marker-end", v>> >>
    [] OTHER -> << <<p, v>> >>
For(p, d) == LET l == Longs(d[1], d[2])
             IN {l[i][2] : i \in {j \in 1 .. Len(l) : l[j][1] = p}}

(* ---- style sheets ------------------------------------------------------------ *)
MediaMet(s, q) == CASE q \in {"", "all", "screen"} -> TRUE
                    [] q = "wide" -> s.wide
                    [] q = "narrow" -> ~s.wide
                    [] q = "print" -> FALSE
RECURSIVE RulesOf(_, _, _)
RulesOf(s, dn, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET r == Head(q)
       IN (CASE r.k = "style" -> << [sel |-> r.sel, ds |-> r.ds, dn |-> dn] >>
             [] r.k = "media" -> IF MediaMet(s, r.mq) THEN RulesOf(s, dn, r.q) ELSE <<>>
             [] r.k = "import" -> IF MediaMet(s, r.mq) THEN RulesOf(s, NONE, r.q) ELSE <<>>
             [] OTHER -> <<>>) \o RulesOf(s, dn, Tail(q))
Top(s, n) == LET a == Ancs(s, n) IN IF a = <<>> THEN n ELSE a[Len(a)]
RECURSIVE AllRules(_, _)
AllRules(s, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET c == Head(q)
       IN (IF c.ok /\ MediaMet(s, c.mq) THEN RulesOf(s, c.dn, c.q) ELSE <<>>) \o AllRules(s, Tail(q))
Rules(s, n) ==
  LET q == SelectSeq(Els(s, Top(s, n)), LAMBDA x : s.kind[x].name \in {"style", "link"})
  IN AllRules(s, s.pis \o [i \in 1 .. Len(q) |-> s.css[q[i]]])

(* A type selector without a prefix: the default namespace, or any.            *)
Unpref(q, dn) == [i \in 1 .. Len(q) |->
                    [q[i] EXCEPT !.ns = IF @ # "" THEN @ ELSE IF dn = NONE THEN "*" ELSE dn]]
RECURSIVE SpecOf(_, _)
SpecOf(q, i) ==
  IF i = 0 THEN 0
  ELSE LET c == q[i]
       IN SpecOf(q, i - 1) + (IF c.id = "" THEN 0 ELSE 10000) + (IF c.type = "" THEN 0 ELSE 1)
          + 100 * (Len(c.cls) + Len(c.nocls) + (IF c.op = "" THEN 0 ELSE 1) + (IF c.first = "" THEN 0 ELSE 1))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MatchSpec(s, n, r) ==      \* {} or the specificity
  LET S == {SpecOf(r.sel[i], Len(r.sel[i])) :
              i \in {j \in 1 .. Len(r.sel) : Complex(s, n, Unpref(r.sel[j], r.dn), Len(r.sel[j]))}}
  IN IF S = {} THEN {} ELSE {MaxOf(S)}

(* ---- the cascade --------------------------------------------------------------- *)
UaNone == {"defs", "clipPath", "mask", "marker", "desc", "title", "metadata", "pattern", "hatch", "linearGradient",
           "radialGradient", "meshGradient", "script", "style", "symbol"}
Ua(s, n) ==
  LET k == s.kind[n].name svg == s.kind[n].ns \in {"svg", ""}
  IN (IF svg /\ k \in UaNone THEN {[d |-> <<"display", "none", "">>, w |-> <<3, 0, 0, 0>>]} ELSE {})
     \cup (IF svg /\ (k \in {"symbol", "marker", "image", "pattern", "hatch"} \/ (k = "svg" /\ Par(s, n) # 0))
           THEN {[d |-> <<"overflow", "hidden", "">>, w |-> <<0, 0, 0, 0>>]} ELSE {})
Decls(s, n) ==
  LET rs == Rules(s, n)
  IN Ua(s, n)
     \cup {[d |-> <<s.pa[n][i][1], s.pa[n][i][2], "">>, w |-> <<1, -1, 0, i>>] : i \in 1 .. Len(s.pa[n])}
     \cup UNION {UNION {{[d |-> rs[i].ds[j], w |-> <<IF rs[i].ds[j][3] = "" THEN 1 ELSE 2, sp, i, j>>] :
                           j \in 1 .. Len(rs[i].ds)} : sp \in MatchSpec(s, n, rs[i])} : i \in 1 .. Len(rs)}
     \cup {[d |-> s.il[n][i], w |-> <<IF s.il[n][i][3] = "" THEN 1 ELSE 2, 1000000, 0, i>>] : i \in 1 .. Len(s.il[n])}
Before(v, w) == \E i \in 1 .. 4 : v[i] < w[i] /\ \A j \in 1 .. i - 1 : v[j] = w[j]
(* {} or the value declared that wins                                          *)
Cascaded(ds, p) ==
  LET c == {x \in ds : For(p, x.d) # {}}
  IN IF c = {} THEN {} ELSE For(p, (CHOOSE x \in c : \A y \in c : x = y \/ Before(y.w, x.w)).d)

RECURSIVE Value(_, _, _, _)
Value(s, d, n, p) ==
  LET w == Cascaded(d[n], p)
      up == IF Par(s, n) = 0 THEN Initial[p] ELSE Value(s, d, Par(s, n), p)
      v == IF w = {} THEN "unset" ELSE CHOOSE x \in w : TRUE
  IN CASE v = "inherit" -> up
       [] v = "initial" -> Initial[p]
       [] v = "unset" -> IF p \in NonInherited THEN Initial[p] ELSE up
       [] OTHER -> v
Hidden(s, d, n) == \E m \in ToSet(<<n>> \o Ancs(s, n)) : Cascaded(d[m], "display") = {"none"}
(* Elements taken out of the document have no values.                           *)
Shown(s, n) == IsEl(s, n) /\ Top(s, n) = 1
Values(s, ps) ==
  LET d == [n \in FN(s) |-> IF Shown(s, n) THEN Decls(s, n) ELSE {}]
  IN [p \in ps |-> [n \in FN(s) |->
        IF ~Shown(s, n) THEN "" ELSE IF p = "display" /\ Hidden(s, d, n) THEN "none" ELSE Value(s, d, n, p)]]
CascadeObs(s) == Values(s, ToSet(s.props)) @@ [x \in {"ch"} |-> s.ch]

Ok(s) == [st |-> s, out |-> [r |-> "ok", v |-> <<>>]]
CascadeStep(s, op) ==
  LET o == op.name
  IN CASE o = "attr" -> Ok([s EXCEPT !.pa[op.n] = op.q])
       [] o = "inline" -> Ok([s EXCEPT !.il[op.n] = op.q])
       [] o = "sheet" -> Ok([s EXCEPT !.css[op.n] = op.c])
       [] o = "pi" -> Ok([s EXCEPT !.pis[op.n] = op.c])
       [] o = "window" -> Ok([s EXCEPT !.wide = op.w])
       [] OTHER -> FindStep(s, op)
=============================================================================
