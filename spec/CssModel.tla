------------------------------ MODULE CssModel ------------------------------
(* Every short history of declarations that are set and removed.            *)
EXTENDS Css, ModelBase

D(n, v) == [n |-> n, v |-> v, p |-> ""]
CssStarts ==
  {[kind |-> "own", sp |-> 0, ds |-> <<>>],
   [kind |-> "rule", sp |-> 2,
    ds |-> <<D("font", <<"bold", "12px", "/", "1.5", "serif">>), D("overflow-x", <<"scroll">>),
             [n |-> "mask", v |-> <<"none", "left", "/", "cover">>, p |-> "important"]>>],
   [kind |-> "inline", sp |-> 0,
    ds |-> <<D("fill", <<"red">>), D("text-wrap", <<"nowrap">>),
             D("mask-border", <<"url(#b)", "30">>)>>]}
BlockStarts == {x \in CssStarts : x.kind # "inline"}
InlineStarts == CssStarts \ BlockStarts
BlockEmpty == {[kind |-> "own", sp |-> 0, ds |-> <<>>]}
InlineEmpty == {[kind |-> "inline", sp |-> 0, ds |-> <<>>]}

FontVals == {<<"font", <<"italic", "small-caps", "large", "serif">>>>, <<"font", <<"12px", "\"A B\"">>>>,
             <<"font", <<"INHERIT">>>>, <<"font-variant", <<"none">>>>,
             <<"font-variant", <<"ruby", "ordinal", "small-caps">>>>, <<"font-variant-caps", <<"unicase">>>>,
             <<"font-style", <<"oblique">>>>, <<"font-size", <<"initial">>>>,
             <<"line-height", <<"1.5">>>>, <<"font-kerning", <<"none">>>>,
             <<"font-family", <<"serif">>>>}
MaskVals == {<<"mask", <<"url(#a)", "10%", "5px", "/", "cover", "no-clip">>>>, <<"mask", <<"initial">>>>,
             <<"mask", <<"exclude", "round", "space", "padding-box", "border-box">>>>,
             <<"mask-border", <<"2", "/", "auto", "/", "5px", "stretch">>>>,
             <<"mask-border", <<"unset">>>>, <<"mask-clip", <<"view-box">>>>,
             <<"mask-size", <<"cover">>>>, <<"mask-position", <<"initial">>>>,
             <<"mask-border-width", <<"5px">>>>, <<"mask-border-mode", <<"initial">>>>}
TextVals == {<<"text-decoration", <<"wavy", "underline", "overline">>>>,
             <<"text-decoration", <<"none", "currentColor">>>>,
             <<"text-decoration-line", <<"inherit">>>>, <<"text-decoration-color", <<"BLUE">>>>,
             <<"white-space", <<"PRE">>>>, <<"white-space", <<"nowrap">>>>,
             <<"text-wrap", <<"wrap">>>>, <<"text-space-trim", <<"trim-inner">>>>,
             <<"overflow", <<"clip">>>>, <<"overflow", <<"hidden", "auto">>>>,
             <<"overflow-y", <<"clip">>>>, <<"overflow-x", <<"unset">>>>,
             <<"font-synthesis", <<"style", "weight">>>>, <<"font-synthesis", <<"none">>>>,
             <<"font-synthesis-weight", <<"auto">>>>, <<"fill", <<"Inherit">>>>,
             <<"--x", <<"BLUE">>>>}
SetOps(vals, ps) ==
  {[name |-> "set", n |-> x[1], c |-> "", v |-> x[2], sp |-> 0, idx |-> FALSE, p |-> p] :
     x \in vals, p \in ps}
  \cup {[name |-> "rem", n |-> x[1], c |-> ""] : x \in vals}
CssWideOps(s) == SetOps(FontVals \cup MaskVals \cup TextVals, {"keep"})
CssPrioOps(s) == SetOps({x \in FontVals \cup MaskVals \cup TextVals : Len(x[2]) = 1}, {"", "important"})
CssFontOps(s) == SetOps(FontVals, {"keep"})
CssMaskOps(s) == SetOps(MaskVals, {"keep"})
CssTextOps(s) == SetOps(TextVals, {"keep"})
ModelRound == RoundTrip(st)
ModelUnique == Unique(st) /\ LongOnly(st)
(* What is set is what is read, and nothing but what it covers changes.      *)
ACFrame ==
  LET o == last'.op
      touched == IF o.n \in Shorts THEN Range1(Longs[o.n]) ELSE {o.n}
  IN \A n \in Range1(AllNames) \ Shorts : n \notin touched => GetV(st.d, n) = GetV(st'.d, n)
ACSetRead ==
  LET o == last'.op
  IN /\ (o.name = "set" /\ o.n \notin Shorts /\ o.v # <<"bogus">>)
          => Len(GetV(st'.d, o.n)) = Len(o.v)
     /\ o.name = "rem" => GetV(st'.d, o.n) = <<>>
=============================================================================
