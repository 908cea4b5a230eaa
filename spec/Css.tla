-------------------------------- MODULE Css --------------------------------
(***************************************************************************)
(* Declaration blocks: of style rules and of style attributes.             *)
(* A value is a sequence of tokens. A block is an ordered map              *)
(*   d : Seq([n: name, v: value, p: "" | "important"])                     *)
(* holding longhands, custom properties and every other property; setting  *)
(* a shorthand sets its longhands, and its value is read back from them.   *)
(* A state is [d, ro]: the block, and whether it is read-only.             *)
(***************************************************************************)
EXTENDS Text

CErr(s, e)  == [st |-> s, out |-> [r |-> e]]
COk(s)      == CErr(s, "ok")
CVal(s, v)  == [st |-> s, out |-> [r |-> "ok", v |-> v]]
CSay(s, b, why) == CErr(s, IF b THEN "ok" ELSE why)

VarNames  == <<"font-variant-ligatures", "font-variant-caps", "font-variant-alternates",
               "font-variant-numeric", "font-variant-east-asian", "font-variant-position">>
MaskNames == <<"mask-image", "mask-position", "mask-size", "mask-repeat", "mask-origin",
               "mask-clip", "mask-composite", "mask-mode">>
BordNames == <<"mask-border-source", "mask-border-slice", "mask-border-width",
               "mask-border-outset", "mask-border-repeat", "mask-border-mode">>
Parts ==
  [font |-> <<"font-style", "font-variant", "font-weight", "font-stretch", "font-size",
              "line-height", "font-family">>,
   mask |-> MaskNames,
   overflow |-> <<"overflow-x", "overflow-y">>]
  @@ ("font-variant" :> VarNames)
  @@ ("font-synthesis" :> <<"font-synthesis-weight", "font-synthesis-style">>)
  @@ ("mask-border" :> BordNames)
  @@ ("text-decoration" :> <<"text-decoration-line", "text-decoration-style",
                             "text-decoration-color">>)
  @@ ("white-space" :> <<"text-space-collapse", "text-wrap", "text-space-trim">>)
Shorts == DOMAIN Parts
ShortSeq == <<"font", "font-synthesis", "font-variant", "mask", "mask-border", "overflow",
              "text-decoration", "white-space">>
FontSubs == {"font-kerning", "font-size-adjust"}
RECURSIVE FlatParts(_)
FlatParts(ns) == IF ns = <<>> THEN <<>>
                 ELSE (IF Head(ns) \in Shorts THEN Parts[Head(ns)] ELSE <<Head(ns)>>)
                      \o FlatParts(Tail(ns))
Longs == [h \in Shorts |-> FlatParts(Parts[h])]
LongSet == UNION {{Longs[h][i] : i \in 1 .. Len(Longs[h])} : h \in Shorts}

Wide == {"inherit", "initial", "unset", "revert"}
Colors == {"currentcolor", "transparent"}
IsWide(v) == Len(v) = 1 /\ v[1] \in Wide
LowTok(t) == IF Lower(t) \in Wide \cup Colors THEN Lower(t) ELSE t

(* ---- what setting a shorthand sets --------------------------------------- *)
In(t, c) == SelectSeq(t, LAMBDA x : x \in c)
Or(v, e) == IF v = <<>> THEN <<e>> ELSE v
Pair(ns, f(_)) == [i \in 1 .. Len(ns) |-> <<ns[i], f(ns[i])>>]
Same(ns, v) == [i \in 1 .. Len(ns) |-> <<ns[i], v>>]
LowAll(t) == [i \in 1 .. Len(t) |-> Lower(t[i])]

VarClass ==
  ("font-variant-ligatures" :> {"common-ligatures", "no-common-ligatures",
                                "discretionary-ligatures", "historical-ligatures"})
  @@ ("font-variant-caps" :> {"small-caps", "unicase"})
  @@ ("font-variant-alternates" :> {"historical-forms"})
  @@ ("font-variant-numeric" :> {"lining-nums", "tabular-nums", "ordinal"})
  @@ ("font-variant-east-asian" :> {"jis78", "ruby"})
  @@ ("font-variant-position" :> {"sub", "super"})
VariantSets(t) ==
  IF LowAll(t) = <<"none">>
  THEN Pair(VarNames, LAMBDA n : IF n = "font-variant-ligatures" THEN <<"none">>
                                 ELSE <<"normal">>)
  ELSE Pair(VarNames, LAMBDA n : Or(In(t, VarClass[n]), "normal"))

FontHeads == {"italic", "oblique", "small-caps", "bold", "bolder", "lighter", "100",
              "condensed", "expanded", "normal"}
Sizes == {"12px", "large", "50%", "medium"}
FontSets(t) ==
  LET S  == {k \in 1 .. Len(t) : t[k] \in Sizes}
      F  == {k \in 1 .. Len(t) : t[k] \notin FontHeads}
      \* a size of medium may be left out, as it is when the value is read
      i  == IF S = {} THEN (CHOOSE k \in F : \A j \in F : k <= j) - 1
            ELSE CHOOSE k \in S : \A j \in S : k <= j
      h  == SubSeq(t, 1, IF S = {} THEN i ELSE i - 1)
      lh == i + 2 <= Len(t) /\ t[i + 1] = "/"
  IN Pair(VarNames, LAMBDA n : IF n = "font-variant-caps"
                               THEN Or(In(h, {"small-caps"}), "normal") ELSE <<"normal">>)
     \o <<<<"font-style", Or(In(h, {"italic", "oblique"}), "normal")>>,
          <<"font-weight", Or(In(h, {"bold", "bolder", "lighter", "100"}), "normal")>>,
          <<"font-stretch", Or(In(h, {"condensed", "expanded"}), "normal")>>,
          <<"font-size", <<IF S = {} THEN "medium" ELSE t[i]>>>>,
          <<"line-height", IF lh THEN <<t[i + 2]>> ELSE <<"normal">>>>,
          <<"font-family", SubSeq(t, i + (IF lh THEN 3 ELSE 1), Len(t))>>>>

DecLines  == {"none", "underline", "overline", "line-through"}
DecStyles == {"solid", "double", "wavy"}
DecorationSets(t) ==
  <<<<"text-decoration-line", Or(In(t, DecLines), "initial")>>,
    <<"text-decoration-style", Or(In(t, DecStyles), "initial")>>,
    <<"text-decoration-color",
      Or(SelectSeq(t, LAMBDA x : x \notin DecLines \cup DecStyles), "initial")>>>>

SynthesisSets(t) ==
  LET w == Has(t, "weight") s == Has(t, "style")
  IN <<<<"font-synthesis-weight", IF w THEN <<"auto">> ELSE <<"none">>>>,
       <<"font-synthesis-style", IF s THEN <<"auto">> ELSE <<"none">>>>>>

SpaceOf == [normal |-> <<"collapse", "wrap", "none">>,
            pre |-> <<"preserve", "nowrap", "none">>,
            nowrap |-> <<"collapse", "nowrap", "none">>]
           @@ ("pre-wrap" :> <<"preserve", "wrap", "none">>)
           @@ ("pre-line" :> <<"preserve-breaks", "wrap", "none">>)
SpaceSets(t) == [i \in 1 .. 3 |-> <<Parts["white-space"][i], <<SpaceOf[Lower(t[1])][i]>>>>]

OverflowSets(t) == <<<<"overflow-x", <<t[1]>>>>, <<"overflow-y", <<t[Len(t)]>>>>>>

Images  == {"none", "url(#a)", "url(#b)"}
Repeats == {"repeat-x", "repeat", "no-repeat", "round", "space"}
Boxes   == {"border-box", "padding-box", "view-box"}
Comps   == {"add", "exclude"}
Modes   == {"alpha", "luminance"}
After(t, k) ==   \* the tokens after the k-th solidus, up to the next
  LET S == {i \in 1 .. Len(t) : t[i] = "/"}
      at(j) == CHOOSE i \in S : Cardinality({x \in S : x <= i}) = j
      a == IF k = 0 THEN 0 ELSE at(k)
      b == IF k + 1 > Cardinality(S) THEN Len(t) + 1 ELSE at(k + 1)
  IN IF k > Cardinality(S) THEN <<>> ELSE SubSeq(t, a + 1, b - 1)
MaskSets(t) ==
  LET box == In(t, Boxes \cup {"no-clip"})
      f(n) == CASE n = "mask-image" -> In(t, Images)
                [] n = "mask-position" -> In(After(t, 0), {"left", "top", "10%", "5px"})
                [] n = "mask-size" -> In(After(t, 1), {"cover", "auto", "50%", "7px"})
                [] n = "mask-repeat" -> In(t, Repeats)
                [] n = "mask-origin" -> LET b == Without(box, "no-clip")
                                        IN IF b = <<>> THEN <<>> ELSE <<b[1]>>
                [] n = "mask-clip" -> IF Has(box, "no-clip") THEN <<"no-clip">>
                                      ELSE IF box = <<>> THEN <<>> ELSE <<box[Len(box)]>>
                [] n = "mask-composite" -> In(t, Comps)
                [] n = "mask-mode" -> In(t, Modes)
  IN Pair(MaskNames, LAMBDA n : Or(f(n), "initial"))
BordNums == {"30", "10%", "fill", "5px", "2", "auto"}
BorderSets(t) ==
  LET f(n) == CASE n = "mask-border-source" -> In(t, Images)
                [] n = "mask-border-slice" -> In(After(t, 0), BordNums)
                [] n = "mask-border-width" -> In(After(t, 1), BordNums)
                [] n = "mask-border-outset" -> In(After(t, 2), BordNums)
                [] n = "mask-border-repeat" -> In(t, Repeats \cup {"stretch"})
                [] n = "mask-border-mode" -> In(t, Modes)
  IN Pair(BordNames, LAMBDA n : Or(f(n), "initial"))

Sets(h, t) ==
  IF IsWide(LowAll(t)) THEN Same(Longs[h], LowAll(t))
  ELSE CASE h = "font" -> FontSets(t)
         [] h = "font-variant" -> VariantSets(t)
         [] h = "font-synthesis" -> SynthesisSets(LowAll(t))
         [] h = "mask" -> MaskSets(t)
         [] h = "mask-border" -> BorderSets(t)
         [] h = "overflow" -> OverflowSets(t)
         [] h = "text-decoration" -> DecorationSets(t)
         [] h = "white-space" -> SpaceSets(t)

(* ---- the block ------------------------------------------------------------- *)
At(d, n) == LET S == {i \in 1 .. Len(d) : d[i].n = n}
            IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
IsSet(d, n) == At(d, n) # 0
Drop(d, n) == SelectSeq(d, LAMBDA x : x.n # n)
Put(d, n, v, p) == Append(Drop(d, n), [n |-> n, v |-> v, p |-> p])
RECURSIVE PutAll(_, _, _)
PutAll(d, ps, p) == IF ps = <<>> THEN d
                    ELSE PutAll(Put(d, Head(ps)[1], Head(ps)[2], p), Tail(ps), p)
SetD(d, n, t, p) == IF n \in Shorts THEN PutAll(d, Sets(n, t), p)
                    ELSE Put(d, n, IF Len(t) = 1 THEN <<LowTok(t[1])>> ELSE t, p)
RemD(d, n) == IF n \in Shorts
              THEN SelectSeq(d, LAMBDA x : ~Has(Longs[n], x.n)) ELSE Drop(d, n)
RECURSIVE Fold(_, _)
Fold(d, ds) == IF ds = <<>> THEN d
               ELSE Fold(SetD(d, Head(ds).n, Head(ds).v, Head(ds).p), Tail(ds))

(* ---- reading ------------------------------------------------------------------ *)
Range1(q) == {q[i] : i \in 1 .. Len(q)}
PrioVar(d) == LET S == {d[At(d, n)].p : n \in {x \in Range1(VarNames) : IsSet(d, x)}}
              IN IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE ""
PrioSet(d, h) ==
  {IF n \in Shorts THEN PrioVar(d) ELSE d[At(d, n)].p :
     n \in {x \in Range1(Parts[h]) : x \in Shorts \/ IsSet(d, x)}}
PrioSh(d, h) == IF Cardinality(PrioSet(d, h)) = 1
                THEN CHOOSE x \in PrioSet(d, h) : TRUE ELSE ""

AllWide(vs) == \A i \in 1 .. Len(vs) : IsWide(vs[i]) /\ vs[i] = vs[1]
AnyWide(vs) == \E i \in 1 .. Len(vs) : IsWide(vs[i])
AnyWide2(vs) == \E i \in 1 .. Len(vs) : IsWide(vs[i]) /\ vs[i] # <<"initial">>
Cat(vs) == FlattenSeq(vs)
Keep(vs, e) == Cat(SelectSeq(vs, LAMBDA v : v # <<e>>))

Between(d, ns, others, inert(_)) ==   \* something of others is set amid or after ns
  LET S == {At(d, n) : n \in Range1(ns)}
      lo == CHOOSE i \in S : \A j \in S : i <= j
      hi == CHOOSE i \in S : \A j \in S : j <= i
  IN \E n \in others : LET k == At(d, n)
                       IN k # 0 /\ ((lo < k /\ k < hi) \/ (hi < k /\ ~inert(d[k].v)))

(* the text of a shorthand whose longhands have the values vs                 *)
TextOf(d, h, vs) ==
  CASE h = "overflow" ->
         IF vs[1] = vs[2] THEN vs[1] ELSE IF AnyWide(vs) THEN <<>> ELSE vs[1] \o vs[2]
    [] h = "text-decoration" ->
         IF AllWide(vs) THEN vs[1] ELSE IF AnyWide2(vs) THEN <<>> ELSE Keep(vs, "initial")
    [] h = "white-space" ->
         IF AllWide(vs) THEN vs[1]
         ELSE LET S == {k \in DOMAIN SpaceOf : \A i \in 1 .. 3 : vs[i] = <<SpaceOf[k][i]>>}
              IN IF S = {} THEN <<>> ELSE <<CHOOSE k \in S : TRUE>>
    [] h = "font-synthesis" ->
         IF AllWide(vs) THEN vs[1]
         ELSE IF \E i \in 1 .. 2 : vs[i] \notin {<<"auto">>, <<"none">>} THEN <<>>
         ELSE Or((IF vs[1] = <<"auto">> THEN <<"weight">> ELSE <<>>)
                 \o (IF vs[2] = <<"auto">> THEN <<"style">> ELSE <<>>), "none")
    [] h = "font-variant" ->
         IF AllWide(vs) THEN vs[1]
         ELSE IF AnyWide(vs) THEN <<>>
         ELSE IF vs[1] = <<"none">>
              THEN IF \A i \in 2 .. 6 : vs[i] = <<"normal">> THEN <<"none">> ELSE <<>>
         ELSE Or(Keep(vs, "normal"), "normal")
    [] h = "font" ->
         IF \E i \in 1 .. Len(vs) : vs[i] = <<>> THEN <<>>
         ELSE IF Between(d, Longs["font"], FontSubs, LAMBDA v : v = <<"initial">>) THEN <<>>
         ELSE IF AllWide(vs) THEN vs[1]
         ELSE IF AnyWide(vs) \/ vs[2] \notin {<<"normal">>, <<"small-caps">>} THEN <<>>
         ELSE Keep(SubSeq(vs, 1, 4), "normal")
              \o (IF vs[6] = <<"normal">> THEN Keep(<<vs[5]>>, "medium")
                  ELSE vs[5] \o <<"/">> \o vs[6])
              \o vs[7]
    [] h = "mask" ->
         LET box(v) == IF v = <<"initial">> THEN <<"border-box">> ELSE v
             og == box(vs[5]) cl == box(vs[6])
         IN IF Between(d, MaskNames, Range1(BordNames), LAMBDA v : v = <<"initial">>) THEN <<>>
         ELSE IF AllWide(vs) THEN vs[1]
         ELSE IF AnyWide2(vs) \/ (vs[2] = <<"initial">> /\ vs[3] # <<"initial">>) THEN <<>>
         ELSE Keep(<<vs[1], vs[2]>>, "initial")
              \o (IF vs[3] = <<"initial">> THEN <<>> ELSE <<"/">> \o vs[3])
              \o Keep(<<vs[4]>>, "initial")
              \o (IF vs[5] = <<"initial">> /\ vs[6] = <<"initial">> THEN <<>>
                  ELSE IF og = cl THEN og
                  ELSE IF vs[5] = <<"initial">> /\ cl = <<"no-clip">> THEN cl
                  ELSE og \o cl)
              \o Keep(<<vs[7], vs[8]>>, "initial")
    [] h = "mask-border" ->
         IF Between(d, BordNames, Range1(MaskNames), LAMBDA v : FALSE) THEN <<>>
         ELSE IF AllWide(vs) THEN vs[1]
         ELSE IF AnyWide2(vs) \/ (vs[2] = <<"initial">> /\ vs[3] # <<"initial">>)
                 \/ (vs[3] = <<"initial">> /\ vs[4] # <<"initial">>) THEN <<>>
         ELSE Keep(<<vs[1], vs[2]>>, "initial")
              \o (IF vs[3] = <<"initial">> THEN <<>> ELSE <<"/">> \o vs[3])
              \o (IF vs[4] = <<"initial">> THEN <<>> ELSE <<"/">> \o vs[4])
              \o Keep(<<vs[5], vs[6]>>, "initial")

RECURSIVE ShVal(_, _)
ShVal(d, h) ==
  LET ns == Parts[h] ls == Longs[h]
  IN IF \E n \in Range1(ls) : ~IsSet(d, n) \/ d[At(d, n)].v = <<"bogus">> THEN <<>>
     ELSE IF Cardinality(PrioSet(d, h)) # 1 THEN <<>>
     ELSE TextOf(d, h, [i \in 1 .. Len(ns) |->
                          IF ns[i] \in Shorts THEN ShVal(d, ns[i]) ELSE d[At(d, ns[i])].v])
GetV(d, n) == IF n \in Shorts THEN ShVal(d, n) ELSE IF IsSet(d, n) THEN d[At(d, n)].v ELSE <<>>
GetP(d, n) == IF n \in Shorts THEN PrioSh(d, n) ELSE IF IsSet(d, n) THEN d[At(d, n)].p ELSE ""

(* the same declarations, in whatever order                                   *)
AsSet(d) == Range1(d)

(* what a style attribute says of a block: what its shorthands reset is left out *)
Means(n, v) ==   \* omitted parts of a mask read back as initial values
  IF n \in {"mask-origin", "mask-clip"} /\ v = <<"initial">> THEN <<"border-box">> ELSE v
Bare(d) == {[n |-> x.n, v |-> Means(x.n, x.v)] : x \in AsSet(d)}
Shown(d) ==
  LET gone == (IF ShVal(d, "font") # <<>> THEN FontSubs ELSE {})
              \cup (IF ShVal(d, "mask") # <<>> THEN Range1(BordNames) ELSE {})
  IN SelectSeq(d, LAMBDA x : x.n \notin gone)

(* ---- operations ------------------------------------------------------------- *)
CssStart(start) == [d |-> Fold(<<>>, start.ds), ro |-> FALSE]
NoMod == "exc:NoModificationAllowedError"
CssStep(s, op) ==
  CASE op.name = "set" ->
         IF s.ro THEN CErr(s, NoMod)
         ELSE IF op.v = <<>> THEN COk([s EXCEPT !.d = RemD(s.d, op.n)])
         ELSE LET p == IF op.p = "keep" THEN GetP(s.d, op.n) ELSE Lower(op.p)
              IN IF p \notin {"", "important"} THEN COk(s)
                 ELSE COk([s EXCEPT !.d = SetD(s.d, op.n, op.v, p)])
    [] op.name = "rem" ->
         IF s.ro THEN CErr(s, NoMod)
         ELSE CVal([s EXCEPT !.d = RemD(s.d, op.n)], GetV(s.d, op.n))
    [] op.name = "del" ->
         IF s.ro THEN CErr(s, NoMod) ELSE COk([s EXCEPT !.d = RemD(s.d, op.n)])
    [] op.name = "readonly" -> COk([s EXCEPT !.ro = op.v])
    \* what a shorthand reads as, set on an empty block, means the same
    [] op.name = "again" ->
         LET t == GetV(s.d, op.n)
         IN CVal(s, IF t = <<>> THEN <<>>
                    ELSE LET d2 == SetD(<<>>, op.n, t, "") IN GetV(d2, op.n))
    \* the style attribute is given another value from outside
    [] op.name = "extern" -> COk([s EXCEPT !.d = Fold(<<>>, op.ds)])
    \* the style attribute now has the declarations op.w (it has no priorities)
    [] op.name = "attr" ->
         CSay(s, Bare(Fold(<<>>, op.w)) \in {Bare(s.d), Bare(Shown(s.d))}, "the attribute says something else")
    [] op.name = "attrp" ->
         CSay(s, AsSet(Fold(<<>>, op.w)) = AsSet(Shown(s.d)), "the attribute says something else")

Plain == <<"fill", "stroke", "--x", "--X", "font-kerning", "font-size-adjust">>
LongSeq == Cat([i \in 1 .. Len(ShortSeq) |-> IF ShortSeq[i] = "font-variant" THEN <<>>
                                             ELSE Longs[ShortSeq[i]]])
AllNames == Plain \o ShortSeq \o LongSeq
CssObs(s) ==
  [vals |-> LET S == {n \in Range1(AllNames) : GetV(s.d, n) # <<>>}
                q == SelectSeq(AllNames, LAMBDA n : n \in S)
            IN [i \in 1 .. Len(q) |-> <<q[i], GetV(s.d, q[i]), GetP(s.d, q[i])>>],
   order |-> LET q == SelectSeq(s.d, LAMBDA x : x.n \notin LongSet)
             IN [i \in 1 .. Len(q) |-> q[i].n],
   size |-> Len(s.d), ro |-> s.ro]

(* ---- what holds in every state ------------------------------------------------ *)
Initial(n) == CASE n \in Range1(MaskNames) \cup Range1(BordNames) -> TRUE [] OTHER -> FALSE
RoundTrip(s) ==
  \A h \in Shorts :
    LET t == GetV(s.d, h)
    IN t # <<>> => LET d2 == SetD(<<>>, h, t, "")
                   IN \A n \in Range1(Longs[h]) :
                        Means(n, GetV(d2, n)) = Means(n, GetV(s.d, n))
Unique(s) == \A i, j \in 1 .. Len(s.d) : s.d[i].n = s.d[j].n => i = j
LongOnly(s) == \A i \in 1 .. Len(s.d) : s.d[i].n \notin Shorts /\ s.d[i].v # <<>>
=============================================================================
