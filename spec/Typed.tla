-------------------------------- MODULE Typed --------------------------------
(* Numeric values of the CSS Typed OM: numbers with units and the expressions *)
(* made of them. Their types, sums, conversions, comparisons, text, and what  *)
(* reading the text gives. Numbers are exact (Rat); radians count in pi.      *)
(*   heap: Seq of [k, v, u, kids, ty, txt, has]   vis: the values handed out *)
EXTENDS Rat, Sequences, FiniteSets, TLC

(* ------------------------------------------------------------------ units *)
(* base type, canonical unit ("" = none) and how many of that one it is      *)
UnitTable ==
  "number" :> <<"", "number", R1>> @@ "percent" :> <<"percent", "", R1>>
  @@ "em" :> <<"length", "", R1>> @@ "ex" :> <<"length", "", R1>>
  @@ "rem" :> <<"length", "", R1>> @@ "vw" :> <<"length", "", R1>>
  @@ "px" :> <<"length", "px", R1>> @@ "in" :> <<"length", "px", <<96, 1>>>>
  @@ "pt" :> <<"length", "px", <<4, 3>>>> @@ "pc" :> <<"length", "px", <<16, 1>>>>
  @@ "cm" :> <<"length", "px", <<4800, 127>>>> @@ "mm" :> <<"length", "px", <<480, 127>>>>
  @@ "q" :> <<"length", "px", <<120, 127>>>>
  @@ "deg" :> <<"angle", "deg", R1>> @@ "grad" :> <<"angle", "deg", <<9, 10>>>>
  @@ "rad" :> <<"angle", "deg", <<180, 1>>>> @@ "turn" :> <<"angle", "deg", <<360, 1>>>>
  @@ "ms" :> <<"time", "ms", R1>> @@ "s" :> <<"time", "ms", <<1000, 1>>>>
  @@ "hz" :> <<"frequency", "hz", R1>> @@ "khz" :> <<"frequency", "hz", <<1000, 1>>>>
  @@ "dppx" :> <<"resolution", "dppx", R1>> @@ "dpi" :> <<"resolution", "dppx", <<1, 96>>>>
  @@ "dpcm" :> <<"resolution", "dppx", <<127, 4800>>>>
  @@ "fr" :> <<"flex", "", R1>>
LowerUnit(u) == CASE u = "PX" -> "px" [] u = "Deg" -> "deg" [] u = "DPI" -> "dpi" [] u = "Q" -> "q"
                  [] OTHER -> u
Known(u) == u \in DOMAIN UnitTable
BaseOf(u) == UnitTable[u][1]
Canon(u) == UnitTable[u][2]
Ratio(u) == UnitTable[u][3]
(* The units sums are counted in, in the order of their names                *)
CUs == <<"deg", "dppx", "em", "ex", "fr", "hz", "ms", "percent", "px", "rem", "vw">>
NC == Len(CUs)
CIx(u) == CHOOSE i \in 1 .. NC : CUs[i] = u
SumUnit(u) == IF Canon(u) = "" THEN u ELSE Canon(u)
Pure == [i \in 1 .. NC |-> 0]
OneOf(u) == IF u = "number" THEN Pure ELSE [Pure EXCEPT ![CIx(u)] = 1]

(* ------------------------------------------------------------------ types *)
Bases == {"length", "angle", "time", "frequency", "resolution", "flex"}
NoDim == [length |-> 0, angle |-> 0, time |-> 0, frequency |-> 0, resolution |-> 0,
          flex |-> 0, percent |-> 0, hint |-> "", pk |-> 0, ok |-> TRUE]
Fail == [NoDim EXCEPT !.ok = FALSE]
TypeOf(u) == IF u = "number" THEN NoDim
             ELSE IF u = "percent" THEN [NoDim EXCEPT !.percent = 1, !.pk = 1]
             ELSE [NoDim EXCEPT ![BaseOf(u)] = 1]
Hinted(t, h) == [t EXCEPT ![h] = @ + t.percent, !.percent = 0, !.hint = h]
Hints(a, b) == IF a.hint # "" /\ b.hint = "" THEN <<a, Hinted(b, a.hint)>>
               ELSE IF a.hint = "" /\ b.hint # "" THEN <<Hinted(a, b.hint), b>>
               ELSE <<a, b>>
Clash(a, b) == ~a.ok \/ ~b.ok \/ (a.hint # "" /\ b.hint # "" /\ a.hint # b.hint)
AddTypes(a0, b0) ==
  IF Clash(a0, b0) THEN Fail
  ELSE LET p == Hints(a0, b0) a == p[1] b == p[2]
           d == {k \in Bases : a[k] # b[k]}
       IN IF d = {}
          THEN [a EXCEPT !.percent = IF a.pk = 1 THEN @ ELSE b.percent,
                         !.pk = IF a.pk = 1 THEN 1 ELSE b.pk]
          ELSE IF (a.percent = 0 /\ b.percent = 0) \/ Cardinality(d) # 1 THEN Fail
          ELSE LET k == CHOOSE x \in d : TRUE
               IN IF a[k] + a.percent = b[k] + b.percent THEN Hinted(a, k) ELSE Fail
MulTypes(a0, b0) ==
  IF Clash(a0, b0) THEN Fail
  ELSE LET p == Hints(a0, b0) a == p[1] b == p[2]
       IN [length |-> a.length + b.length, angle |-> a.angle + b.angle,
           time |-> a.time + b.time, frequency |-> a.frequency + b.frequency,
           resolution |-> a.resolution + b.resolution, flex |-> a.flex + b.flex,
           percent |-> a.percent + b.percent, hint |-> a.hint,
           pk |-> IF a.pk = 1 THEN 1 ELSE b.pk, ok |-> TRUE]
InvType(a) == [a EXCEPT !.length = -@, !.angle = -@, !.time = -@, !.frequency = -@,
                        !.resolution = -@, !.flex = -@, !.percent = -@]
RECURSIVE FoldAdd(_, _), FoldMul(_, _)
FoldAdd(t, q) == IF q = <<>> THEN t ELSE FoldAdd(AddTypes(t, Head(q)), Tail(q))
FoldMul(t, q) == IF q = <<>> THEN t ELSE FoldMul(MulTypes(t, Head(q)), Tail(q))
(* the type of canonical units to powers                                     *)
PowType(um) ==
  LET n(b) == LET RECURSIVE F(_)
                  F(i) == IF i > NC THEN 0
                          ELSE (IF BaseOf(CUs[i]) = b THEN um[i] ELSE 0) + F(i + 1)
              IN F(1)
      pc == um[CIx("percent")]
  IN [length |-> n("length"), angle |-> n("angle"), time |-> n("time"),
      frequency |-> n("frequency"), resolution |-> n("resolution"), flex |-> n("flex"),
      percent |-> pc, hint |-> "", pk |-> IF pc = 0 THEN 0 ELSE 1, ok |-> TRUE]

(* ---------------------------------------------------------------- the sum *)
(* Seq of [v, m]: amounts of products of canonical units                     *)
Sums(q) == [ok |-> TRUE, s |-> q]
NoSum == [ok |-> FALSE, s |-> <<>>]
Item(v, m) == [v |-> v, m |-> m]
RECURSIVE Collect(_, _)
Collect(acc, q) ==
  IF q = <<>> THEN acc
  ELSE LET e == Head(q)
           f == {i \in 1 .. Len(acc) : acc[i].m = e.m}
       IN Collect(IF f = {} THEN Append(acc, e)
                  ELSE LET i == CHOOSE x \in f : TRUE
                       IN [acc EXCEPT ![i].v = RAdd(@, e.v)], Tail(q))
RECURSIVE CrossOne(_, _), CrossAll(_, _)
CrossOne(e, q) == IF q = <<>> THEN <<>>
                  ELSE <<Item(RMul(e.v, Head(q).v), [i \in 1 .. NC |-> e.m[i] + Head(q).m[i]])>>
                       \o CrossOne(e, Tail(q))
CrossAll(p, q) == IF p = <<>> THEN <<>> ELSE CrossOne(Head(p), q) \o CrossAll(Tail(p), q)
RECURSIVE Cat(_)
Cat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Cat(Tail(qs))
RECURSIVE Prod(_, _)
Prod(acc, qs) == IF qs = <<>> THEN acc ELSE Prod(CrossAll(acc, Head(qs)), Tail(qs))
SumOf(qs) ==
  LET c == Collect(<<>>, Cat(qs))
      t == FoldAdd(PowType(c[1].m), [i \in 1 .. Len(c) - 1 |-> PowType(c[i + 1].m)])
  IN IF t.ok THEN Sums(c) ELSE NoSum
Best(qs, f) == IF \E i \in 1 .. Len(qs) : Len(qs[i]) > 1 THEN NoSum
               ELSE IF \E i \in 1 .. Len(qs) : qs[i][1].m # qs[1][1].m THEN NoSum
               ELSE LET vs == [i \in 1 .. Len(qs) |-> qs[i][1].v]
                    IN Sums(<<Item(IF f = "min" THEN RMinS(vs) ELSE RMaxS(vs), qs[1][1].m)>>)
RECURSIVE SV(_, _)
SV(h, i) ==
  LET n == h[i]
  IN IF n.k = "unit" THEN Sums(<<Item(RMul(n.v, Ratio(n.u)), OneOf(SumUnit(n.u)))>>)
     ELSE IF n.k = "clamp" THEN NoSum
     ELSE LET ks == [j \in 1 .. Len(n.kids) |-> SV(h, n.kids[j])]
              qs == [j \in 1 .. Len(ks) |-> ks[j].s]
          IN IF \E j \in 1 .. Len(ks) : ~ks[j].ok THEN NoSum
             ELSE CASE n.k = "sum" -> SumOf(qs)
                    [] n.k = "product" -> Sums(Prod(<<Item(R1, Pure)>>, qs))
                    [] n.k = "negate" -> Sums([j \in 1 .. Len(qs[1]) |-> [qs[1][j] EXCEPT !.v = RNeg(@)]])
                    [] n.k = "invert" ->
                         IF Len(qs[1]) > 1 THEN NoSum
                         ELSE LET e == qs[1][1]
                              IN Sums(<<Item(IF e.v[1] = 0 THEN e.v ELSE RInv(e.v),
                                             [j \in 1 .. NC |-> -e.m[j]])>>)
                    [] OTHER -> Best(qs, n.k)

(* ------------------------------------------------------------------- text *)
(* Tokens [t, v, u]: num (v, u), fn (u), and the marks ( ) , + - * /         *)
Tok(t) == [t |-> t, v |-> R0, u |-> ""]
FnTok(n) == [t |-> "fn", v |-> R0, u |-> n]
NumTok(v, u) == [t |-> "num", v |-> v, u |-> u]
(* a minus sign right before the text                                        *)
Minus(q) == LET f == Head(q)
             IN IF f.t = "num" /\ f.v[1] >= 0 THEN <<NumTok(RNeg(f.v), f.u)>> \o Tail(q)
                ELSE IF f.t = "num" THEN <<[f EXCEPT !.t = "bad", !.v = RNeg(@)]>> \o Tail(q)
                ELSE IF f.t = "fn" THEN <<FnTok("-" \o f.u)>> \o Tail(q)
                ELSE <<Tok("-")>> \o q
RECURSIVE Text(_, _, _), Args(_, _), Rest(_, _, _, _)
(* mode: "top", "in" (in another expression), "bare" (no parentheses)        *)
Wrap(q, mode) == IF mode = "bare" THEN q
                 ELSE <<IF mode = "in" THEN Tok("(") ELSE FnTok("calc")>> \o q \o <<Tok(")")>>
Args(h, ks) == IF Len(ks) = 1 THEN Text(h, ks[1], "bare")
               ELSE Text(h, ks[1], "bare") \o <<Tok(",")>> \o Args(h, Tail(ks))
Rest(h, ks, inv, sign) ==
  IF ks = <<>> THEN <<>>
  ELSE LET n == h[ks[1]]
       IN (IF n.k = inv THEN <<Tok(sign[2])>> \o Text(h, n.kids[1], "in")
           ELSE <<Tok(sign[1])>> \o Text(h, ks[1], "in"))
          \o Rest(h, Tail(ks), inv, sign)
Text(h, i, mode) ==
  LET n == h[i]
  IN IF n.has THEN n.txt
     ELSE CASE n.k = "unit" -> <<NumTok(n.v, n.u)>>
            [] n.k \in {"min", "max", "clamp"} -> <<FnTok(n.k)>> \o Args(h, n.kids) \o <<Tok(")")>>
            [] n.k = "sum" -> Wrap(Text(h, n.kids[1], "in")
                                   \o Rest(h, Tail(n.kids), "negate", <<"+", "-">>), mode)
            [] n.k = "product" -> Wrap(Text(h, n.kids[1], "in")
                                       \o Rest(h, Tail(n.kids), "invert", <<"*", "/">>), mode)
            [] n.k = "negate" -> Wrap(Minus(Text(h, n.kids[1], "in")), mode)
            [] n.k = "invert" -> Wrap(<<NumTok(R1, "number"), Tok("/")>>
                                      \o Text(h, n.kids[1], "in"), mode)

(* ------------------------------------------------------------ new values  *)
Node(k, v, u, kids, ty) == [k |-> k, v |-> v, u |-> u, kids |-> kids, ty |-> ty,
                            txt |-> <<>>, has |-> FALSE]
UnitNode(v, u) == Node("unit", v, u, <<>>, TypeOf(u))
MathType(k, ts) == CASE k = "negate" -> ts[1]
                     [] k = "invert" -> InvType(ts[1])
                     [] k = "product" -> FoldMul(ts[1], Tail(ts))
                     [] OTHER -> FoldAdd(ts[1], Tail(ts))
(* [h, i]: the heap with an expression added, and where (0 = not possible)   *)
MakeIn(h, k, kids) ==
  IF kids = <<>> THEN [h |-> h, i |-> 0]
  ELSE LET ty == MathType(k, [j \in 1 .. Len(kids) |-> h[kids[j]].ty])
       IN IF ~ty.ok THEN [h |-> h, i |-> 0]
          ELSE [h |-> Append(h, Node(k, R0, "", kids, ty)), i |-> Len(h) + 1]
UnitIn(h, v, u) == [h |-> Append(h, UnitNode(v, u)), i |-> Len(h) + 1]

(* ---------------------------------------------------------------- reading *)
(* result [h, i, p]: heap, node (0 = wrong), next token                      *)
No(h) == [h |-> h, i |-> 0, p |-> 0]
RECURSIVE ReadValue(_, _, _), ReadSum(_, _, _), ReadRest(_, _, _, _, _), ReadArgs(_, _, _, _)
AtTok(q, p) == IF p <= Len(q) THEN q[p].t ELSE "end"
(* the end of the text closes what is open                                   *)
Closes(q, p) == AtTok(q, p) \in {")", "end"}
After(q, p) == IF p > Len(q) THEN p ELSE p + 1
(* close a term: one factor or a product; a subtracted value joins a product *)
(* before it that is not the first term                                      *)
CloseTerm(h, terms, factors) ==
  LET m == IF Len(factors) = 1 THEN [h |-> h, i |-> factors[1]] ELSE MakeIn(h, "product", factors)
      l == Len(terms)
  IN IF m.i = 0 THEN [h |-> h, ts |-> <<>>]
     ELSE IF l > 1 /\ m.h[m.i].k = "negate" /\ ~m.h[m.i].has /\ m.h[terms[l]].k = "product"
     THEN LET g == MakeIn(m.h, "sum", <<terms[l], m.i>>)
          IN IF g.i = 0 THEN [h |-> h, ts |-> <<>>]
             ELSE [h |-> g.h, ts |-> SubSeq(terms, 1, l - 1) \o <<g.i>>]
     ELSE [h |-> m.h, ts |-> Append(terms, m.i)]
ReadRest(h, q, p, terms, factors) ==
  LET t == AtTok(q, p)
  IN IF t \in {"+", "-", "*", "/"}
     THEN LET r == ReadValue(h, q, p + 1)
          IN IF r.i = 0 THEN No(h)
             ELSE IF t = "*"
             THEN LET split == terms # <<>> /\ r.h[factors[Len(factors)]].k = "invert"
                      m == IF split THEN MakeIn(r.h, "product", factors)
                           ELSE [h |-> r.h, i |-> 1]
                  IN IF m.i = 0 THEN No(h)
                     ELSE ReadRest(m.h, q, r.p, terms,
                                   IF split THEN <<m.i, r.i>> ELSE Append(factors, r.i))
             ELSE IF t = "/"
             THEN LET m == MakeIn(r.h, "invert", <<r.i>>)
                  IN ReadRest(m.h, q, r.p, terms, Append(factors, m.i))
             ELSE LET c == CloseTerm(r.h, terms, factors)
                      m == IF t = "-" THEN MakeIn(c.h, "negate", <<r.i>>) ELSE [h |-> c.h, i |-> r.i]
                  IN IF c.ts = <<>> THEN No(h) ELSE ReadRest(m.h, q, r.p, c.ts, <<m.i>>)
     ELSE LET c == CloseTerm(h, terms, factors)
          IN IF c.ts = <<>> THEN No(h)
             ELSE IF Len(c.ts) = 1 THEN [h |-> c.h, i |-> c.ts[1], p |-> p]
             ELSE LET g == MakeIn(c.h, "sum", c.ts) IN [h |-> g.h, i |-> g.i, p |-> p]
ReadSum(h, q, p) == LET r == ReadValue(h, q, p)
                    IN IF r.i = 0 THEN No(h) ELSE ReadRest(r.h, q, r.p, <<>>, <<r.i>>)
ReadArgs(h, q, p, acc) ==
  LET r == ReadSum(h, q, p)
  IN IF r.i = 0 THEN [h |-> h, a |-> <<>>, p |-> 0]
     ELSE IF AtTok(q, r.p) = "," THEN ReadArgs(r.h, q, r.p + 1, Append(acc, r.i))
     ELSE [h |-> r.h, a |-> Append(acc, r.i), p |-> r.p]
ReadValue(h, q, p) ==
  LET t == AtTok(q, p)
  IN IF t = "num" THEN (IF Known(q[p].u)
                        THEN LET r == UnitIn(h, q[p].v, q[p].u) IN [h |-> r.h, i |-> r.i, p |-> p + 1]
                        ELSE No(h))
     ELSE IF t = "(" \/ (t = "fn" /\ q[p].u = "calc")
     THEN LET r == ReadSum(h, q, p + 1)
          IN IF r.i = 0 \/ ~Closes(q, r.p) THEN No(h)
             ELSE LET m == IF t = "fn" /\ r.h[r.i].k = "unit" THEN MakeIn(r.h, "sum", <<r.i>>)
                           ELSE [h |-> r.h, i |-> r.i]
                  IN [h |-> m.h, i |-> m.i, p |-> After(q, r.p)]
     ELSE IF t = "fn" /\ q[p].u \in {"min", "max", "clamp"}
     THEN LET r == ReadArgs(h, q, p + 1, <<>>)
          IN IF r.p = 0 \/ ~Closes(q, r.p) \/ (q[p].u = "clamp" /\ Len(r.a) # 3) THEN No(h)
             ELSE LET m == MakeIn(r.h, q[p].u, r.a) IN [h |-> m.h, i |-> m.i, p |-> After(q, r.p)]
     ELSE No(h)

(* ------------------------------------------------------------- operations *)
(* op: [name, is: values (negative: minus that number), v, u, us, q: tokens] *)
NumOf(h, x) == UnitIn(h, I2R(-x), "number")
RECURSIVE Refs(_, _, _, _)
(* [h, a]: heap nodes of the arguments                                       *)
Refs(h, vis, q, acc) ==
  IF q = <<>> THEN [h |-> h, a |-> acc]
  ELSE IF Head(q) < 0 THEN LET r == NumOf(h, Head(q)) IN Refs(r.h, vis, Tail(q), Append(acc, r.i))
  ELSE Refs(h, vis, Tail(q), Append(acc, vis[Head(q)]))
Out(s, o) == [st |-> s, out |-> [r |-> o]]
Push(s, h, i) == IF i = 0 THEN Out(s, "ValueError")
                 ELSE Out([h |-> h, vis |-> Append(s.vis, i)], "")
(* One item of a sum as a number with a unit, in h (0 = it is not one)       *)
FromItem(h, e) ==
  LET nz == {i \in 1 .. NC : e.m[i] # 0}
  IN IF nz = {} THEN UnitIn(h, e.v, "number")
     ELSE IF Cardinality(nz) > 1 THEN [h |-> h, i |-> 0]
     ELSE LET i == CHOOSE x \in nz : TRUE
          IN IF e.m[i] # 1 THEN [h |-> h, i |-> 0] ELSE UnitIn(h, e.v, CUs[i])
Convertible(u, w) == u = w \/ (Known(w) /\ Canon(u) # "" /\ Canon(u) = Canon(w))
Convert(v, u, w) == IF u = w THEN v ELSE RDiv(RMul(v, Ratio(u)), Ratio(w))
ConvIn(h, v, u, w) == IF Convertible(u, w) THEN UnitIn(h, Convert(v, u, w), w) ELSE [h |-> h, i |-> 0]
ToUnit(h, i, w) ==
  LET n == h[i]
  IN IF ~Known(w) THEN [h |-> h, i |-> 0]
     ELSE IF n.k = "unit" THEN ConvIn(h, n.v, n.u, w)
     ELSE LET s == SV(h, i)
          IN IF ~s.ok \/ Len(s.s) # 1 THEN [h |-> h, i |-> 0]
             ELSE LET r == FromItem(h, s.s[1])
                  IN IF r.i = 0 THEN r ELSE ConvIn(r.h, r.h[r.i].v, r.h[r.i].u, w)
UnitOrder == <<"deg", "dppx", "em", "ex", "fr", "hz", "ms", "number", "percent", "px", "rem", "vw">>
Pairs(s) == [j \in 1 .. Len(s) |->
               LET nz == {i \in 1 .. NC : s[j].m[i] # 0}
               IN IF nz = {} THEN [v |-> s[j].v, u |-> "number", ok |-> TRUE]
                  ELSE LET i == CHOOSE x \in nz : TRUE
                       IN [v |-> s[j].v, u |-> CUs[i],
                           ok |-> Cardinality(nz) = 1 /\ s[j].m[i] = 1]]
RECURSIVE SortUnits(_, _), UnitsIn(_, _, _), Share(_, _)
SortUnits(q, k) == IF k > Len(UnitOrder) THEN <<>>
                   ELSE SelectSeq(q, LAMBDA e : e.u = UnitOrder[k]) \o SortUnits(q, k + 1)
UnitsIn(h, q, acc) == IF q = <<>> THEN [h |-> h, a |-> acc]
                      ELSE LET r == UnitIn(h, Head(q).v, Head(q).u)
                           IN UnitsIn(r.h, Tail(q), Append(acc, r.i))
(* [r, left]: the parts of a sum given to each of the wanted units           *)
Share(q, us) ==
  IF us = <<>> THEN [r |-> <<>>, left |-> q]
  ELSE LET f == {j \in 1 .. Len(q) : Convertible(q[j].u, Head(us))}
           j == CHOOSE x \in f : \A y \in f : x <= y
           g == IF f = {} THEN R0 ELSE Convert(q[j].v, q[j].u, Head(us))
           t == Share(IF f = {} THEN q ELSE SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q)), Tail(us))
       IN [r |-> <<[v |-> g, u |-> Head(us)]>> \o t.r, left |-> t.left]
ToSum(s, i, us) ==
  LET sv == SV(s.h, i)
      ps == Pairs(sv.s)
  IN IF \E j \in 1 .. Len(us) : ~Known(us[j]) THEN Out(s, "ValueError")
     ELSE IF ~sv.ok THEN Out(s, "TypeError")
     ELSE IF \E j \in 1 .. Len(ps) : ~ps[j].ok THEN Out(s, "ValueError")
     ELSE LET sh == IF us = <<>> THEN [r |-> SortUnits(ps, 1), left |-> <<>>] ELSE Share(ps, us)
          IN IF sh.left # <<>> THEN Out(s, "ValueError")
             ELSE LET p == UnitsIn(s.h, sh.r, <<>>)
                      m == MakeIn(p.h, "sum", p.a)
                  IN Push(s, m.h, m.i)
(* a + b ...: joins sums, adds numbers of one unit                           *)
Add(s, kids) ==
  LET r == Refs(s.h, s.vis, kids, <<>>)
      n == r.h[r.a[1]]
      all == IF n.k = "sum" THEN n.kids \o Tail(r.a) ELSE r.a
      f == r.h[all[1]]
  IN IF \A j \in 1 .. Len(all) : r.h[all[j]].k = "unit" /\ r.h[all[j]].u = f.u
     THEN LET x == UnitIn(r.h, RSumS([j \in 1 .. Len(all) |-> r.h[all[j]].v]), f.u)
          IN Push(s, x.h, x.i)
     ELSE LET m == MakeIn(r.h, "sum", all) IN Push(s, m.h, m.i)
RECURSIVE Same(_, _, _)
Same(h, i, j) ==
  LET a == h[i] b == h[j]
  IN a.k = b.k /\ (IF a.k = "unit" THEN a.u = b.u /\ a.v = b.v
                  ELSE Len(a.kids) = Len(b.kids)
                       /\ \A x \in 1 .. Len(a.kids) : Same(h, a.kids[x], b.kids[x]))
Bool(b) == IF b THEN "true" ELSE "false"
Compare(s, i, x, rel) ==
  LET r == Refs(s.h, s.vis, <<i, x>>, <<>>)
      a == r.h[r.a[1]] b == r.h[r.a[2]]
      c == Convert(b.v, b.u, a.u)
  IN IF b.k # "unit" THEN (IF rel = "==" THEN "false" ELSE "TypeError")
     ELSE IF ~Convertible(b.u, a.u) THEN "ValueError"
     ELSE Bool(CASE rel = "==" -> a.v = c [] rel = "<" -> RLt(a.v, c) [] rel = "<=" -> RLe(a.v, c)
                 [] rel = ">" -> RLt(c, a.v) [] rel = ">=" -> RLe(c, a.v))
(* text read: one value, nothing after it                                    *)
Parse(s, q) ==
  LET r == ReadValue(s.h, q, 1)
  IN IF r.i = 0 \/ r.p # Len(q) + 1 THEN Out(s, "ValueError")
     ELSE Push(s, [r.h EXCEPT ![r.i].txt = q, ![r.i].has = TRUE], r.i)
TypedStart(start) == [h |-> <<>>, vis |-> <<>>]
TypedStep(s, op) ==
  LET n == op.name
  IN CASE n = "unit" -> LET u == LowerUnit(op.u) IN IF Known(u) THEN LET r == UnitIn(s.h, op.v, u) IN Push(s, r.h, r.i)
                        ELSE Out(s, "ValueError")
       [] n \in {"sum", "product", "negate", "invert", "min", "max", "clamp"} ->
            LET r == Refs(s.h, s.vis, op.is, <<>>)
                m == MakeIn(r.h, n, r.a)
            IN Push(s, m.h, m.i)
       [] n = "add" -> Add(s, op.is)
       [] n = "set" -> LET i == s.vis[op.is[1]]
                       IN Out([s EXCEPT !.h[i].v = op.v, !.h[i].has = FALSE, !.h[i].txt = <<>>], "")
       [] n = "kid" -> LET ks == s.h[s.vis[op.is[1]]].kids
                       IN Out([s EXCEPT !.vis = Append(@, ks[op.is[2]])], "")
       [] n = "to" -> LET r == ToUnit(s.h, s.vis[op.is[1]], op.u) IN Push(s, r.h, r.i)
       [] n = "tosum" -> ToSum(s, s.vis[op.is[1]], op.us)
       [] n = "equals" -> LET r == Refs(s.h, s.vis, op.is, <<>>)
                          IN Out(s, Bool(\A j \in 2 .. Len(r.a) : Same(r.h, r.a[1], r.a[j])))
       [] n = "compare" -> Out(s, Compare(s, op.is[1], op.is[2], op.u))
       [] n = "reparse" -> Parse(s, Text(s.h, s.vis[op.is[1]], "top"))
       [] n = "parse" -> Parse(s, op.q)
Shown(t) == [t |-> t.t, s |-> IF t.t \in {"num", "bad"} THEN Decimal(t.v, 6) ELSE "", u |-> t.u]
TypeShown(t) == <<t.length, t.angle, t.time, t.frequency, t.resolution, t.flex, t.percent>>
Show(h, i) ==
  LET n == h[i] sv == SV(h, i) tx == Text(h, i, "top")
  IN [k |-> n.k, v |-> n.v, u |-> n.u, n |-> Len(n.kids), ty |-> TypeShown(n.ty), hint |-> n.ty.hint,
      ok |-> sv.ok, sum |-> sv.s, txt |-> [j \in 1 .. Len(tx) |-> Shown(tx[j])]]
TypedObs(s) == [vals |-> [j \in 1 .. Len(s.vis) |-> Show(s.h, s.vis[j])]]
=============================================================================
