------------------------------- MODULE Xform -------------------------------
(***************************************************************************)
(* SVGTransform, SVGTransformList and the transform attribute.             *)
(*   O[i]  transform objects [t: type 0..6, v: values, a: angle]           *)
(*   L[i]  lists: sequences of indices of O                                *)
(*   E[i]  elements: the transform attribute [s: text, "-" if absent,      *)
(*         q: the functions it lists]                                      *)
(* Objects are shared: a list shows later changes of its items. Objects    *)
(* that an operation makes are appended to O in list order.                *)
(***************************************************************************)
EXTENDS Geom

NoAttr(s) == [s |-> s, q |-> <<>>]
(* ---- one transform function ------------------------------------------- *)
Names == <<"matrix", "translate", "scale", "rotate", "skewX", "skewY">>
Unknown == [t |-> 0, v |-> <<>>, a |-> R0]
(* The object SVGTransform(t, *v) is, or the error.                        *)
Made(t, v) ==
  LET n == Len(v)
      ok(vals, a) == [r |-> "ok", o |-> [t |-> t, v |-> vals, a |-> a]]
      no == [r |-> "TypeError", o |-> Unknown]
      at(i) == IF i <= n THEN v[i] ELSE R0
  IN CASE t = 0 -> [r |-> "ok", o |-> Unknown]
       [] t = 1 -> IF n = 6 THEN ok(v, R0) ELSE no
       [] t = 2 -> IF n \in 1 .. 2 THEN ok(<<v[1], at(2)>>, R0) ELSE no
       [] t = 3 -> IF n \in 1 .. 2 THEN ok(<<v[1], v[n]>>, R0) ELSE no
       [] t = 4 -> IF n \in 1 .. 3 THEN ok(<<v[1], at(2), at(3)>>, v[1]) ELSE no
       [] t \in {5, 6} -> IF n = 1 THEN ok(v, v[1]) ELSE no
       [] OTHER -> [r |-> "ValueError", o |-> Unknown]

Num6(a) == Decimal(a, 6)
Text1(o, sep) ==
  IF o.t = 0 THEN ""
  ELSE LET s == [i \in 1 .. Len(o.v) |-> Num6(o.v[i])]
           n == CASE o.t = 4 -> IF s[2] = "0" /\ s[3] = "0" THEN 1 ELSE 3
                  [] o.t = 3 -> IF s[1] = s[2] THEN 1 ELSE 2
                  [] o.t = 2 -> IF s[2] = "0" THEN 1 ELSE 2
                  [] OTHER -> Len(s)
       IN Names[o.t] \o "(" \o Join(SubSeq(s, 1, n), sep) \o ")"

(* Angles whose matrix is rational: right angles, and for skews 45 degrees. *)
Whole(a, k) == a[2] = 1 /\ a[1] % k = 0
A180(a) == a[1] % 180
Exact(o) == CASE o.t = 0 -> FALSE
              [] o.t = 4 -> Whole(o.a, 90)
              [] o.t \in {5, 6} -> Whole(o.a, 45) /\ A180(o.a) # 90
              [] OTHER -> TRUE
CosOf(a) == LET k == a[1] % 360 IN IF k = 0 THEN R1 ELSE IF k = 180 THEN RNeg(R1) ELSE R0
SinOf(a) == LET k == a[1] % 360 IN IF k = 90 THEN R1 ELSE IF k = 270 THEN RNeg(R1) ELSE R0
TanOf(a) == LET k == A180(a) IN IF k = 0 THEN R0 ELSE IF k = 45 THEN R1 ELSE RNeg(R1)
(* 2D matrices as <<a, b, c, d, e, f>>                                     *)
Id6 == <<R1, R0, R0, R1, R0, R0>>
Mul6(x, y) ==
  IF x = Id6 THEN y ELSE
  <<RAdd(RMul(x[1], y[1]), RMul(x[3], y[2])), RAdd(RMul(x[2], y[1]), RMul(x[4], y[2])),
    RAdd(RMul(x[1], y[3]), RMul(x[3], y[4])), RAdd(RMul(x[2], y[3]), RMul(x[4], y[4])),
    RAdd(RAdd(RMul(x[1], y[5]), RMul(x[3], y[6])), x[5]),
    RAdd(RAdd(RMul(x[2], y[5]), RMul(x[4], y[6])), x[6])>>
Move6(x, y) == <<R1, R0, R0, R1, x, y>>
Mat1(o) ==
  LET v == o.v IN
  CASE o.t = 1 -> v
    [] o.t = 2 -> Move6(v[1], v[2])
    [] o.t = 3 -> <<v[1], R0, R0, v[2], R0, R0>>
    [] o.t = 4 -> LET c == CosOf(o.a) s == SinOf(o.a)
                  IN Mul6(Mul6(Move6(v[2], v[3]), <<c, s, RNeg(s), c, R0, R0>>),
                          Move6(RNeg(v[2]), RNeg(v[3])))
    [] o.t = 5 -> <<R1, R0, TanOf(o.a), R1, R0, R0>>
    [] o.t = 6 -> <<R1, TanOf(o.a), R0, R1, R0, R0>>
RECURSIVE MatL(_, _)
MatL(O, ids) == IF ids = <<>> THEN Id6
                ELSE Mul6(MatL(O, SubSeq(ids, 1, Len(ids) - 1)), Mat1(O[ids[Len(ids)]]))
AllExact(O, ids) == \A i \in 1 .. Len(ids) : Exact(O[ids[i]])

XformStart(start) ==
  [O |-> [i \in 1 .. Len(start.objs) |-> Made(start.objs[i][1], start.objs[i][2]).o],
   L |-> start.lists, E |-> [i \in 1 .. start.n |-> NoAttr("-")]]

(* ---- what is observed -------------------------------------------------- *)
TextL(O, ids, sep) == Join([i \in 1 .. Len(ids) |-> Text1(O[ids[i]], sep)], " ")
XformObs(st) ==
  [objs |-> [i \in 1 .. Len(st.O) |-> LET o == st.O[i] IN
       [t |-> o.t, v |-> o.v, a |-> o.a, s |-> Text1(o, ", "),
        m |-> IF Exact(o) THEN Mat1(o) ELSE <<>>]],
   lists |-> [i \in 1 .. Len(st.L) |-> LET ids == st.L[i] IN
       [o |-> ids, s |-> TextL(st.O, ids, ", "),
        m |-> IF ids # <<>> /\ AllExact(st.O, ids) THEN MatL(st.O, ids) ELSE <<>>]],
   els |-> [i \in 1 .. Len(st.E) |-> st.E[i].s]]

(* ---- positions as Python sequences take them --------------------------- *)
PyIx(n, i) == IF i < 0 THEN i + n + 1 ELSE i + 1      \* 1-based, may be out of range
InIx(n, i) == PyIx(n, i) \in 1 .. n
Clamp(n, i) == LET k == IF i < 0 THEN i + n ELSE i
               IN IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k
Cut(s, a, b) ==                         \* <<before, inside, after>> of s[a:b]
  LET n == Len(s) lo == Clamp(n, a) h == Clamp(n, b) hi == IF h < lo THEN lo ELSE h
  IN <<SubSeq(s, 1, lo), SubSeq(s, lo + 1, hi), SubSeq(s, hi + 1, n)>>

(* ---- steps ------------------------------------------------------------- *)
Res(st, r, v, s) == [st |-> st, out |-> [r |-> r, v |-> v, s |-> s]]
Good(st) == Res(st, "ok", <<>>, "")
Fail(st, e) == Res(st, e, <<>>, "")
Fresh(st, objs) == [i \in 1 .. Len(objs) |-> Len(st.O) + i]
AddO(st, objs) == [st EXCEPT !.O = @ \o objs]

RECURSIVE FirstBad(_)
FirstBad(items) == IF items = <<>> THEN "ok"
                   ELSE LET m == Made(items[1][1], items[1][2])
                        IN IF m.r # "ok" THEN m.r ELSE FirstBad(Tail(items))

XformStep(st, op) ==
  LET f == op.f IN
  CASE f = "obj" ->
         LET m == Made(op.t, op.v)
         IN IF m.r # "ok" THEN Fail(st, m.r) ELSE Good(AddO(st, <<m.o>>))
    [] f = "oset" ->
         LET m == Made(op.t, op.v)
         IN IF m.r # "ok" THEN Fail(st, m.r) ELSE Good([st EXCEPT !.O[op.o] = m.o])
    [] f = "frommat" ->
         IF op.flat THEN Good(AddO(st, <<[t |-> 1, v |-> op.v, a |-> R0]>>))
         ELSE Fail(st, "ValueError")
    [] f = "omat" ->
         IF op.flat THEN Good([st EXCEPT !.O[op.o] = [t |-> 1, v |-> op.v, a |-> R0]])
         ELSE Fail(st, "ValueError")
    [] f = "lmake" ->                   \* from objects
         Good([st EXCEPT !.L = Append(@, op.os)])
    [] f = "ltext" ->                   \* from text: items <<type, values>>
         LET e == FirstBad(op.items)
             objs == [i \in 1 .. Len(op.items) |-> Made(op.items[i][1], op.items[i][2]).o]
         IN IF e # "ok" THEN Fail(st, e)
            ELSE Good([AddO(st, objs) EXCEPT !.L = Append(@, Fresh(st, objs))])
    [] f = "eget" ->
         IF st.E[op.e].s \in {"-", "none"} THEN Res(st, "ok", <<>>, "None")
         ELSE LET objs == st.E[op.e].q
              IN Good([AddO(st, objs) EXCEPT !.L = Append(@, Fresh(st, objs))])
    [] f = "eset" ->
         LET objs == [i \in 1 .. Len(st.L[op.l]) |-> st.O[st.L[op.l][i]]]
         IN Good([st EXCEPT !.E[op.e] =
                    [s |-> TextL(st.O, st.L[op.l], ", "),
                     q |-> SelectSeq(objs, LAMBDA o : o.t # 0)]])
    [] f = "eraw" -> Good([st EXCEPT !.E[op.e] =
         [s |-> op.text,
          q |-> [i \in 1 .. Len(op.items) |-> Made(op.items[i][1], op.items[i][2]).o]]])
    [] f = "enone" -> Good([st EXCEPT !.E[op.e] = NoAttr(op.s)])
    [] f = "otext" -> Res(st, "ok", <<>>, Text1(st.O[op.o], op.sep))
    [] OTHER ->
         LET ids == st.L[op.l] n == Len(ids)
             to(s) == Good([st EXCEPT !.L[op.l] = s])
             give(s, o) == Res([st EXCEPT !.L[op.l] = s], "ok", <<o>>, "")
         IN CASE f = "append" -> IF op.o = 0 THEN Fail(st, "TypeError")
                                 ELSE give(Append(ids, op.o), op.o)
              [] f = "insert" -> IF op.o = 0 THEN Fail(st, "TypeError")
                                 ELSE give(InsAt(ids, Clamp(n, op.i) + 1, op.o), op.o)
              [] f = "init" -> IF op.o = 0 THEN Fail(st, "TypeError") ELSE give(<<op.o>>, op.o)
              [] f = "replace" -> IF op.o = 0 THEN Fail(st, "TypeError")
                                  ELSE IF ~InIx(n, op.i) THEN Fail(st, "IndexError")
                                  ELSE give([ids EXCEPT ![PyIx(n, op.i)] = op.o], op.o)
              [] f = "remove" -> IF ~InIx(n, op.i) THEN Fail(st, "IndexError")
                                 ELSE give(RemAt(ids, PyIx(n, op.i)), ids[PyIx(n, op.i)])
              [] f = "get" -> IF ~InIx(n, op.i) THEN Fail(st, "IndexError")
                              ELSE give(ids, ids[PyIx(n, op.i)])
              [] f = "clear" -> to(<<>>)
              [] f = "reverse" -> to(Reverse(ids))
              [] f = "extend" -> IF \E i \in 1 .. Len(op.os) : op.os[i] = 0
                                 THEN Fail(st, "TypeError") ELSE to(ids \o op.os)
              [] f = "lextend" -> to(ids \o st.L[op.k])
              [] f = "slice" -> IF \E i \in 1 .. Len(op.os) : op.os[i] = 0
                                THEN Fail(st, "TypeError")
                                ELSE LET c == Cut(ids, op.i, op.j) IN to(c[1] \o op.os \o c[3])
              [] f = "del" -> LET c == Cut(ids, op.i, op.j) IN to(c[1] \o c[3])
              [] f = "part" -> Res(st, "ok", Cut(ids, op.i, op.j)[2], "")
              [] f = "add" ->
                   LET src == Dedup(ids, <<>>)
                       new(o) == Len(st.O) + Ix(src, o)
                       objs == [i \in 1 .. Len(src) |-> st.O[src[i]]]
                   IN Good([AddO(st, objs) EXCEPT !.L =
                              Append(@, [i \in 1 .. n |-> new(ids[i])] \o op.os)])
              [] f = "consolidate" ->
                   IF n = 0 THEN Res(st, "ok", <<>>, "None")
                   ELSE LET o == [t |-> 1, v |-> MatL(st.O, ids), a |-> R0]
                        IN Res([AddO(st, <<o>>) EXCEPT !.L[op.l] = <<Len(st.O) + 1>>],
                               "ok", <<Len(st.O) + 1>>, "")
              [] f = "total" ->          \* .transform: a new object, the list stays
                   IF n = 0 THEN Res(st, "ok", <<>>, "None")
                   ELSE Good(AddO(st, <<[t |-> 1, v |-> MatL(st.O, ids), a |-> R0]>>))
              [] f = "mutmat" -> Good(st)  \* changing the returned matrix changes nothing
              [] f = "text" -> Res(st, "ok", <<>>, TextL(st.O, ids, op.sep))
              [] f = "len" -> Res(st, "ok", <<n, n, n>>, "")
=============================================================================
