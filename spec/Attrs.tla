-------------------------------- MODULE Attrs --------------------------------
(***************************************************************************)
(* The attributes of elements and the three views of them: the attribute   *)
(* map with its Attr objects, the class token list, and the dataset.       *)
(*   el[e]  the attributes of element e in order: [n, v, a]  (a: the Attr  *)
(*          object the map hands out for it)                               *)
(*   A[a]   Attr objects: [n, own, v]; own = 0: not attached, v its value  *)
(* NONE stands for None.                                                   *)
(***************************************************************************)
EXTENDS Text

NONE == "~none"
AOk(st, v, a)   == [st |-> st, out |-> [r |-> "ok", v |-> v, a |-> a]]
AErr(st, e)     == [st |-> st, out |-> [r |-> e, v |-> <<>>, a |-> 0]]

Pos(st, e, n) ==
  LET k == {i \in 1 .. Len(st.el[e]) : st.el[e][i].n = n}
  IN IF k = {} THEN 0 ELSE CHOOSE i \in k : TRUE
Val(st, e, n) == IF Pos(st, e, n) = 0 THEN NONE ELSE st.el[e][Pos(st, e, n)].v
AttrOf(st, e, n) == IF Pos(st, e, n) = 0 THEN 0 ELSE st.el[e][Pos(st, e, n)].a

(* Every attribute has an Attr object: new ones are numbered in order of   *)
(* elements and attributes.                                                *)
RECURSIVE Number(_, _, _)
Number(st, e, i) ==
  IF e > Len(st.el) THEN st
  ELSE IF i > Len(st.el[e]) THEN Number(st, e + 1, 1)
  ELSE IF st.el[e][i].a # 0 THEN Number(st, e, i + 1)
  ELSE Number([st EXCEPT !.el[e][i].a = Len(st.A) + 1,
                         !.A = Append(@, [n |-> st.el[e][i].n, own |-> e,
                                          v |-> NONE])], e, i + 1)

AttrsStart(s) ==
  Number([el |-> [e \in 1 .. Len(s.el) |->
                    [i \in 1 .. Len(s.el[e]) |->
                       [n |-> s.el[e][i][1], v |-> s.el[e][i][2], a |-> 0]]],
          A |-> <<>>], 1, 1)

(* Set a value: an attribute keeps its place, a new one goes to the end.   *)
Put(st, e, n, v) ==
  LET i == Pos(st, e, n)
  IN IF i # 0 THEN [st EXCEPT !.el[e][i].v = v]
     ELSE [st EXCEPT !.el[e] = Append(@, [n |-> n, v |-> v, a |-> 0])]

(* Take an attribute away; its Attr object keeps value v.                  *)
DropV(st, e, n, v) ==
  LET i == Pos(st, e, n) a == st.el[e][i].a
  IN IF i = 0 THEN st
     ELSE [st EXCEPT !.el[e] = RemAt(@, i),
                     !.A = IF a = 0 THEN @
                           ELSE [@ EXCEPT ![a].own = 0, ![a].v = v]]
Drop(st, e, n)  == DropV(st, e, n, Val(st, e, n))   \* through the map
Lose(st, e, n)  == DropV(st, e, n, NONE)            \* behind the map's back

Empty(v) == v \in {"", NONE}

SetStr(st, e, n, v) == IF Empty(v) THEN Drop(st, e, n) ELSE Put(st, e, n, v)

(* attributes[name] = attr, set_named_item(attr), set_attribute_node(attr) *)
SetNode(st, e, n, a) ==
  LET x == st.A[a] old == AttrOf(st, e, n)
  IN IF n # x.n THEN AErr(st, "ValueError")
     ELSE IF x.own # 0 /\ x.own # e THEN AErr(st, "InUseAttributeError")
     ELSE IF x.own = e THEN AOk(st, <<>>, old)
     ELSE IF Empty(x.v) THEN AOk(Drop(st, e, n), <<>>, old)
     ELSE LET s1 == IF old = 0 THEN st
                    ELSE [st EXCEPT !.A[old].own = 0, !.A[old].v = Val(st, e, n)]
              s2 == Put(s1, e, n, x.v)
              i  == Pos(s2, e, n)
          IN AOk([s2 EXCEPT !.el[e][i].a = a, !.A[a].own = e, !.A[a].v = NONE],
                 <<>>, old)

(* Attr.value = v                                                          *)
SetAttrValue(st, a, v) ==
  LET x == st.A[a]
  IN IF x.own = 0 THEN [st EXCEPT !.A[a].v = v]
     ELSE IF Empty(v) THEN Lose(st, x.own, x.n)
     ELSE Put(st, x.own, x.n, v)

(* ---- class tokens ------------------------------------------------------ *)
Tokens(st, e) == IF Pos(st, e, "class") = 0 THEN <<>>
                 ELSE Dedup(Words(Val(st, e, "class")), <<>>)
SetTokens(st, e, q) ==
  LET k == SelectSeq(q, LAMBDA t : t # "")
  IN IF k = <<>> THEN Lose(st, e, "class") ELSE Put(st, e, "class", Join(k, " "))
BadToken(t) == t = "" \/ HasWS(t)
BadTokens(q) == \E i \in 1 .. Len(q) : BadToken(q[i])
RECURSIVE AddAll(_, _, _)
AddAll(st, e, q) ==
  IF q = <<>> THEN st
  ELSE LET t == Tokens(st, e)
       IN AddAll(IF Has(t, Head(q)) THEN st ELSE SetTokens(st, e, Append(t, Head(q))),
                 e, Tail(q))
RECURSIVE RemoveAll(_, _, _)
RemoveAll(st, e, q) ==
  IF q = <<>> THEN st
  ELSE LET t == Tokens(st, e)
       IN RemoveAll(IF Has(t, Head(q)) THEN SetTokens(st, e, Without(t, Head(q)))
                    ELSE st, e, Tail(q))
NormIns(i, n) == LET k == IF i < 0 THEN n + i ELSE i       \* slice position
                 IN IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k
NormIx(i, n) == LET k == IF i < 0 THEN n + i ELSE i         \* 0: no such item
                IN IF k < 0 \/ k >= n THEN 0 ELSE k + 1
BoolS(b) == IF b THEN <<"True">> ELSE <<"False">>

TokenOp(st, op) ==
  LET e == op.e t == Tokens(st, e) x == op.ts n == Len(t)
  IN CASE op.f = "add" ->
            IF BadTokens(x) THEN AErr(st, "ValueError")
            ELSE AOk(AddAll(st, e, x), <<>>, 0)
       [] op.f = "remove" ->
            IF BadTokens(x) THEN AErr(st, "ValueError")
            ELSE AOk(RemoveAll(st, e, x), <<>>, 0)
       [] op.f = "insert" ->
            IF BadTokens(x) THEN AErr(st, "ValueError")
            ELSE IF Has(t, x[1]) THEN AOk(st, <<>>, 0)
            ELSE AOk(SetTokens(st, e, InsAt(t, NormIns(op.i, n) + 1, x[1])), <<>>, 0)
       [] op.f = "replace" ->
            IF BadTokens(x) THEN AErr(st, "ValueError")
            ELSE IF ~Has(t, x[1]) \/ Has(t, x[2]) THEN AOk(st, BoolS(FALSE), 0)
            ELSE AOk(SetTokens(st, e, [t EXCEPT ![Ix(t, x[1])] = x[2]]),
                     BoolS(TRUE), 0)
       [] op.f = "toggle" ->      \* op.i: -1 not given, 0 False, 1 True
            IF Has(t, x[1])
            THEN IF op.i = 1 THEN AOk(st, BoolS(TRUE), 0)
                 ELSE AOk(SetTokens(st, e, Without(t, x[1])), BoolS(FALSE), 0)
            ELSE IF op.i = 0 THEN AOk(st, BoolS(FALSE), 0)
            ELSE IF BadTokens(x) THEN AErr(st, "ValueError")
            ELSE AOk(AddAll(st, e, x), BoolS(TRUE), 0)
       [] op.f = "del" ->
            IF NormIx(op.i, n) = 0 THEN AErr(st, "IndexError")
            ELSE AOk(SetTokens(st, e, RemAt(t, NormIx(op.i, n))), <<>>, 0)
       [] op.f = "set" ->
            IF x[1] # "" /\ HasWS(x[1]) THEN AErr(st, "ValueError")
            ELSE IF x[1] # "" /\ Has(t, x[1]) THEN AOk(st, <<>>, 0)
            ELSE IF NormIx(op.i, n) = 0 THEN AErr(st, "IndexError")
            ELSE AOk(SetTokens(st, e, [t EXCEPT ![NormIx(op.i, n)] = x[1]]), <<>>, 0)
       [] op.f = "item" ->
            IF NormIx(op.i, n) = 0 THEN AErr(st, "IndexError")
            ELSE AOk(st, <<t[NormIx(op.i, n)]>>, 0)
       [] op.f = "contains" -> AOk(st, BoolS(Has(t, x[1])), 0)

(* ---- dataset ----------------------------------------------------------- *)
DP == "data-"
BadKey(k) == \E i \in 1 .. Len(k) - 1 : Ch(k, i) = "-" /\ Ch(k, i + 1) \in LowerSet
KeyName(k) == DP \o Str([i \in 1 .. Len(k) |->
                 IF Ch(k, i) \in UpperSet THEN "-" \o LowCh(Ch(k, i)) ELSE Ch(k, i)])
RECURSIVE NameKeyFrom(_, _)
NameKeyFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) = "-" /\ i < Len(s) /\ Ch(s, i + 1) \in LowerSet
       THEN ToUp[Ch(s, i + 1)] \o NameKeyFrom(s, i + 2)
       ELSE Ch(s, i) \o NameKeyFrom(s, i + 1)
NameKey(n) == NameKeyFrom(SubSeq(n, Len(DP) + 1, Len(n)), 1)
IsDataName(n) == Prefix(DP, n) /\ \A i \in 1 .. Len(n) : Ch(n, i) \notin UpperSet
DataNames(st, e) ==
  SelectSeq([i \in 1 .. Len(st.el[e]) |-> st.el[e][i].n], IsDataName)
DataKeys(st, e) == [i \in 1 .. Len(DataNames(st, e)) |-> NameKey(DataNames(st, e)[i])]

DataOp(st, op) ==
  LET e == op.e n == KeyName(op.k)
  IN IF BadKey(op.k) THEN AErr(st, "ValueError")
     ELSE CASE op.f = "get" -> IF Pos(st, e, n) = 0 THEN AErr(st, "KeyError")
                               ELSE AOk(st, <<Val(st, e, n)>>, 0)
            [] op.f = "set" -> IF ~Empty(op.v) /\ HasWS(op.k)
                               THEN AErr(st, "InvalidCharacterError")
                               ELSE AOk(SetStr(st, e, n, op.v), <<>>, 0)
            [] op.f = "del" -> IF Pos(st, e, n) = 0 THEN AErr(st, "KeyError")
                               ELSE AOk(Drop(st, e, n), <<>>, 0)
            [] op.f = "has" -> AOk(st, BoolS(Pos(st, e, n) # 0), 0)

Toggle(st, op) ==                \* op.i: -1 not given, 0 False, 1 True
  LET p == Pos(st, op.e, op.n) # 0
  IN IF p THEN IF op.i = 1 THEN AOk(st, BoolS(TRUE), 0)
               ELSE AOk(Drop(st, op.e, op.n), BoolS(FALSE), 0)
     ELSE IF op.i = 0 THEN AOk(st, BoolS(FALSE), 0)
     ELSE AOk(Put(st, op.e, op.n, ""), BoolS(TRUE), 0)

ItemAt(st, op) == LET i == NormIx(op.i, Len(st.el[op.e]))
                  IN AOk(st, <<>>, IF i = 0 THEN 0 ELSE st.el[op.e][i].a)

(* has: does the operation have a target                                   *)
RawStep(st, op) ==
  CASE op.name = "set_attribute" -> AOk(SetStr(st, op.e, op.n, op.v), <<>>, 0)
    [] op.name = "raw_set"  -> AOk(Put(st, op.e, op.n, op.v), <<>>, 0)
    [] op.name = "raw_del"  ->
         IF Pos(st, op.e, op.n) = 0 THEN AErr(st, "KeyError")
         ELSE AOk(Lose(st, op.e, op.n), <<>>, 0)
    [] op.name = "get_attribute" -> AOk(st, <<Val(st, op.e, op.n)>>, 0)
    [] op.name = "get_node" -> AOk(st, <<>>, AttrOf(st, op.e, op.n))
    [] op.name = "item"     -> ItemAt(st, op)
    [] op.name = "map_del"  ->
         IF Pos(st, op.e, op.n) = 0 THEN AErr(st, "KeyError")
         ELSE AOk(Drop(st, op.e, op.n), <<>>, 0)
    [] op.name = "remove_attribute" -> AOk(Drop(st, op.e, op.n), <<>>, 0)
    [] op.name = "remove_named" ->
         IF Pos(st, op.e, op.n) = 0 THEN AErr(st, "KeyError")
         ELSE AOk(Drop(st, op.e, op.n), <<>>, AttrOf(st, op.e, op.n))
    [] op.name = "remove_node" ->
         LET n == st.A[op.a].n
         IN IF Pos(st, op.e, n) = 0 THEN AErr(st, "KeyError")
            ELSE AOk(Drop(st, op.e, n), <<>>, AttrOf(st, op.e, n))
    [] op.name = "set_node" -> SetNode(st, op.e, st.A[op.a].n, op.a)
    [] op.name = "map_set_node" ->
         LET r == SetNode(st, op.e, op.n, op.a)
         IN [r EXCEPT !.out.a = 0]
    [] op.name = "toggle"   -> Toggle(st, op)
    [] op.name = "attr_value" -> AOk(SetAttrValue(st, op.a, op.v), <<>>, 0)
    [] op.name = "new_attr" ->
         AOk([st EXCEPT !.A = Append(@, [n |-> op.n, own |-> 0, v |-> op.v])],
             <<>>, Len(st.A) + 1)
    [] op.name = "token" -> TokenOp(st, op)
    [] op.name = "data"  -> DataOp(st, op)

AttrsStep(st, op) ==
  LET r == RawStep(st, op) IN [r EXCEPT !.st = Number(r.st, 1, 1)]

AttrsObs(st) ==
  [at |-> [e \in 1 .. Len(st.el) |->
             [i \in 1 .. Len(st.el[e]) |->
                <<st.el[e][i].n, st.el[e][i].v>>]],
   nodes |-> [e \in 1 .. Len(st.el) |->
             [i \in 1 .. Len(st.el[e]) |-> st.el[e][i].a]],
   attr |-> [a \in 1 .. Len(st.A) |->
             [n |-> st.A[a].n, own |-> st.A[a].own,
              v |-> IF st.A[a].own = 0 THEN st.A[a].v
                    ELSE Val(st, st.A[a].own, st.A[a].n)]],
   tokens |-> [e \in 1 .. Len(st.el) |-> Tokens(st, e)],
   data |-> [e \in 1 .. Len(st.el) |->
             [i \in 1 .. Len(DataKeys(st, e)) |->
                <<DataKeys(st, e)[i], Val(st, e, DataNames(st, e)[i])>>]]]

(* ---- properties of the model ------------------------------------------ *)
AttrsInv(st) ==
  /\ \A e \in 1 .. Len(st.el) :
       /\ \A i, j \in 1 .. Len(st.el[e]) : i # j => st.el[e][i].n # st.el[e][j].n
       /\ \A i \in 1 .. Len(st.el[e]) :
            LET a == st.el[e][i].a
            IN st.A[a].own = e /\ st.A[a].n = st.el[e][i].n
       /\ \A n \in {DataNames(st, e)[i] : i \in 1 .. Len(DataNames(st, e))} :
            BadKey(NameKey(n)) \/ KeyName(NameKey(n)) = n
       /\ LET t == Tokens(st, e)
          IN \A i, j \in 1 .. Len(t) : i # j => t[i] # t[j]
  /\ \A a \in 1 .. Len(st.A) : st.A[a].own # 0 =>
       AttrOf(st, st.A[a].own, st.A[a].n) = a
=============================================================================
