-------------------------------- MODULE Find --------------------------------
(***************************************************************************)
(* Finding elements: by id, class, tag name, namespace, selector; and the  *)
(* SVG elements that own an element.                                       *)
(*   kind[n]   [ns, name, prefix] of node n; ns = "!": a comment           *)
(*   at[n]     id, class, href, data-k of node n ("~none": absent)         *)
(*   ch[n]     the children of n in order;  root: the document element     *)
(***************************************************************************)
EXTENDS Text

NONE == "~none"
FOk(s, v)  == [st |-> s, out |-> [r |-> "ok", v |-> v]]

FindStart(s) == [kind |-> s.kind, at |-> s.at, ch |-> s.ch, root |-> s.root]

FN(s) == 1 .. Len(s.kind)
IsEl(s, n) == s.kind[n].ns # "!"
IsSvg(s, n, names) == s.kind[n].ns = "svg" /\ s.kind[n].name \in names

Par(s, n) == LET p == {q \in FN(s) : Has(s.ch[q], n)}
             IN IF p = {} THEN 0 ELSE CHOOSE q \in p : TRUE
RECURSIVE Ancs(_, _)
Ancs(s, n) == LET p == Par(s, n)                    \* nearest first
              IN IF p = 0 THEN <<>> ELSE <<p>> \o Ancs(s, p)
RECURSIVE Pre(_, _)
RECURSIVE PreAll(_, _, _)
PreAll(s, q, i) == IF i > Len(q) THEN <<>> ELSE Pre(s, q[i]) \o PreAll(s, q, i + 1)
Pre(s, n) == <<n>> \o PreAll(s, s.ch[n], 1)         \* document order, self first
Els(s, n) == SelectSeq(Pre(s, n), LAMBDA x : IsEl(s, x))

(* scope 0: the document                                                   *)
DescSelf(s, n) == IF n = 0 THEN IF s.root = 0 THEN <<>> ELSE Els(s, s.root)
                  ELSE Els(s, n)
Desc(s, n) == SelectSeq(Els(s, n), LAMBDA x : x # n)
(* The document and 'svg' elements find themselves, other elements do not. *)
Scope(s, n) == IF n = 0 \/ IsSvg(s, n, {"svg"}) THEN DescSelf(s, n) ELSE Desc(s, n)

Classes(s, n) == IF s.at[n].class = NONE THEN {}
                 ELSE LET w == Words(s.at[n].class) IN {w[i] : i \in 1 .. Len(w)}

TagName(s, n) == IF s.kind[n].prefix = "" THEN s.kind[n].name
                 ELSE s.kind[n].prefix \o ":" \o s.kind[n].name

(* ---- selectors ---------------------------------------------------------- *)
(* A list of complex selectors; each a list of [comb, ns, type, id, cls,    *)
(* attr, val, first], comb the combinator before it.                        *)
ElSib(s, n) == LET p == Par(s, n)
               IN IF p = 0 THEN <<n>> ELSE SelectSeq(s.ch[p], LAMBDA x : IsEl(s, x))
Compound(s, n, c) ==
  /\ c.type # "" => (s.kind[n].name = c.type /\ c.ns \in {"*", s.kind[n].ns})
  /\ c.id # "" => s.at[n].id = c.id
  /\ \A i \in 1 .. Len(c.cls) : c.cls[i] \in Classes(s, n)
  /\ \A i \in 1 .. Len(c.nocls) : c.nocls[i] \notin Classes(s, n)
  /\ c.op # "" =>
       LET v == s.at[n].data
       IN /\ v # NONE
          /\ CASE c.op = "[]" -> TRUE
               [] c.op = "="  -> v = c.val
               [] c.op = "^=" -> c.val # "" /\ Prefix(c.val, v)
               [] c.op = "~=" -> Has(Words(v), c.val)
               [] c.op = "|=" -> v = c.val \/ Prefix(c.val \o "-", v)
  /\ c.first = "first-child" => ElSib(s, n)[1] = n
  /\ c.first = "last-child"  => ElSib(s, n)[Len(ElSib(s, n))] = n
  /\ c.first = "empty" => \A i \in 1 .. Len(s.ch[n]) : ~IsEl(s, s.ch[n][i])

RECURSIVE Complex(_, _, _, _)
Complex(s, n, q, k) ==                    \* the first k compounds end in n
  /\ Compound(s, n, q[k])
  /\ k = 1 \/
     LET es == ElSib(s, n) i == Ix(es, n) a == Ancs(s, n)
         cand == CASE q[k].comb = " " -> {a[j] : j \in 1 .. Len(a)}
                   [] q[k].comb = ">" -> IF a = <<>> THEN {} ELSE {a[1]}
                   [] q[k].comb = "+" -> IF i = 1 THEN {} ELSE {es[i - 1]}
                   [] q[k].comb = "~" -> {es[j] : j \in 1 .. i - 1}
     IN \E m \in cand : Complex(s, m, q, k - 1)
Matches(s, n, sel) == \E i \in 1 .. Len(sel) : Complex(s, n, sel[i], Len(sel[i]))

(* ---- the SVG elements that own an element -------------------------------- *)
Nearest(s, q, names) ==
  LET k == SelectSeq(q, LAMBDA x : IsSvg(s, x, names))
  IN IF k = <<>> THEN 0 ELSE k[1]
Farthest(s, q, names) ==
  LET k == SelectSeq(q, LAMBDA x : IsSvg(s, x, names))
  IN IF k = <<>> THEN 0 ELSE k[Len(k)]
Owners(s, n) ==
  LET up == <<n>> \o Ancs(s, n) a == Ancs(s, n)
      outer == Farthest(s, up, {"svg"}) = n
  IN << IF outer THEN 0 ELSE Nearest(s, a, {"svg"}),
        IF outer THEN 0 ELSE Nearest(s, a, {"svg", "symbol"}),
        Nearest(s, up, {"svg"}), Farthest(s, up, {"svg"}),
        Nearest(s, up, {"svg", "symbol"}), Farthest(s, up, {"svg", "symbol"}) >>

FirstOf(q) == IF q = <<>> THEN <<0>> ELSE <<q[1]>>

FindStep(s, op) ==
  LET n == op.name
  IN CASE n = "set" -> FOk([s EXCEPT !.at[op.n][op.a] = op.v], <<>>)
       [] n = "move" ->                        \* op.b: before this child or 0
            LET t == [s EXCEPT !.ch = [q \in FN(s) |-> Without(s.ch[q], op.n)]]
                i == IF op.b = 0 THEN Len(t.ch[op.p]) + 1 ELSE Ix(t.ch[op.p], op.b)
            IN FOk([t EXCEPT !.ch[op.p] = InsAt(@, i, op.n)], <<>>)
       [] n = "remove" ->
            FOk([s EXCEPT !.ch = [q \in FN(s) |-> Without(s.ch[q], op.n)]], <<>>)
       [] n = "unroot" -> FOk([s EXCEPT !.root = 0], <<>>)
       [] n = "root"   -> FOk([s EXCEPT !.root = op.n], <<>>)
       [] n = "id" ->
            FOk(s, FirstOf(SelectSeq(DescSelf(s, op.n),
                                     LAMBDA x : s.at[x].id = op.v)))
       [] n = "class" ->
            LET w == Words(op.v)
            IN FOk(s, IF w = <<>> THEN <<>>
                      ELSE SelectSeq(Scope(s, op.n), LAMBDA x :
                             \A i \in 1 .. Len(w) : w[i] \in Classes(s, x)))
       [] n = "tag" ->
            FOk(s, SelectSeq(Scope(s, op.n), LAMBDA x :
                             op.v \in {"*", IF op.names = <<>> THEN TagName(s, x)
                                           ELSE op.names[x]}))
       [] n = "tagns" ->
            FOk(s, SelectSeq(Scope(s, op.n), LAMBDA x :
                     /\ op.ns \in {"*", NONE, s.kind[x].ns}
                     /\ op.v \in {"*", s.kind[x].name}))
       [] n = "local" ->
            FOk(s, SelectSeq(Desc(s, op.n), LAMBDA x : s.kind[x].name = op.v))
       [] n = "query" ->
            FOk(s, SelectSeq(IF op.n = 0 THEN DescSelf(s, 0) ELSE Desc(s, op.n),
                             LAMBDA x : Matches(s, x, op.sel)))
       [] n = "query1" ->
            FOk(s, FirstOf(SelectSeq(DescSelf(s, 0),
                             LAMBDA x : Matches(s, x, op.sel))))
       [] n = "owners" -> FOk(s, Owners(s, op.n))

(* What of the state is observed: the tree as the children lists show it.  *)
FindObs(s) == [ch |-> s.ch, root |-> s.root]

(* ---- properties of the model ---------------------------------------------- *)
FindTree(s) ==      \* one place for every node, no cycles
  /\ \A n \in FN(s) : Cardinality({p \in FN(s) : Has(s.ch[p], n)}) <= 1
  /\ \A n \in FN(s) : ~Has(Ancs(s, n), n)
=============================================================================
