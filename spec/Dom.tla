-------------------------------- MODULE Dom --------------------------------
(***************************************************************************)
(* The document/element tree: which node is whose child, in what order,    *)
(* what text stands where, and which document owns a node.                 *)
(*                                                                         *)
(* Nodes are 1..N; kind[n] is "e" (element), "c" (comment), "p" (processing*)
(* instruction). Documents are written as negative numbers (-1 is document *)
(* 1). Node id 0 stands for None; ids > N stand for objects that are not   *)
(* insertable nodes (an attribute, a document).                            *)
(*   ch[n]   children of n, in order          dch[d] children of document  *)
(*   text[n] text before n's first child      tail[n] text following n     *)
(*   own[n]  document recorded at n (0 none)                               *)
(* Text that follows a node travels with it.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Node(st) == 1 .. Len(st.kind)
Elem(st) == {n \in Node(st) : st.kind[n] = "e"}

DomStart(s) ==
  [kind |-> s.kind,
   ch   |-> [n \in 1 .. Len(s.kind) |-> <<>>],
   text |-> [n \in 1 .. Len(s.kind) |-> ""],
   tail |-> [n \in 1 .. Len(s.kind) |-> ""],
   own  |-> s.own,
   dch  |-> [d \in 1 .. s.ndocs |-> <<>>]]

Has(s, x) == \E i \in 1 .. Len(s) : s[i] = x
Ix(s, x)  == CHOOSE i \in 1 .. Len(s) : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
InsAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

(* Parent: a node, a document (negative) or 0. *)
Parent(st, n) ==
  IF \E p \in Elem(st) : Has(st.ch[p], n)
  THEN CHOOSE p \in Elem(st) : Has(st.ch[p], n)
  ELSE IF \E d \in 1 .. Len(st.dch) : Has(st.dch[d], n)
  THEN -(CHOOSE d \in 1 .. Len(st.dch) : Has(st.dch[d], n))
  ELSE 0

RECURSIVE Subtree(_, _)
Subtree(st, n) ==
  {n} \cup UNION {Subtree(st, c) : c \in {st.ch[n][i] : i \in 1 .. Len(st.ch[n])}}

RECURSIVE Ancestors(_, _)
Ancestors(st, n) ==
  IF n <= 0 THEN {} ELSE {n} \cup Ancestors(st, Parent(st, n))

ChildrenOf(st, p) == IF p < 0 THEN st.dch[-p] ELSE st.ch[p]

RootOf(st, d) ==                 \* the document element, 0 if there is none
  LET es == SelectSeq(st.dch[d], LAMBDA n : st.kind[n] = "e")
  IN IF es = <<>> THEN 0 ELSE es[1]

(* The document that owns a node: recorded at it, or at its nearest        *)
(* ancestor that has one.                                                  *)
RECURSIVE Owner(_, _)
Owner(st, n) ==
  IF n < 0 THEN -n
  ELSE IF n = 0 THEN 0
  ELSE IF st.own[n] # 0 THEN st.own[n]
  ELSE LET p == Parent(st, n) IN IF p <= 0 THEN 0 ELSE Owner(st, p)

Adopt(st, n, d) ==
  IF d = 0 THEN st
  ELSE LET s == Subtree(st, n)
       IN [st EXCEPT !.own = [m \in Node(st) |-> IF m \in s THEN d ELSE st.own[m]]]

Detach(st, n) ==
  LET p == Parent(st, n)
  IN IF p = 0 THEN st
     ELSE IF p > 0 THEN [st EXCEPT !.ch[p] = Without(@, n)]
     ELSE [st EXCEPT !.dch[-p] = Without(@, n)]

(* n becomes a child of p, directly before r (r = 0: at the end), and takes *)
(* over document o.                                                        *)
PlaceBy(st, n, p, r, o) ==
  LET s1 == Detach(st, n)
      s2 == Adopt(s1, n, o)
      put(s) == IF r = 0 THEN Append(s, n) ELSE InsAt(s, Ix(s, r), n)
  IN IF r = n THEN Adopt(st, n, o)
     ELSE IF p > 0 THEN [s2 EXCEPT !.ch[p] = put(@)]
     ELSE [s2 EXCEPT !.dch[-p] = put(@), !.tail[n] = ""]

Place(st, n, p, r) == PlaceBy(st, n, p, r, Owner(st, p))
(* Placed relative to a sibling: the sibling's document counts.             *)
PlaceRef(st, n, p, r) == PlaceBy(st, n, p, r, Owner(st, IF r = 0 THEN p ELSE r))

Ok(st)       == [st |-> st, out |-> [r |-> "ok"]]
Fail(st, e)  == [st |-> st, out |-> [r |-> e]]
HRE == "HierarchyRequestError"
NFE == "NotFoundError"
REF == "refused"

Insertable(st, n) == n \in Node(st)
HasChildren(st, p) == p < 0 \/ (p > 0 /\ st.kind[p] = "e")

(* May n be placed in p?  "" or the refusal. *)
Refusal(st, n, p, r) ==
  IF ~HasChildren(st, p) THEN HRE
  ELSE IF r # 0 /\ ~Has(ChildrenOf(st, p), r) THEN NFE
  ELSE IF ~Insertable(st, n) THEN HRE
  ELSE IF p > 0 /\ n \in Ancestors(st, p) THEN REF
  ELSE IF p < 0 /\ RootOf(st, -p) = 0 /\ st.kind[n] # "e" THEN HRE
  ELSE IF p < 0 /\ RootOf(st, -p) # 0 /\ st.kind[n] = "e" /\ n # RootOf(st, -p)
       THEN REF
  ELSE ""

(* The node that ends up following: insertion before r when r is the moved *)
(* node itself means before the node after it.                             *)
NextSib(st, n) ==
  LET p == Parent(st, n)
  IN IF p = 0 THEN 0
     ELSE LET s == ChildrenOf(st, p)
              i == Ix(s, n)
          IN IF i < Len(s) THEN s[i + 1] ELSE 0
PrevSib(st, n) ==
  LET p == Parent(st, n)
  IN IF p = 0 THEN 0
     ELSE LET s == ChildrenOf(st, p)
              i == Ix(s, n)
          IN IF i > 1 THEN s[i - 1] ELSE 0

InsertBefore(st, p, n, r) ==
  LET e == Refusal(st, n, p, r)
      ref == IF r = n THEN NextSib(st, n) ELSE r
  IN IF e # "" THEN Fail(st, e)
     ELSE IF p < 0 /\ n = RootOf(st, -p)
          THEN IF ref = 0 THEN Ok(st) ELSE Fail(st, REF)
     ELSE Ok(PlaceRef(st, n, p, ref))

(* ---- append / prepend: several nodes and strings ---------------------- *)
AddText(st, p, t, s) ==          \* t = 0: the text of p, else the tail of t
  IF s = "" THEN st
  ELSE IF t = 0 THEN [st EXCEPT !.text[p] = @ \o s]
  ELSE [st EXCEPT !.tail[t] = @ \o s]

Nodes(items) == {items[i].n : i \in {j \in 1 .. Len(items) : items[j].n # 0}}

LastNotIn(s, X) ==
  LET k == {i \in 1 .. Len(s) : s[i] \notin X}
  IN IF k = {} THEN 0 ELSE s[CHOOSE i \in k : \A j \in k : j <= i]
FirstNotIn(s, X) ==
  LET k == {i \in 1 .. Len(s) : s[i] \notin X}
  IN IF k = {} THEN 0 ELSE s[CHOOSE i \in k : \A j \in k : i <= j]

RECURSIVE AppendItems(_, _, _, _)
AppendItems(st, p, items, t) ==
  IF items = <<>> THEN st
  ELSE LET it == Head(items)
       IN IF it.n = 0
          THEN AppendItems(AddText(st, p, t, it.s), p, Tail(items), t)
          ELSE AppendItems(Place(st, it.n, p, 0), p, Tail(items), it.n)

(* Strings before the first node join the front of p's text, strings after *)
(* a node follow it (before the text it brought along), and p's old text   *)
(* ends up after everything that was prepended.                            *)
RECURSIVE Lead(_)
Lead(items) == IF items = <<>> \/ Head(items).n # 0 THEN ""
               ELSE Head(items).s \o Lead(Tail(items))

RECURSIVE PrependItems(_, _, _, _, _)
PrependItems(st, p, items, f, t) ==   \* t: last node placed; <<st, t>>
  IF items = <<>> THEN [st |-> st, t |-> t]
  ELSE LET it == Head(items)
       IN IF it.n = 0
          THEN IF t = 0 THEN PrependItems(st, p, Tail(items), f, t)
               ELSE LET run == Lead(items)
                        k == CHOOSE j \in 1 .. Len(items) :
                               /\ \A i \in 1 .. j : items[i].n = 0
                               /\ (j = Len(items) \/ items[j + 1].n # 0)
                    IN PrependItems([st EXCEPT !.tail[t] = run \o @], p,
                                    SubSeq(items, k + 1, Len(items)), f, t)
          ELSE PrependItems(PlaceRef(st, it.n, p, f), p, Tail(items), f, it.n)

FirstRefusal(st, p, items) ==
  LET bad == {i \in 1 .. Len(items) : items[i].n # 0
                 /\ Refusal(st, items[i].n, p, 0) # ""}
      strs == {i \in 1 .. Len(items) : p < 0 /\ items[i].n = 0}
      all == bad \cup strs
      m == CHOOSE i \in all : \A j \in all : i <= j
  IN IF all = {} THEN ""
     ELSE IF m \in strs THEN HRE ELSE Refusal(st, items[m].n, p, 0)

(* A document with a document element: the element stays where it is. *)
DocAppend(st, p, n) ==
  IF n = RootOf(st, -p) THEN st ELSE Place(st, n, p, 0)

AppendOp(st, p, items) ==
  LET e == FirstRefusal(st, p, items)
  IN IF ~HasChildren(st, p) THEN Fail(st, HRE)
     ELSE IF e # "" THEN Fail(st, e)
     ELSE IF p < 0
     THEN Ok(FoldSeq(LAMBDA it, s : DocAppend(s, p, it.n), st, items))
     ELSE Ok(AppendItems(st, p, items, LastNotIn(st.ch[p], Nodes(items))))

PrependOp(st, p, items) ==
  LET e == FirstRefusal(st, p, items)
  IN IF ~HasChildren(st, p) THEN Fail(st, HRE)
     ELSE IF e # "" THEN Fail(st, e)
     ELSE IF p < 0
     THEN LET n == items[1].n
              f == IF st.dch[-p] = <<>> THEN 0 ELSE st.dch[-p][1]
          IN IF n = RootOf(st, -p) THEN Ok(st) ELSE Ok(Place(st, n, p, f))
     ELSE LET f == FirstNotIn(st.ch[p], Nodes(items))
              old == st.text[p]
              r == PrependItems([st EXCEPT !.text[p] = Lead(items)],
                                p, items, f, 0)
          IN Ok(AddText(r.st, p, r.t, old))

InsertOp(st, p, i, n) ==         \* i: 0-based, may be negative
  IF p < 0
  THEN LET s == st.dch[-p]
           k == IF i < 0 THEN Len(s) + i + 1 ELSE i + 1
           e == Refusal(st, n, p, 0)
       IN IF s = <<>> THEN AppendOp(st, p, <<[n |-> n, s |-> ""]>>)
          ELSE IF e # "" THEN Fail(st, e)
          ELSE IF n = RootOf(st, -p) THEN Ok(st)
          ELSE Ok(Place(st, n, p, s[k]))
  ELSE LET e == Refusal(st, n, p, 0)
       IN IF e # "" THEN Fail(st, e)
          ELSE LET s == st.ch[p]
                   k == IF i < 0 THEN Len(s) + i + 1 ELSE i + 1
               IN IF k > Len(s) THEN Ok(Place(st, n, p, 0))
                  ELSE Ok(Place(st, n, p, s[k]))

RemoveOp(st, p, n) ==
  IF ~HasChildren(st, p) THEN Fail(st, HRE)
  ELSE IF ~Has(ChildrenOf(st, p), n) THEN Fail(st, NFE)
  ELSE Ok(Detach(st, n))

ReplaceOp(st, p, o, n) ==
  IF ~HasChildren(st, p) THEN Fail(st, HRE)
  ELSE IF ~Has(ChildrenOf(st, p), o) THEN Fail(st, NFE)
  ELSE IF ~Insertable(st, n) THEN Fail(st, HRE)
  ELSE IF p > 0 /\ n \in Ancestors(st, p) THEN Fail(st, REF)
  ELSE IF p < 0 /\ o = RootOf(st, -p) /\ st.kind[n] # "e" THEN Fail(st, HRE)
  ELSE IF p < 0 /\ o # RootOf(st, -p) /\ st.kind[n] = "e" THEN Fail(st, REF)
  ELSE IF n = o THEN Ok(Adopt(st, n, Owner(st, p)))
  ELSE Ok(Detach(Place(st, n, p, o), o))

(* addnext / addprevious: only explored where s has a parent. *)
Beside(st, s, n, after) ==
  LET p == Parent(st, s)
      e == Refusal(st, n, p, 0)
      ref == IF after THEN NextSib(Detach(st, n), s) ELSE s
  IN IF ~Insertable(st, n) THEN Fail(st, HRE)
     ELSE IF n = s THEN Fail(st, REF)
     ELSE IF e # "" THEN Fail(st, e)
     ELSE IF p < 0 /\ n = RootOf(st, -p) THEN Fail(st, REF)
     ELSE Ok(PlaceBy(st, n, p, ref, Owner(st, s)))

ExtendOp(st, p, ns) ==
  AppendOp(st, p, [i \in 1 .. Len(ns) |-> [n |-> ns[i], s |-> ""]])

DomStep(st, op) ==
  CASE op.name \in {"append", "append_child", "extend", "extend_iter"} ->
         AppendOp(st, op.p, op.items)
    [] op.name = "prepend" -> PrependOp(st, op.p, op.items)
    [] op.name = "insert"  -> InsertOp(st, op.p, op.i, op.n)
    [] op.name = "insert_before" -> InsertBefore(st, op.p, op.n, op.c)
    [] op.name \in {"remove", "remove_child"} -> RemoveOp(st, op.p, op.n)
    [] op.name = "remove_self" -> Ok(IF Parent(st, op.n) > 0 THEN Detach(st, op.n) ELSE st)
    [] op.name \in {"replace", "replace_child"} -> ReplaceOp(st, op.p, op.c, op.n)
    [] op.name = "addnext" -> Beside(st, op.c, op.n, TRUE)
    [] op.name = "addprevious" -> Beside(st, op.c, op.n, FALSE)
    [] op.name = "set_text_content" ->
         Ok([st EXCEPT !.ch[op.p] = <<>>, !.text[op.p] = op.s])
    [] op.name = "set_text" -> Ok([st EXCEPT !.text[op.p] = op.s])
    [] op.name = "set_tail" -> Ok([st EXCEPT !.tail[op.n] = op.s])

(* ---- what the API shows ----------------------------------------------- *)
FirstOf(s) == IF s = <<>> THEN 0 ELSE s[1]
LastOf(s)  == IF s = <<>> THEN 0 ELSE s[Len(s)]
ElemsOf(st, s) == SelectSeq(s, LAMBDA n : st.kind[n] = "e")

(* A node outside every parent has no siblings; the siblings of a document *)
(* child are the other document children.                                  *)
SibsOf(st, n) == LET p == Parent(st, n)
                 IN IF p = 0 THEN <<n>> ELSE ChildrenOf(st, p)
NextElem(st, n) ==
  LET s == SibsOf(st, n)
  IN FirstOf(ElemsOf(st, SubSeq(s, Ix(s, n) + 1, Len(s))))
PrevElem(st, n) ==
  LET s == SibsOf(st, n)
  IN LastOf(ElemsOf(st, SubSeq(s, 1, Ix(s, n) - 1)))

RECURSIVE Preorder(_, _)
Preorder(st, n) == <<n>> \o FlattenSeq([i \in 1 .. Len(st.ch[n]) |->
                                          Preorder(st, st.ch[n][i])])

DomObs(st) ==
  [ch   |-> st.ch, dch |-> st.dch, text |-> st.text, tail |-> st.tail,
   own  |-> [n \in Node(st) |-> Owner(st, n)],
   nav  |-> [n \in Node(st) |->
              LET p == Parent(st, n)
              IN <<IF p < 0 THEN 0 ELSE p, PrevSib(st, n), NextSib(st, n),
                   PrevElem(st, n), NextElem(st, n)>>],
   kids |-> [n \in Node(st) |->
              IF st.kind[n] # "e" THEN <<0, 0, 0, 0, 0>>
              ELSE LET s == st.ch[n] e == ElemsOf(st, s)
                   IN <<FirstOf(s), LastOf(s), FirstOf(e), LastOf(e), Len(e)>>],
   dkids |-> [d \in 1 .. Len(st.dch) |->
              LET s == st.dch[d]
              IN <<RootOf(st, d), FirstOf(s), LastOf(s), Len(ElemsOf(st, s))>>],
   order |-> [d \in 1 .. Len(st.dch) |->
              FlattenSeq([i \in 1 .. Len(st.dch[d]) |-> Preorder(st, st.dch[d][i])])]]

(* ---- properties of the model ------------------------------------------ *)
Tree(st) ==
  /\ \A n \in Node(st) :       \* at most one place for every node
       Cardinality({<<p, i>> \in Elem(st) \X (1 .. Cardinality(Node(st))) :
                      i <= Len(st.ch[p]) /\ st.ch[p][i] = n})
       + Cardinality({<<d, i>> \in (1 .. Len(st.dch)) \X (1 .. Cardinality(Node(st))) :
                      i <= Len(st.dch[d]) /\ st.dch[d][i] = n}) <= 1
  /\ \A n \in Node(st) : st.kind[n] # "e" => st.ch[n] = <<>>
  /\ \A n \in Node(st) :       \* no cycles
       \A c \in {st.ch[n][i] : i \in 1 .. Len(st.ch[n])} : n \notin Subtree(st, c)
  /\ \A d \in 1 .. Len(st.dch) :
       /\ st.dch[d] # <<>> => RootOf(st, d) # 0
       /\ Len(ElemsOf(st, st.dch[d])) <= 1
Owned(st) ==                   \* whatever is in a document is owned by it
  \A d \in 1 .. Len(st.dch) : \A i \in 1 .. Len(st.dch[d]) :
    \A n \in Subtree(st, st.dch[d][i]) : Owner(st, n) = d
=============================================================================
