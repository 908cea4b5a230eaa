------------------------------ MODULE DomModel ------------------------------
(***************************************************************************)
(* Every tree reachable with a few nodes and one or two documents, by every*)
(* operation in every argument position.                                   *)
(***************************************************************************)
EXTENDS Dom, ModelBase

DomStarts == {[kind |-> <<"e", "e", "e", "c">>, own |-> <<1, 0, 1, 1>>, ndocs |-> 1]}
DomStartsBig == DomStarts \cup
             {[kind |-> <<"e", "e", "e", "e", "c">>, own |-> <<1, 1, 0, 1, 1>>, ndocs |-> 1],
              [kind |-> <<"e", "e", "c", "p">>, own |-> <<1, 0, 1, 2>>, ndocs |-> 2]}

Docs(s) == {-d : d \in 1 .. Len(s.dch)}
Roots(s) == {RootOf(s, d) : d \in 1 .. Len(s.dch)} \ {0}
It(n) == [n |-> n, s |-> ""]
Str(x) == [n |-> 0, s |-> x]

DomOps(s) ==
  LET mv  == Node(s) \ Roots(s)
      par == Elem(s) \cup Docs(s)
      odd == Len(s.kind) + 1
  IN {[name |-> nm, p |-> p, items |-> <<It(n)>>] :
        nm \in {"append", "prepend", "extend_iter"}, p \in par, n \in mv \cup {odd}}
     \cup {[name |-> "prepend", p |-> p, items |-> <<It(a), It(b)>>] :
             p \in Elem(s), a \in mv \ {1}, b \in mv \ {1}}
     \cup {[name |-> "insert", p |-> p, i |-> i, n |-> n] :
             p \in Elem(s), i \in {-1, 0, 1}, n \in mv}
     \cup {[name |-> "insert_before", p |-> p, n |-> n, c |-> c] :
             p \in par, n \in mv \cup {odd}, c \in Node(s) \cup {0}}
     \cup {[name |-> "remove", p |-> p, n |-> n] : p \in par, n \in Node(s)}
     \cup {[name |-> "replace", p |-> p, n |-> n, c |-> c] :
             p \in par, n \in mv, c \in Node(s)}
     \cup {[name |-> nm, c |-> c, n |-> n] :
             nm \in {"addnext", "addprevious"}, c \in Node(s), n \in mv \cup {odd}}

(* Operations whose effect the specification leaves open (see DESIGN.md).  *)
Explored(s, op) ==
  /\ op.name \in {"addnext", "addprevious"} =>
       Parent(s, op.c) # 0 /\ op.n # op.c
  /\ op.name = "insert" /\ op.i < 0 => Len(s.ch[op.p]) >= -op.i
  /\ op.name = "prepend" /\ Len(op.items) = 2 =>
       /\ op.items[1].n # op.items[2].n
       /\ \A i \in 1 .. 2 : op.items[i].n \notin Ancestors(s, op.p)
  /\ op.name = "remove" /\ op.p < 0 /\ op.n = RootOf(s, -op.p) =>
       Len(s.dch[-op.p]) = 1
  /\ op.name = "replace" /\ op.p < 0 /\ op.c = RootOf(s, -op.p) =>
       Len(s.dch[-op.p]) = 1 /\ s.kind[op.n] = "e"

DomModelOps(s) == {op \in DomOps(s) : Explored(s, op)}

TreeInv  == Tree(st)
OwnedInv == Owned(st)
(* A refused operation changes nothing. *)
RefusedUnchanged == [][last'.out.r # "ok" => st' = st]_mvars
(* Nothing is lost: only removals and replacements take a node out.        *)
KeepsPlace == [][\A n \in Node(st) :
                   Parent(st, n) # 0 /\ Parent(st', n) = 0
                     => \/ last'.op.name = "remove" /\ last'.op.n = n
                        \/ last'.op.name = "replace" /\ last'.op.c = n]_mvars
=============================================================================
