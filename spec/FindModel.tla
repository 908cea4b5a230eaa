----------------------------- MODULE FindModel -----------------------------
(* Every query after every short sequence of changes to a small tree.      *)
EXTENDS Find, ModelBase

FK(ns, name) == [ns |-> ns, name |-> name, prefix |-> IF ns = "html" THEN "html" ELSE ""]
FA(i, c, d) == [id |-> i, class |-> c, data |-> d]
FCh == <<<<6, 2, 3>>, <<7, 4>>, <<>>, <<5>>, <<>>, <<>>, <<>>>>
FindStarts ==
  {[kind |-> <<FK("svg", "svg"), FK("svg", "g"), FK("svg", "svg"), FK("svg", "symbol"),
               FK("svg", "rect"), FK("!", ""), FK("html", "video")>>,
    at |-> <<FA("a", NONE, NONE), FA("b", "a b", "v"), FA("a", " b  a", NONE),
             FA(NONE, "ab", "v-w"), FA("a", "a.b", "v w"), FA(NONE, NONE, NONE),
             FA("b", "b\ta", "")>>,
    ch |-> FCh, root |-> 1]}

CP(ns, t, cls, op, first) ==
  [comb |-> " ", ns |-> ns, type |-> t, id |-> "", cls |-> cls, nocls |-> <<>>,
   op |-> op, val |-> IF op = "" THEN "" ELSE "v", first |-> first]
Sels == {<<<<CP("svg", "svg", <<>>, "", ""), CP("", "", <<"a">>, "", "")>>>>,
         <<<<CP("", "", <<"a", "b">>, "", "")>>, <<CP("svg", "rect", <<>>, "", "")>>>>,
         <<<<CP("", "", <<>>, "~=", "")>>>>, <<<<CP("", "", <<>>, "|=", "")>>>>,
         <<<<CP("", "", <<>>, "", "first-child")>>>>,
         <<<<CP("svg", "g", <<>>, "", ""), [CP("", "", <<>>, "", "") EXCEPT !.comb = ">"]>>>>,
         <<<<CP("", "", <<>>, "", ""), [CP("", "", <<>>, "", "") EXCEPT !.comb = "+"]>>>>}

FE(s) == {n \in FN(s) : IsEl(s, n)}
FindQueries(s) ==
  {[name |-> "id", n |-> n, v |-> v] : n \in {0, 1, 3}, v \in {"a", "b"}}
  \cup {[name |-> "class", n |-> n, v |-> v] : n \in {0} \cup FE(s),
           v \in {"a", "a b", "a.b", "b a a", ""}}
  \cup {[name |-> "tag", n |-> n, v |-> v, names |-> <<>>] :
           n \in IF s.ch = FCh THEN {0, 1, 3, 4} ELSE {},   \* lxml may change prefixes of moved elements
           v \in {"*", "svg", "html:video", "video"}}
  \cup {[name |-> "tagns", n |-> n, ns |-> x, v |-> v] : n \in {0, 2, 3},
           x \in {"svg", "html", "*", NONE}, v \in {"*", "svg"}}
  \cup {[name |-> "local", n |-> n, v |-> "svg"] : n \in FE(s)}
  \cup {[name |-> "query", n |-> 0, sel |-> q] : q \in Sels}
  \cup {[name |-> "query1", n |-> 0, sel |-> q] : q \in Sels}
  \cup {[name |-> "owners", n |-> n] : n \in FE(s) \ {7}}
FindChanges(s) ==
  {[name |-> "move", p |-> p, n |-> n, b |-> b] :
     p \in FE(s), n \in FN(s) \ {s.root}, b \in {0} \cup FN(s)}
FindModelOps(s) ==
  FindQueries(s)
  \cup {m \in FindChanges(s) : /\ m.p # m.n /\ ~Has(Ancs(s, m.p), m.n)
                               /\ m.b # m.n /\ (m.b = 0 \/ Par(s, m.b) = m.p)}
  \cup {[name |-> "remove", n |-> n] : n \in {x \in FN(s) : Par(s, x) # 0}}
  \cup {[name |-> "set", n |-> n, a |-> "class", v |-> v] : n \in {3, 5}, v \in {NONE, "b a"}}
  \cup {[name |-> "set", n |-> n, a |-> "id", v |-> v] : n \in {2, 4}, v \in {"a", NONE}}
  \cup (IF s.root = 0 THEN {} ELSE {[name |-> "unroot"]})

FindModelInv == FindTree(st)
(* finding something never changes anything *)
QueryPure == [][last'.op.name \notin {"move", "remove", "set", "unroot"}
                => st' = st]_mvars
(* what is found by id, class or tag is in the scope and in document order *)
=============================================================================
