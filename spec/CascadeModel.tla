--------------------------- MODULE CascadeModel ---------------------------
(* Every short history of changes of declarations, of a style sheet and of *)
(* the tree of a small document.                                           *)
EXTENDS Cascade, ModelBase

CK(ns, name) == [ns |-> ns, name |-> name, prefix |-> ""]
CA(i, c) == [id |-> i, class |-> c, data |-> NONE]
Simple(comb, t, id, cls) ==
  [comb |-> comb, ns |-> "", type |-> t, id |-> id, cls |-> cls, nocls |-> <<>>, op |-> "", val |-> "", first |-> ""]
Sel(k) == CASE k = "any" -> <<Simple(" ", "", "", <<>>)>>
            [] k = "type" -> <<Simple(" ", "rect", "", <<>>)>>
            [] k = "class" -> <<Simple(" ", "", "", <<"a">>)>>
            [] k = "id" -> <<Simple(" ", "", "b", <<>>)>>
            [] k = "child" -> <<Simple(" ", "svg", "", <<>>), Simple(">", "", "", <<>>)>>
            [] k = "none" -> <<Simple(" ", "nothing", "", <<>>)>>
Rule(k, d) == [k |-> "style", sel |-> <<Sel(k)>>, ds |-> <<d>>, mq |-> "", q |-> <<>>]
In(k, m, q) == [k |-> k, sel |-> <<>>, ds |-> <<>>, mq |-> m, q |-> q]
D(p, v, i) == <<p, v, i>>
Css(ok, m, q) == [ok |-> ok, mq |-> m, dn |-> NONE, q |-> q]
Off == Css(TRUE, "", <<>>)

MProps == {"fill", "opacity", "display", "overflow", "stroke"}
Of(w, c) ==
  [kind |-> <<CK("svg", "svg"), CK("svg", "style"), CK("svg", "g"), CK("svg", "rect"), CK("svg", "symbol")>>,
    at |-> <<CA(NONE, NONE), CA(NONE, NONE), CA("a", NONE), CA("b", "a"), CA(NONE, "a b")>>,
    ch |-> <<<<2, 3, 5>>, <<>>, <<4>>, <<>>, <<>>>>, root |-> 1,
    pa |-> <<<<>>, <<>>, << <<"fill", "blue">> >>, <<>>, <<>>>>, il |-> <<<<>>, <<>>, <<>>, <<>>, <<>>>>,
    css |-> <<Off, c, Off, Off, Off>>, pis |-> <<>>, wide |-> w, props |-> <<"fill", "opacity", "display", "overflow", "stroke">>]
Two(x, i, y) == Css(TRUE, "", <<Rule(x, D("fill", "red", i)), Rule(y, D("fill", "none", ""))>>)
Within(m, y) == Css(TRUE, "", <<In("media", m, <<Rule("any", D("fill", "red", ""))>>), Rule(y, D("opacity", "0", ""))>>)
Kinds == {"any", "type", "class", "id", "child", "none"}
CascadeStarts == {Of(TRUE, Two("any", "", y)) : y \in Kinds} \cup {Of(TRUE, Two(x, "", "type")) : x \in Kinds}
                 \cup {Of(TRUE, Two(x, "important", "id")) : x \in {"any", "type", "child"}}
                 \cup {Of(w, Within(m, "type")) : w \in BOOLEAN, m \in {"wide", "print"}}
AllStarts == {Of(TRUE, Two(x, i, y)) : x, y \in Kinds, i \in {"", "important"}}
             \cup {Of(w, Within(m, y)) : w \in BOOLEAN, m \in {"wide", "print"}, y \in {"type", "child"}}
DeepStarts == {Of(TRUE, Two("any", "important", "type")), Of(TRUE, Two("class", "", "child")), Of(FALSE, Within("wide", "type"))}

Ds == {<< <<"fill", "red", "">> >>, << <<"fill", "inherit", "">> >>, << <<"opacity", "inherit", "important">> >>, <<>>}
CascadeOps(s) ==
  {[name |-> "inline", n |-> n, q |-> q] : n \in {3, 4}, q \in Ds}
  \cup {[name |-> "attr", n |-> n, q |-> q] : n \in {1, 4},
          q \in {<< <<"fill", "white">> >>, << <<"display", "none">>, <<"fill", "initial">> >>, <<>>}}
  \cup {[name |-> "window", w |-> w] : w \in BOOLEAN}
  \cup {[name |-> "set", n |-> 3, a |-> a, v |-> v] : a \in {"class", "id"}, v \in {"b", NONE}}
  \cup {[name |-> "move", p |-> 5, n |-> 4, b |-> 0]}
  \cup (IF Par(s, 2) = 0 THEN {} ELSE {[name |-> "remove", n |-> 2]})

(* What has to hold of a state: no keyword is left as a value; a declaration *)
(* of the style attribute is the value, unless an important one of a rule is.*)
ModelSound ==
  LET v == Values(st, MProps)
  IN /\ \A p \in MProps : \A n \in FN(st) :
          Shown(st, n) => v[p][n] \notin {"inherit", "initial", "unset", ""}
     /\ \A n \in {m \in FN(st) : Shown(st, m) /\ st.il[m] # <<>>} :
          LET rs == Rules(st, n)
          IN \A i \in 1 .. Len(st.il[n]) :
               LET d == st.il[n][i]
               IN \/ d[2] \in {"inherit", "initial", "unset"}
                  \/ v[d[1]][n] = d[2]
                  \/ d[1] = "display" /\ v[d[1]][n] = "none"
                  \/ d[3] = "" /\ \E k \in 1 .. Len(rs) : \E j \in 1 .. Len(rs[k].ds) :
                       LET e == rs[k].ds[j] IN e[1] = d[1] /\ e[3] = "important" /\ v[d[1]][n] = e[2]
(* An attribute or style of an element is for it and what is inside it; a    *)
(* property is changed only by declarations for it.  The window matters only *)
(* to rules for it.                                                          *)
Both(q) == {q[i][1] : i \in 1 .. Len(q)}
ACApart ==
  LET o == last'.op
  IN o.name \in {"inline", "attr", "window"} =>
       LET a == Values(st, MProps)
           b == Values(st', MProps)
           ps == IF o.name = "window" THEN MProps
                 ELSE Both(o.q) \cup Both(IF o.name = "inline" THEN st.il[o.n] ELSE st.pa[o.n])
           ns == IF o.name = "window"
                 THEN IF \E i \in 1 .. Len(st.css[2].q) : st.css[2].q[i].mq \in {"wide", "narrow"} THEN FN(st) ELSE {}
                 ELSE {n \in FN(st) : n = o.n \/ Has(Ancs(st, n), o.n)}
       IN \A p \in MProps : \A n \in FN(st) : (p \in ps /\ n \in ns) \/ a[p][n] = b[p][n]
CascadeApart == [][ACApart]_mvars
=============================================================================
