------------------------------ MODULE XmlModel ------------------------------
(* Every short history of making, filling, writing and reading nodes.        *)
EXTENDS Xml, ModelBase

Blank(nm) ==
  [name |-> nm, n |-> 0, p |-> 0, i |-> 99, ns |-> "", q |-> [pre |-> "", name |-> ""],
   at |-> <<>>, s |-> "", style |-> 0, tree |-> <<>>, ds |-> <<>>, via |-> ""]
XmlStarts == {[a |-> 0]}
Q(pre, nm) == [pre |-> pre, name |-> nm]
Live(s) == {n \in 1 .. Len(s.ns) : ~Gone(s.ns, n)}
Els(s) == {n \in Live(s) : s.ns[n].k = "e"}
Texts_ == {"a", "aLb"}
ASvg == <<[k |-> "e", ns |-> "svg", name |-> "text", at |-> <<<<"", "id", "a">>>>, text |-> "x", tail |-> "", par |-> 0],
          [k |-> "c", ns |-> "", name |-> "", at |-> <<>>, text |-> "c", tail |-> "y", par |-> 1],
          [k |-> "e", ns |-> "svg", name |-> "tspan", at |-> <<>>, text |-> "z", tail |-> "w", par |-> 1]>>
AnHtml == <<[k |-> "e", ns |-> "html", name |-> "div", at |-> <<>>, text |-> "x", tail |-> "", par |-> 0],
            [k |-> "e", ns |-> "svg", name |-> "svg", at |-> <<>>, text |-> "", tail |-> "Q", par |-> 1]>>
Many(s) == Len(s.ns) > 3
XmlOps(s) ==
  (IF Many(s) THEN {} ELSE
     {[Blank("create") EXCEPT !.ns = ns, !.q = Q("", nm)] :
        ns \in {"svg", "html", ""}, nm \in {"text", "g"}}
     \cup {[Blank("create") EXCEPT !.ns = ns, !.q = Q(p, "div"), !.style = 3] :
        ns \in {"svg", "html", ""}, p \in {"html", "{html}"}}
     \cup {[Blank("sub") EXCEPT !.ns = ns, !.q = Q("", nm), !.p = p, !.i = i,
                                !.at = <<<<"xlink", "href", "AA">>>>] :
        ns \in {"svg", "html", ""}, nm \in {"tspan", "title"}, p \in Els(s), i \in {0, 99}}
     \cup {[Blank("comment") EXCEPT !.s = t] : t \in {"a", "a--b"}}
     \cup {[Blank("read") EXCEPT !.tree = ASvg, !.ds = <<"svg", "", "">>, !.via = v, !.style = y] :
             v \in {"str", "url-utf-8"}, y \in {0, 2}}
     \cup {[Blank("read") EXCEPT !.tree = AnHtml, !.ds = <<"html", "svg">>, !.via = "bytes"]})
  \cup {[Blank("put") EXCEPT !.n = n, !.p = p, !.i = i] :
          n \in {m \in Live(s) : s.ns[m].par = 0 /\ s.ns[m].k = "c"},
          p \in {m \in Els(s) : Default(s.ns, m) = "svg"}, i \in {0, 99}}
  \cup {[Blank("text") EXCEPT !.n = n, !.s = t] : n \in Els(s), t \in Texts_}
  \cup {[Blank("tail") EXCEPT !.n = n, !.s = "tQ"] : n \in {m \in Live(s) : s.ns[m].par > 0}}
  \cup {[Blank("content") EXCEPT !.n = n, !.s = t] : n \in Els(s), t \in Texts_}
  \cup {[Blank("attr") EXCEPT !.n = n, !.at = <<<<"", "id", "aNb">>>>] : n \in Els(s)}
  \cup {[Blank("write") EXCEPT !.n = n, !.style = y] : n \in Live(s), y \in {0, 1}}
  \cup (IF Many(s) THEN {} ELSE {[Blank("reread") EXCEPT !.n = n, !.style = 0] : n \in Els(s)})

XmlThin(s) == {o \in XmlOps(s) :
  /\ o.name \in {"sub", "comment", "put", "tail", "content", "reread", "create"}
  /\ o.name \in {"sub", "create"} => o.ns = "svg" \/ o.q.name = "tspan"
  /\ o.name = "sub" => o.i = 99
  /\ o.name = "create" => o.style = 0 /\ o.ns # "" /\ o.q.name = "text"}

(* What is written, read back and written again is the same.                 *)
ModelRoundTrip ==
  \A n \in Els(st) :
    LET w == Written(st.ns, n, FALSE)
        more == st.ns \o Copy(st.ns, n)
    IN Written(more, Len(st.ns) + 1, FALSE) = w
(* Children and parents agree; nothing is its own ancestor.                  *)
ModelTree ==
  \A n \in Live(st) :
    /\ \A i \in 1 .. Len(st.ns[n].ch) : st.ns[st.ns[n].ch[i]].par = n
    /\ st.ns[n].par > 0 => \E i \in 1 .. Len(st.ns[st.ns[n].par].ch) : st.ns[st.ns[n].par].ch[i] = n
    /\ Cardinality({i \in 1 .. Len(Under(st.ns, n)) : Under(st.ns, n)[i] = n}) = 1
(* The text content set is the text content read.                            *)
ContentSticks ==
  [][last'.op.name = "content" =>
       Content(st'.ns, last'.op.n) \in {last'.op.s, NIL}]_mvars
RefusedNothing == [][last'.out.r # "ok" => st' = st]_mvars
=============================================================================
