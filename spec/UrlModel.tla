------------------------------ MODULE UrlModel ------------------------------
(* Every short history of changes to the parts of a URL.                    *)
EXTENDS Url, ModelBase

U(pr, us, hn, po, segs, dir, q, h) ==
  [pr |-> pr, us |-> us, pw |-> IF us = "" THEN "" ELSE "p:w", hn |-> hn, po |-> po, segs |-> segs, dir |-> dir,
   q |-> q, h |-> h, sp |-> 0]
Rf(k, hn, segs, dir, q, h) ==
  [k |-> k, pr |-> IF k = "full" THEN "http:" ELSE "", us |-> "", pw |-> "", hn |-> hn, po |-> "", segs |-> segs, dir |-> dir,
   q |-> q, h |-> h, sp |-> 0]
UrlStarts ==
  {[u |-> U("http:", "", "h", "", <<>>, FALSE, <<>>, "")],
   [u |-> U("https:", "u@", "H.Example", "8080", <<"a", ".", "b/c", "..", "d">>, TRUE,
            <<<<"b", "1">>, <<"a", "&">>, <<"b", "%41">>>>, "f%41#")],
   [u |-> U("file:", "", "", "", <<"a", "..", "..", "b c">>, FALSE, <<>>, "")]}
Qs == {<<>>, <<<<"k", "">>>>, <<<<"b", "2">>, <<"a", "+">>>>, <<<<"a b", "=">>, <<"a b", "%25">>>>}
SegSets == {<<>>, <<"..">>, <<"x", "..", "y">>, <<"a", "..", "..", "b">>, <<"q?", "#">>}
UrlOps(s) ==
  {[name |-> "protocol", v |-> v] : v \in {"HTTPS", "ftp"}}
  \cup {[name |-> "username", v |-> v] : v \in {"", "a:b"}}
  \cup (IF s.us = "" THEN {} ELSE {[name |-> "password", v |-> v] : v \in {"", "@"}})
  \cup (IF s.pr = "file:" THEN {}
        ELSE {[name |-> "host", v |-> x[1], p |-> x[2]] : x \in {<<"H", "">>, <<"g.example", "443">>}}
             \cup {[name |-> "hostname", v |-> "K", p |-> ""], [name |-> "port", v |-> ""],
                   [name |-> "port", v |-> "80"], [name |-> "port", v |-> "21"]})
  \cup {[name |-> "pathname", segs |-> g, dir |-> FALSE] : g \in SegSets}
  \cup {[name |-> "pathname", segs |-> <<"a", "b">>, dir |-> TRUE]}
  \cup {[name |-> "search", q |-> q] : q \in Qs}
  \cup {[name |-> "hash", v |-> v] : v \in {"", "a b", "%41%"}}
  \cup {[name |-> "spset", kv |-> <<k, "v&">>] : k \in {"a", "z"}}
  \cup {[name |-> "spdel", key |-> k] : k \in {"a", "z"}}
  \cup {[name |-> "again"], [name |-> "blob"]}
  \cup {[name |-> "data", m |-> m, t |-> t, b64 |-> b, sp |-> b] : m \in {"", "text/css"}, b \in {0, 1},
          t \in {"", "a b", "%41?#,&+"}}
  \cup {[name |-> "resolve", go |-> TRUE, u |-> r] :
          r \in {Rf("abs", "", g, FALSE, <<>>, "") : g \in SegSets}
                \cup {Rf("rel", "", <<"..", "m">>, FALSE, <<>>, "x"), Rf("rel", "", <<"n">>, TRUE, <<<<"k", "1">>>>, ""),
                      Rf("query", "", <<>>, FALSE, <<<<"k", "1">>>>, ""), Rf("frag", "", <<>>, FALSE, <<>>, "y"),
                      Rf("empty", "", <<>>, FALSE, <<>>, "")}
                \cup IF s.pr = "file:" THEN {}
                     ELSE {Rf("net", "N.Example", <<"p">>, FALSE, <<>>, ""), Rf("full", "o", <<>>, FALSE, <<>>, "")}}

ModelPlain == Plain(st)
ModelUnique == Unique(st)
ModelStable == Stable(st)
ModelNeutral == Neutral(st)
ModelOpaque ==    \* what is part of the text never ends a part of it
  /\ \A i \in 1 .. Len(Path(st)) : Ch(Path(st), i) \notin {"?", "#", " "}
  /\ \A i \in 2 .. Len(SearchOf(st.q)) : Ch(SearchOf(st.q), i) \notin {"#", " "}
(* A part is changed without the others.                                     *)
ACApart ==
  LET o == last'.op.name
      Rest(s) == [u |-> <<s.us, s.pw>>, host |-> <<s.hn, s.po>>, pr |-> s.pr, path |-> <<s.segs, s.dir>>, q |-> s.q,
                  h |-> s.h]
      Same(x) == \A k \in {"u", "host", "pr", "path", "q", "h"} \ x : Rest(st)[k] = Rest(st')[k]
  IN CASE o \in {"username", "password"} -> Same({"u"})
       [] o \in {"host", "hostname", "port"} -> Same({"host"})
       [] o = "protocol" -> Same({"pr"})
       [] o = "pathname" -> Same({"path"})
       [] o \in {"search", "spset", "spdel"} -> Same({"q"})
       [] o = "hash" -> Same({"h"})
       [] o = "again" -> st = st'
       [] o = "resolve" -> \/ last'.op.u.k \in {"full", "net"}
                           \/ /\ st'.pr = st.pr /\ st'.hn = st.hn /\ st'.us = Again(st).us
                              /\ Host(st') = Host(st) /\ Origin(st') = Origin(st)
       [] OTHER -> TRUE
=============================================================================
