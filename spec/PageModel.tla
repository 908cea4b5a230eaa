------------------------------ MODULE PageModel ------------------------------
(* Every short history of going, editing and changing files on a small site. *)
EXTENDS Page, ModelBase

NoRef == [s |-> "", up |-> 0, p |-> <<>>, top |-> FALSE, h |-> "", q |-> "", sp |-> 0]
R(up, p) == [NoRef EXCEPT !.up = up, !.p = p]
F(p) == [NoRef EXCEPT !.s = "file", !.p = p]
Nd(k, id) == [k |-> k, id |-> id, ref |-> NoRef, rel |-> "stylesheet", media |-> "", ty |-> "",
              sp |-> 0, items |-> <<>>]
Rule(v) == [k |-> "rule", v |-> v, ref |-> NoRef, media |-> ""]
Imp(ref, m) == [k |-> "import", v |-> 0, ref |-> ref, media |-> m]
NoC == [kind |-> "css", pre |-> <<>>, id |-> "", kids |-> <<>>, post |-> <<>>, items |-> <<>>, enc |-> 0]
Svg(id, pre, kids) == [NoC EXCEPT !.kind = "svg", !.id = id, !.pre = pre, !.kids = kids,
                                  !.post = <<Nd("c", "end")>>]
Css(items) == [NoC EXCEPT !.items = items]
Blank(nm) == [name |-> nm, d |-> 1, via |-> "", ref |-> NoRef, h |-> "", p |-> <<>>, c |-> NoC,
              nd |-> Nd("g", ""), i |-> 1]

A == <<"a.svg">>
B == <<"s", "b.svg">>
X == <<"x.css">>
Y == <<"s", "y.css">>
Site ==
  <<[p |-> A, c |-> Svg("a", <<Nd("c", "top"), [Nd("pi", "") EXCEPT !.ref = R(0, X)]>>,
                         <<[Nd("link", "l") EXCEPT !.ref = R(0, Y)]>>)],
    [p |-> B, c |-> Svg("b", <<>>,
       <<[Nd("link", "l") EXCEPT !.ref = R(1, X), !.media = "screen"],
         [Nd("style", "t") EXCEPT !.items = <<Imp(R(0, <<"y.css">>), ""), Rule(1)>>]>>)],
    [p |-> <<"bad.svg">>, c |-> [NoC EXCEPT !.kind = "bad"]],
    [p |-> X, c |-> Css(<<Imp(R(0, Y), ""), Rule(2)>>)],
    [p |-> Y, c |-> Css(<<Imp(R(1, X), ""), Imp(R(0, <<"y.css">>), "print"), Rule(3)>>)]>>
PageStarts == {[fs |-> Site]}
(* every way three style sheets can import each other                         *)
Z == <<"s", "z.css">>
OfTop == <<R(0, X), R(0, Y), R(0, Z)>>
OfSub == <<R(1, X), R(0, <<"y.css">>), R(0, <<"z.css">>)>>
Some(n, refs) ==
  {<<>>} \cup {<<Imp(refs[i], "")>> : i \in 1 .. 3}
  \cup (IF n < 2 THEN {<<Imp(refs[3], "print")>>}
        ELSE {<<Imp(refs[i], m), Imp(refs[j], "")>> : i \in 1 .. 3, j \in 1 .. 3, m \in {"", "print"}})
Sheeted(a, b, c) ==
  <<[p |-> A, c |-> Svg("a", <<[Nd("pi", "") EXCEPT !.ref = R(0, Z)]>>,
       <<[Nd("style", "t") EXCEPT !.items = <<Imp(R(0, X), "screen")>>]>>)],
    [p |-> X, c |-> Css(a \o <<Rule(1)>>)], [p |-> Y, c |-> Css(b \o <<Rule(2)>>)],
    [p |-> Z, c |-> Css(c \o <<Rule(3)>>)]>>
WebStarts == {[fs |-> Sheeted(a, b, c)] : a \in Some(1, OfTop), b \in Some(1, OfSub), c \in Some(1, OfSub)}
WideStarts == {[fs |-> Sheeted(a, b, c)] : a \in Some(2, OfTop), b \in Some(2, OfSub), c \in Some(1, OfSub)}
WebOps(s) == {[Blank("go") EXCEPT !.via = "window", !.ref = F(A)]}
D(s) == 1 .. Len(s.docs)
On(s) == {d \in D(s) : s.docs[d].on}
Refs == {F(A), F(B), R(0, B), R(1, A), F(<<"bad.svg">>), R(0, <<"no.svg">>),
         [NoRef EXCEPT !.s = "about"], [NoRef EXCEPT !.s = "data", !.q = "8"]}
Below(s, o) == o.via \in {"href", "assign"} \/ o.ref.up <= Len(Dirs(s.docs[o.d].url))
PageOps(s) ==
  {o \in {[Blank("go") EXCEPT !.d = d, !.via = v, !.ref = r] :
            d \in D(s), v \in {"doc", "href"}, r \in Refs}
          \cup {[Blank("go") EXCEPT !.via = "window", !.ref = r] : r \in Refs} : Below(s, o)}
  \cup {[Blank("hash") EXCEPT !.d = d, !.h = "x"] : d \in {e \in D(s) : s.docs[e].url.k = "file"}}
  \cup {[Blank("path") EXCEPT !.d = d, !.p = p] :
          d \in {e \in D(s) : s.docs[e].url.k = "file"}, p \in {A, B, X}}
  \cup {[Blank("reload") EXCEPT !.d = d] : d \in D(s)}
  \cup (IF Len(s.docs) < 2 THEN {Blank("newdoc")} ELSE {})
  \cup {[Blank("write") EXCEPT !.p = A, !.c = Svg("z", <<>>, <<>>)],
        [Blank("write") EXCEPT !.p = Y, !.c = Css(<<Rule(4)>>)],
        [Blank("unlink") EXCEPT !.p = X]}
  \cup {[Blank("add") EXCEPT !.d = d, !.nd = n] : d \in On(s),
          n \in {Nd("g", "g"), [Nd("pi", "") EXCEPT !.ref = R(0, Y)],
                 [Nd("style", "t") EXCEPT !.items = <<Rule(5)>>]}}
  \cup {[Blank("drop") EXCEPT !.d = d, !.i = Len(s.docs[d].kids)] :
          d \in {e \in On(s) : s.docs[e].kids # <<>>}}
PageThin(s) == {o \in PageOps(s) :
  /\ o.name \in {"go", "reload", "hash", "write", "unlink", "add", "newdoc"}
  /\ o.name = "go" => o.via = "doc" /\ o.ref \in {F(A), R(0, B), R(1, A), F(<<"bad.svg">>)}
  /\ o.name = "add" => o.nd.k = "style"}

(* A step that is refused changes nothing; one document's steps change it    *)
(* only; what is gone to is what its file holds.                             *)
RefusedNothing == [][last'.out.r # "ok" => st' = st]_mvars
Apart ==
  [][\A d \in 1 .. Len(st.docs) :
       (last'.op.d # d \/ last'.op.name \in {"write", "unlink", "newdoc"}) =>
          st'.docs[d] = st.docs[d]]_mvars
Arrives ==
  [][last'.op.name \in {"go", "reload", "hash", "path"} /\ last'.out.r = "ok"
       /\ st'.docs[last'.op.d].url.k = "file" =>
       LET x == st'.docs[last'.op.d]
           c == st.fs[At(st.fs, x.url.p)].c
       IN x.on /\ x.id = c.id /\ x.kids = c.kids /\ x.pre = c.pre /\ x.post = c.post]_mvars
(* Reloading a page twice is reloading it once.                              *)
ReloadOnce ==
  \A d \in D(st) : LET r == PageStep(st, [Blank("reload") EXCEPT !.d = d])
                   IN PageStep(r.st, [Blank("reload") EXCEPT !.d = d]) = r
(* No style sheet is below itself.                                           *)
NoLoops ==
  \A d \in D(st) : LET q == SheetsOf(st.fs, st.docs[d], FALSE)
                   IN \A i \in 1 .. Len(q) : q[i].d <= Len(st.fs) + 1
=============================================================================
