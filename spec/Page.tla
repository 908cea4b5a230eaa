-------------------------------- MODULE Page --------------------------------
(* Pages and the style sheets they load: documents, where they are, what     *)
(* they hold, and the files they and their style sheets come from.           *)
(*   url: [k, p, h]   k "about" | "file"; p names from the top of the site   *)
(*   ref: [s, up, p, top, h, q]  a reference: s "" relative, "file", "about" *)
(*        or "data" (q says what it holds); top: from the top of the site    *)
(*   content of a file: [kind, pre, id, kids, post, items]                   *)
(*   doc: [url, on, pre, id, kids, post]   on: there is a root element       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

About(h) == [k |-> "about", p |-> <<>>, h |-> h]
FileUrl(p, h) == [k |-> "file", p |-> p, h |-> h]
NoUrl == [k |-> "", p |-> <<>>, h |-> ""]

MinOf(a, b) == IF a < b THEN a ELSE b
Dirs(u) == IF u.k = "file" THEN SubSeq(u.p, 1, Len(u.p) - 1) ELSE <<>>
Resolve(base, ref) ==
  CASE ref.s = "file" -> FileUrl(ref.p, ref.h)
    [] ref.s = "about" -> About(ref.h)
    [] ref.s = "data" -> [k |-> "data", p |-> <<ref.q>>, h |-> ""]
    [] ref.p = <<>> /\ ref.up = 0 -> [base EXCEPT !.h = ref.h]
    [] ref.top -> FileUrl(ref.p, ref.h)
    [] OTHER -> LET ds == Dirs(base)
                IN FileUrl(SubSeq(ds, 1, Len(ds) - MinOf(ref.up, Len(ds))) \o ref.p, ref.h)

At(fs, p) == LET ix == {i \in 1 .. Len(fs) : fs[i].p = p}
             IN IF ix = {} THEN 0 ELSE CHOOSE i \in ix : TRUE
Put(fs, p, c) == LET i == At(fs, p)
                 IN IF i = 0 THEN Append(fs, [p |-> p, c |-> c]) ELSE [fs EXCEPT ![i].c = c]
Cut(fs, p) == SelectSeq(fs, LAMBDA f : f.p # p)

(* ------------------------------------------------------------ style sheets *)
(* wide: screen and wide enough; thin: too wide for it; list: print, screen   *)
Matches(m) == m \in {"", "all", "screen", "wide", "list"}
Line(d, k, h, v, m) == <<[d |-> d, k |-> k, h |-> h, v |-> v, m |-> m]>>
(* the rules of a sheet and of those it imports, in order; a sheet that is   *)
(* being imported (in chain) or cannot be loaded has no rules                *)
RECURSIVE Rules(_, _, _, _, _, _)
Inside(fs, u, chain, d, only) ==
  IF u.k = "data"
  THEN IF u.p[1] = "bad" THEN <<>>
       ELSE Line(d, "rule", NoUrl, IF u.p[1] = "8" THEN 8 ELSE 9, "")
  ELSE IF u.k # "file" \/ u.p \in chain THEN <<>>
  ELSE LET i == At(fs, u.p)
       IN IF i = 0 THEN <<>>
          ELSE IF fs[i].c.kind # "css" THEN <<>>
          ELSE Rules(fs, fs[i].c.items, u, chain \cup {u.p}, d, only)
Rules(fs, items, base, chain, d, only) ==
  IF items = <<>> THEN <<>>
  ELSE LET it == Head(items)
           u == Resolve(base, it.ref)
           this == IF it.k = "rule" THEN Line(d, "rule", NoUrl, it.v, "")
                   ELSE IF only /\ ~Matches(it.media) THEN <<>>
                   ELSE Line(d, "import", u, 0, it.media) \o Inside(fs, u, chain, d + 1, only)
       IN this \o Rules(fs, Tail(items), base, chain, d, only)

HasRef(ref) == ref.s # "" \/ ref.p # <<>> \/ ref.up > 0
Applies(n) ==
  /\ n.k \in {"pi", "link", "style"}
  /\ n.rel = "stylesheet"
  /\ n.ty \in {"", "text/css"}
  /\ Matches(n.media)
  /\ n.k # "style" => HasRef(n.ref)
  /\ n.k = "style" => n.items # <<>>
SheetOf(fs, base, n, only) ==
  Line(0, n.k, NoUrl, 0, n.media) \o
  (IF n.k = "style" THEN Rules(fs, n.items, base, {}, 1, only)
   ELSE Inside(fs, Resolve(base, n.ref), {}, 1, only))
RECURSIVE Sheets(_, _, _, _)
Sheets(fs, base, q, only) ==
  IF q = <<>> THEN <<>>
  ELSE (IF Applies(Head(q)) THEN SheetOf(fs, base, Head(q), only) ELSE <<>>)
       \o Sheets(fs, base, Tail(q), only)
SheetsOf(fs, doc, only) == IF doc.on THEN Sheets(fs, doc.url, doc.pre \o doc.kids, only) ELSE <<>>
RECURSIVE LastRule(_)
LastRule(q) == IF q = <<>> THEN 0
               ELSE IF q[Len(q)].k = "rule" THEN q[Len(q)].v
               ELSE LastRule(SubSeq(q, 1, Len(q) - 1))

(* ------------------------------------------------------------------- pages *)
Empty(u) == [url |-> u, on |-> FALSE, pre |-> <<>>, id |-> "", kids |-> <<>>, post |-> <<>>]
NewDoc == [Empty(About("")) EXCEPT !.on = TRUE]
PageStart(x) == [fs |-> x.fs, docs |-> <<NewDoc>>]
Out(s, r) == [st |-> s, out |-> [r |-> r]]

Load(s, d, u) ==
  IF u.k = "data" THEN Out(s, "ValueError")
  ELSE IF u.k = "about" THEN Out([s EXCEPT !.docs[d] = Empty(u)], "ok")
  ELSE LET i == At(s.fs, u.p)
       IN IF i = 0 THEN Out(s, "URLError")
          ELSE IF s.fs[i].c.kind # "svg" THEN Out(s, "XMLSyntaxError")
          ELSE LET c == s.fs[i].c
               IN Out([s EXCEPT !.docs[d] =
                        [url |-> u, on |-> TRUE, pre |-> c.pre, id |-> c.id,
                         kids |-> c.kids, post |-> c.post]], "ok")

PageStep(s, op) ==
  LET d == op.d
  IN CASE op.name = "go" ->
            IF op.via \in {"href", "assign"} /\ op.ref.s = "" THEN Out(s, "ValueError")
            ELSE Load(s, d, Resolve(s.docs[d].url, op.ref))
       [] op.name = "hash" -> Load(s, d, [s.docs[d].url EXCEPT !.h = op.h])
       [] op.name = "path" -> Load(s, d, FileUrl(op.p, s.docs[d].url.h))
       [] op.name = "reload" -> Load(s, d, s.docs[d].url)
       [] op.name = "newdoc" -> Out([s EXCEPT !.docs = Append(@, NewDoc)], "ok")
       [] op.name = "write" -> Out([s EXCEPT !.fs = Put(@, op.p, op.c)], "ok")
       [] op.name = "unlink" -> Out([s EXCEPT !.fs = Cut(@, op.p)], "ok")
       [] op.name = "add" ->
            Out(IF op.nd.k = "pi" THEN [s EXCEPT !.docs[d].pre = Append(@, op.nd)]
                ELSE [s EXCEPT !.docs[d].kids = Append(@, op.nd)], "ok")
       [] op.name = "drop" ->
            Out([s EXCEPT !.docs[d].kids = SubSeq(@, 1, op.i - 1) \o SubSeq(@, op.i + 1, Len(@))], "ok")
       [] op.name = "ref" -> Out([s EXCEPT !.docs[d].kids[op.i].ref = op.ref], "ok")
       [] op.name = "words" -> Out([s EXCEPT !.docs[d].kids[op.i].items = op.c.items], "ok")
       [] OTHER -> Out(s, "?")

Shown(q) == [i \in 1 .. Len(q) |-> [k |-> q[i].k, id |-> q[i].id]]
PageObs(s) ==
  [pages |-> [d \in 1 .. Len(s.docs) |->
     LET x == s.docs[d]
     IN [url |-> x.url, on |-> x.on, pre |-> Shown(x.pre), id |-> x.id,
         kids |-> Shown(x.kids), post |-> Shown(x.post)]],
   sheets |-> [d \in 1 .. Len(s.docs) |-> SheetsOf(s.fs, s.docs[d], FALSE)],
   fill |-> [d \in 1 .. Len(s.docs) |-> LastRule(SheetsOf(s.fs, s.docs[d], TRUE))]]
=============================================================================
