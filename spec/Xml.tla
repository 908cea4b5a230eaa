--------------------------------- MODULE Xml ---------------------------------
(* Documents as text and as trees: nodes made by calls or read from XML,      *)
(* their names, classes, attributes and text, and what writing them says.     *)
(*   node: [k, ns, d, pre, name, at, text, tail, ch, par]                     *)
(*     k "e" element, "c" comment, "p" processing instruction                 *)
(*     ns  namespace asked for ("" none)    d  default namespace declared here*)
(*     at  Seq of <<namespace, name, value>>                                  *)
(* Strings spell special characters as capitals (L is "<", A is "&" ...);     *)
(* C is a character XML has not.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NIL == "~"
BadText == {"C", "aCb"}
BadComment == {"a--b", "a-"}
BadPI == {"aQM"}                                    \* holds the end mark
XMLNS == {"svg", "html", "x"}
HrefAttrs == {"xlink", "xml", "x"}

ClassOf(ns, name) ==
  CASE name = "svg" -> "SVGSVGElement" [] name = "g" -> "SVGGElement"
    [] name = "text" -> "SVGTextElement" [] name = "tspan" -> "SVGTSpanElement"
    [] name = "textPath" -> "SVGTextPathElement" [] name = "rect" -> "SVGRectElement"
    [] name = "title" -> "SVGTitleElement" [] name = "desc" -> "SVGDescElement"
    [] name = "metadata" -> "SVGMetadataElement" [] name = "style" -> "SVGStyleElement"
    [] name = "video" -> "HTMLVideoElement" [] name = "defs" -> "SVGDefsElement"
    [] OTHER -> IF ns = "html" THEN "HTMLElement" ELSE "SVGElement"
NameOk(s) == s \notin {"1a", "aLb", ""} \cup {"a b"}

Elt(ns, d, name, at) ==
  [k |-> "e", ns |-> ns, d |-> d, name |-> name, at |-> at, text |-> "", tail |-> "",
   ch |-> <<>>, par |-> 0]
Leaf(k, name, s) ==
  [k |-> k, ns |-> "", d |-> "", name |-> name, at |-> <<>>, text |-> s, tail |-> "",
   ch |-> <<>>, par |-> 0]

RECURSIVE Default(_, _)
Default(ns, n) == IF n = 0 THEN "" ELSE IF ns[n].d # "" THEN ns[n].d ELSE Default(ns, ns[n].par)
Space(ns, n) == IF ns[n].k # "e" THEN ""
                ELSE IF ns[n].ns # "" THEN ns[n].ns ELSE Default(ns, n)
Pre(ns, n) ==
  IF ns[n].ns = "" \/ Default(ns, n) = ns[n].ns THEN ""
  ELSE IF ns[n].ns = "html" THEN "html:" ELSE "?:"
NodeName(ns, n) ==
  CASE ns[n].k = "c" -> "#comment" [] ns[n].k = "p" -> ns[n].name
    [] OTHER -> Pre(ns, n) \o ns[n].name

RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE Head(q) \o Joined(Tail(q))
(* all the text below a node, in order                                        *)
RECURSIVE Every(_, _)
Every(ns, n) ==
  ns[n].text \o Joined([i \in 1 .. Len(ns[n].ch) |->
    LET c == ns[n].ch[i]
    IN (IF ns[c].k = "e" THEN Every(ns, c) ELSE "") \o ns[c].tail])
(* the text of 'text' and 'tspan': its own, that of the same kinds of element *)
(* below, and what follows a comment or an element that belongs in text       *)
InText(s) == s \in {"text", "tspan"}
RECURSIVE Spoken(_, _)
Spoken(ns, n) ==
  ns[n].text \o Joined([i \in 1 .. Len(ns[n].ch) |->
    LET c == ns[n].ch[i]
    IN (IF ns[c].k = "e" /\ InText(ns[c].name) THEN Spoken(ns, c) ELSE "")
       \o (IF ns[c].k # "e" \/ ns[c].name \in {"tspan", "textPath"} THEN ns[c].tail ELSE "")])
Content(ns, n) ==
  IF ns[n].k # "e" THEN ns[n].text
  ELSE IF ns[n].name \in {"title", "desc", "metadata"} THEN Every(ns, n)
  ELSE IF InText(ns[n].name) THEN Spoken(ns, n)
  ELSE NIL

(* ------------------------------------------------- writing: the tree it says *)
RECURSIVE Under(_, _)
Under(ns, n) ==
  LET RECURSIVE Cat(_)
      Cat(i) == IF i > Len(ns[n].ch) THEN <<>> ELSE Under(ns, ns[n].ch[i]) \o Cat(i + 1)
  IN <<n>> \o Cat(1)
Ix(q, x) == CHOOSE i \in 1 .. Len(q) : q[i] = x
Written(ns, n, tails) ==
  LET q == Under(ns, n)
  IN [i \in 1 .. Len(q) |->
       LET m == ns[q[i]]
       IN [k |-> m.k, ns |-> Space(ns, q[i]), name |-> m.name, at |-> m.at, text |-> m.text,
           tail |-> IF i = 1 /\ ~tails THEN "" ELSE m.tail,
           par |-> IF i = 1 THEN 0 ELSE Ix(q, m.par)]]
(* nodes read from text: a tree as Written says it, default namespaces in d   *)
AsNodes(q, ds, base) ==
  [i \in 1 .. Len(q) |->
     [k |-> q[i].k, ns |-> q[i].ns, d |-> ds[i], name |-> q[i].name, at |-> q[i].at,
      text |-> q[i].text, tail |-> q[i].tail,
      ch |-> LET RECURSIVE Kids(_)
                 Kids(j) == IF j > Len(q) THEN <<>>
                            ELSE (IF q[j].par = i THEN <<base + j>> ELSE <<>>) \o Kids(j + 1)
             IN Kids(1),
      par |-> IF q[i].par = 0 THEN 0 ELSE base + q[i].par]]
(* Read back, a node that was in no namespace of its own is in the default    *)
(* one; only its default namespace is declared.                               *)
Copy(ns, n) ==
  LET q == Under(ns, n)
      w == Written(ns, n, FALSE)
      ds == [i \in 1 .. Len(q) |-> IF i = 1 THEN Default(ns, n) ELSE ns[q[i]].d]
  IN AsNodes(w, ds, Len(ns))

(* ------------------------------------------------------------------ steps *)
Put(ns, p, i, n) ==
  LET q == ns[p].ch
      at == IF i < 0 THEN (IF Len(q) + i < 0 THEN 0 ELSE Len(q) + i)
            ELSE IF i > Len(q) THEN Len(q) ELSE i
  IN [ns EXCEPT ![p].ch = SubSeq(q, 1, at) \o <<n>> \o SubSeq(q, at + 1, Len(q)), ![n].par = p]

AttrOk(at) == \A i \in 1 .. Len(at) : at[i][3] \notin BadText
SetAttr(at, a) ==
  IF \E i \in 1 .. Len(at) : at[i][1] = a[1] /\ at[i][2] = a[2]
  THEN [i \in 1 .. Len(at) |-> IF at[i][1] = a[1] /\ at[i][2] = a[2] THEN a ELSE at[i]]
  ELSE Append(at, a)
DelAttr(at, a) == SelectSeq(at, LAMBDA b : ~(b[1] = a[1] /\ b[2] = a[2]))

(* The prefix of a qualified name, if it has one, says the same namespace.    *)
Prefixed(q) == q.pre # ""
PrefixOk(q, ns) ==
  \/ ~Prefixed(q)
  \/ q.pre = "html" /\ ns = "html"
  \/ q.pre \in {"{html}", "{svg}"} /\ (ns = "" \/ "{" \o ns \o "}" = q.pre)
AskedSpace(q, ns) ==
  IF q.pre = "{html}" THEN "html" ELSE IF q.pre = "{svg}" THEN "svg" ELSE ns

(* Nodes cut off by new text are no longer looked at.                         *)
RECURSIVE Gone(_, _)
Gone(ns, n) == IF ns[n].par <= 0 THEN ns[n].par = -1 ELSE Gone(ns, ns[n].par)
XmlStart(s) == [ns |-> <<>>]
Refuse(s, e) == [st |-> s, out |-> [r |-> e, w |-> <<>>]]
Done(ns) == [st |-> [ns |-> ns], out |-> [r |-> "ok", w |-> <<>>]]

Create(s, op, sub) ==
  LET q == op.q
      ns == AskedSpace(q, op.ns)
      n == Len(s.ns) + 1
      e == Elt(ns, IF sub THEN "" ELSE "svg", q.name, op.at)
  IN IF q.name = "" THEN Refuse(s, "ValueError")
     ELSE IF q.name = "a b" THEN Refuse(s, "InvalidCharacterError")
     ELSE IF ~PrefixOk(q, op.ns) THEN Refuse(s, "NamespaceError")
     ELSE IF ~NameOk(q.name) \/ ~AttrOk(op.at) THEN Refuse(s, "ValueError")
     ELSE IF sub THEN Done(Put(Append(s.ns, e), op.p, op.i, n))
     ELSE Done(Append(s.ns, e))

XmlStep(s, op) ==
  LET ns == s.ns
      n == op.n
  IN CASE op.name = "create" -> Create(s, op, FALSE)
       [] op.name = "sub" -> Create(s, op, TRUE)
       [] op.name = "comment" ->
            IF op.s \in BadText \cup BadComment THEN Refuse(s, "ValueError")
            ELSE Done(Append(ns, Leaf("c", "", op.s)))
       [] op.name = "pi" ->
            IF op.s \in BadText \cup BadPI \/ op.q.name \in {"xml", "1t"} THEN Refuse(s, "ValueError")
            ELSE Done(Append(ns, Leaf("p", op.q.name, op.s)))
       [] op.name = "put" -> Done(Put(ns, op.p, op.i, n))
       [] op.name \in {"data", "text"} ->
            IF op.s \in BadText THEN Refuse(s, "ValueError")
            ELSE Done([ns EXCEPT ![n].text = op.s])
       [] op.name = "tail" -> Done([ns EXCEPT ![n].tail = op.s])
       [] op.name = "content" ->
            IF ns[n].k # "e"
            THEN IF op.s \in BadText THEN Refuse(s, "ValueError")
                 ELSE Done([ns EXCEPT ![n].text = op.s])
            ELSE IF op.s \in BadText THEN Refuse(s, "ValueError")
            ELSE LET cut == [i \in 1 .. Len(ns) |->
                              IF ns[i].par = n THEN [ns[i] EXCEPT !.par = -1] ELSE ns[i]]
                 IN Done([cut EXCEPT ![n].ch = <<>>, ![n].text = op.s])
       [] op.name = "attr" ->
            IF ~AttrOk(op.at) THEN Refuse(s, "ValueError")
            ELSE Done([ns EXCEPT ![n].at = SetAttr(@, op.at[1])])
       [] op.name = "unattr" -> Done([ns EXCEPT ![n].at = DelAttr(@, op.at[1])])
       [] op.name = "read" -> Done(ns \o AsNodes(op.tree, op.ds, Len(ns)))
       [] op.name = "write" ->
            [st |-> s, out |-> [r |-> "ok", w |-> Written(ns, n, TRUE)]]
       [] op.name = "reread" -> Done(ns \o Copy(ns, n))
       [] OTHER -> Refuse(s, "?")

Nothing == [k |-> "gone", ns |-> "", local |-> "", name |-> "", at |-> <<>>, text |-> "",
            tail |-> "", ch |-> <<>>, par |-> 0, cls |-> "", content |-> ""]
XmlObs(s) ==
  LET ns == s.ns
  IN [nodes |-> [n \in 1 .. Len(ns) |-> IF Gone(ns, n) THEN Nothing ELSE
        [k |-> ns[n].k, ns |-> Space(ns, n), local |-> IF ns[n].k = "e" THEN ns[n].name ELSE "",
         name |-> NodeName(ns, n), at |-> ns[n].at, text |-> ns[n].text, tail |-> ns[n].tail,
         ch |-> ns[n].ch, par |-> ns[n].par,
         cls |-> CASE ns[n].k = "c" -> "Comment" [] ns[n].k = "p" -> "ProcessingInstruction"
                   [] OTHER -> ClassOf(ns[n].ns, ns[n].name),
         content |-> Content(ns, n)]]]
=============================================================================
