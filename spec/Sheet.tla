------------------------------- MODULE Sheet -------------------------------
(***************************************************************************)
(* A style sheet: a list of rules, some of which hold rules themselves,    *)
(* and lists of media queries.                                             *)
(* A rule is [i, k, t, u, ds, ml, q, f]:                                   *)
(*   i  identity, given in document order as rules come into being         *)
(*   k  "style" | "media" | "font-face" | "namespace" | "values"           *)
(*   t  selector, prefix or font family      u  namespace                  *)
(*   ds declarations <<name, value, priority>> in order                    *)
(*   ml media queries     q  rules inside    f  <<type, name, numbers>>    *)
(* A state is [q, ml, n]: the rules, the media of the sheet, next identity *)
(***************************************************************************)
EXTENDS Text

SErr(s, e) == [st |-> s, out |-> [r |-> e]]
SOk(s)     == SErr(s, "ok")
SVal(s, v) == [st |-> s, out |-> [r |-> "ok", v |-> v]]

Kinds == {"style", "media", "font-face", "namespace", "values"}

(* ---- media lists ------------------------------------------------------- *)
LowSeq(q) == [i \in 1 .. Len(q) |-> Lower(q[i])]
MediaList(q) == LowSeq(q)

(* ---- bringing parsed rules into being ----------------------------------- *)
(* A declaration given again replaces the first and comes last.             *)
RECURSIVE Decls(_, _)
Decls(ds, acc) ==
  IF ds = <<>> THEN acc
  ELSE Decls(Tail(ds), Append(SelectSeq(acc, LAMBDA x : x[1] # Head(ds)[1]), Head(ds)))
(* Of the values given to a name, whose case does not matter, the last stay. *)
TypeSeq == <<"annotation", "character-variant", "ornaments", "styleset", "stylistic", "swash">>
RECURSIVE Feats(_, _)
Feats(fs, acc) ==
  IF fs = <<>> THEN acc
  ELSE LET k == <<Lower(Head(fs)[1]), Lower(Head(fs)[2]), Head(fs)[3]>>
           S == {i \in 1 .. Len(acc) : <<acc[i][1], acc[i][2]>> = <<k[1], k[2]>>}
       IN Feats(Tail(fs), IF S = {} THEN Append(acc, k)
                          ELSE [acc EXCEPT ![CHOOSE i \in S : TRUE] = k])
ByType(fs) == FlattenSeq([i \in 1 .. 6 |-> SelectSeq(fs, LAMBDA x : x[1] = TypeSeq[i])])

RECURSIVE Make(_, _)      \* [q, n]: the rules of a text, and the next identity
Make(rs, n) ==
  IF rs = <<>> THEN [q |-> <<>>, n |-> n]
  ELSE LET r == Head(rs)
       IN IF r.k \notin Kinds THEN Make(Tail(rs), n)
          ELSE LET in == Make(IF r.k = "media" THEN r.q ELSE <<>>, n + 1)
                   me == [i |-> n, k |-> r.k, t |-> r.t, u |-> r.u,
                          ds |-> Decls(r.ds, <<>>), ml |-> MediaList(r.ml),
                          q |-> in.q, f |-> ByType(Feats(r.f, <<>>))]
                   rest == Make(Tail(rs), in.n)
               IN [q |-> <<me>> \o rest.q, n |-> rest.n]

(* ---- places -------------------------------------------------------------- *)
RECURSIVE RulesAt(_, _)
RulesAt(q, at) == IF at = <<>> THEN q ELSE RulesAt(q[Head(at)].q, Tail(at))
RECURSIVE PutRules(_, _, _)
PutRules(q, at, new) ==
  IF at = <<>> THEN new
  ELSE [q EXCEPT ![Head(at)].q = PutRules(@, Tail(at), new)]
RECURSIVE MediaAt(_, _)
MediaAt(q, at) == IF Len(at) = 1 THEN q[at[1]].ml ELSE MediaAt(q[Head(at)].q, Tail(at))
RECURSIVE PutMedia(_, _, _)
PutMedia(q, at, new) ==
  IF Len(at) = 1 THEN [q EXCEPT ![at[1]].ml = new]
  ELSE [q EXCEPT ![Head(at)].q = PutMedia(@, Tail(at), new)]
Ml(s, at) == IF at = <<>> THEN s.ml ELSE MediaAt(s.q, at)
WithMl(s, at, new) == IF at = <<>> THEN [s EXCEPT !.ml = new]
                      ELSE [s EXCEPT !.q = PutMedia(s.q, at, new)]

(* The rule at a path that is not empty                                     *)
RECURSIVE DeclsAt(_, _)
DeclsAt(q, at) == IF Len(at) = 1 THEN q[at[1]].ds ELSE DeclsAt(q[Head(at)].q, Tail(at))
RECURSIVE PutDecls(_, _, _)
PutDecls(q, at, new) ==
  IF Len(at) = 1 THEN [q EXCEPT ![at[1]].ds = new]
  ELSE [q EXCEPT ![Head(at)].q = PutDecls(@, Tail(at), new)]

(* Where an index, counted from the end when negative, points among n items *)
Idx(i, n) == IF i < 0 THEN i + n ELSE i
Clamp(i, n) == LET k == Idx(i, n) IN IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k
Splice(q, k, new) == SubSeq(q, 1, k) \o new \o SubSeq(q, k + 1, Len(q))

(* ---- operations ------------------------------------------------------------ *)
SheetStart(start) ==
  LET m == Make(start.q, 1)
  IN [q |-> m.q, ml |-> MediaList(start.ml), n |-> m.n]

SheetStep(s, op) ==
  LET o == op.name IN
  CASE o = "insert" ->
         LET c == RulesAt(s.q, op.at)
             m == Make(op.q, s.n)
         IN SVal([s EXCEPT !.q = PutRules(s.q, op.at, Splice(c, Clamp(op.i, Len(c)), m.q)),
                           !.n = m.n], op.i)
    [] o = "delete" ->
         LET c == RulesAt(s.q, op.at)
             k == Idx(op.i, Len(c))
         IN IF k < 0 \/ k >= Len(c) THEN SErr(s, "exc:IndexError")
            ELSE SOk([s EXCEPT !.q = PutRules(s.q, op.at, RemAt(c, k + 1))])
    \* the declarations of one rule
    [] o = "dset" -> SOk([s EXCEPT !.q = PutDecls(s.q, op.at, Decls(<<op.d>>, DeclsAt(s.q, op.at)))])
    [] o = "drem" ->
         LET ds == DeclsAt(s.q, op.at)
             x == SelectSeq(ds, LAMBDA y : y[1] = op.n)
         IN SVal([s EXCEPT !.q = PutDecls(s.q, op.at, SelectSeq(ds, LAMBDA y : y[1] # op.n))],
                 IF x = <<>> THEN "" ELSE x[1][2])
    \* lists of media queries
    [] o = "mltext" -> SOk(WithMl(s, op.at, MediaList(op.v)))
    [] o = "mlapp" ->
         LET l == Ml(s, op.at)
         IN IF Len(op.v) # 1 \/ Has(l, Lower(op.v[1])) THEN SOk(s)
            ELSE SOk(WithMl(s, op.at, Append(l, Lower(op.v[1]))))
    [] o = "mldel" ->
         LET l == Ml(s, op.at)
         IN IF Len(op.v) # 1 THEN SOk(s)
            ELSE IF ~Has(l, Lower(op.v[1])) THEN SErr(s, "exc:ValueError")
            ELSE SOk(WithMl(s, op.at, RemAt(l, Ix(l, Lower(op.v[1])))))
    [] o = "mlins" ->
         LET l == Ml(s, op.at)
         IN SOk(WithMl(s, op.at, Splice(l, Clamp(op.i, Len(l)), <<Lower(op.v[1])>>)))
    [] o = "mlrem" ->
         LET l == Ml(s, op.at)
             k == Idx(op.i, Len(l))
         IN IF k < 0 \/ k >= Len(l) THEN SErr(s, "exc:IndexError")
            ELSE SOk(WithMl(s, op.at, RemAt(l, k + 1)))
    [] o = "mlitem" ->
         LET l == Ml(s, op.at)
             k == Idx(op.i, Len(l))
         IN IF k < 0 \/ k >= Len(l) THEN SErr(s, "exc:IndexError") ELSE SVal(s, l[k + 1])

SheetObs(s) == [q |-> s.q, ml |-> s.ml]

(* ---- what holds in every state ---------------------------------------------- *)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE <<Head(q).i>> \o Flat(Head(q).q) \o Flat(Tail(q))
Distinct(s) == LET l == Flat(s.q) IN \A i, j \in 1 .. Len(l) : l[i] = l[j] => i = j
Known(s) == \A i \in 1 .. Len(Flat(s.q)) : Flat(s.q)[i] < s.n
=============================================================================
