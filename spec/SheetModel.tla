----------------------------- MODULE SheetModel -----------------------------
(* Every short history of rules put in and taken out, and of media lists.   *)
EXTENDS Sheet, ModelBase

R(k, t, ds, ml, q) == [k |-> k, t |-> t, u |-> "", ds |-> ds, ml |-> ml, q |-> q, f |-> <<>>, sp |-> 0]
Sty(t) == R("style", t, <<<<"fill", "red", "">>>>, <<>>, <<>>)
Med(q) == R("media", "", <<>>, <<"screen", "PRINT">>, q)
SheetStarts ==
  {[how |-> h, ml |-> <<>>, q |-> <<>>] : h \in {"parse", "insert"}}
  \cup {[how |-> "parse", ml |-> <<"Screen">>, q |-> <<Sty("g"), Med(<<Sty("#b"), Med(<<>>)>>)>>]}

(* Places that hold rules: paths to media rules, and the sheet.             *)
RECURSIVE Places(_, _)
Places(q, at) ==
  {at} \cup UNION {IF q[i].k = "media" THEN Places(q[i].q, Append(at, i)) ELSE {} : i \in 1 .. Len(q)}
RECURSIVE Styles(_, _)
Styles(q, at) ==
  UNION {CASE q[i].k = "media" -> Styles(q[i].q, Append(at, i))
           [] q[i].k = "style" -> {Append(at, i)}
           [] OTHER -> {} : i \in 1 .. Len(q)}
Texts == {<<>>, <<Sty("*")>>, <<Sty(".a"), R("junk", "@unknown x;", <<>>, <<>>, <<>>), Med(<<Sty("a,b")>>)>>}
RuleOps(s) ==
  UNION {LET n == Len(RulesAt(s.q, at))
         IN {[name |-> "insert", at |-> at, i |-> i, c |-> 0, q |-> t] : i \in {0, 1, n, -1}, t \in Texts}
            \cup {[name |-> "delete", at |-> at, i |-> i] : i \in {0, n - 1, n, -1, -n - 1}}
         : at \in Places(s.q, <<>>)}
DeclOps(s) ==
  UNION {{[name |-> "dset", at |-> at, d |-> d] :
            d \in {<<"fill", "none", "">>, <<"stroke", "blue", "important">>}}
         \cup {[name |-> "drem", at |-> at, n |-> n] : n \in {"fill", "stroke"}}
         : at \in Styles(s.q, <<>>)}
MQ == {"screen", "PRINT", "(Color)"}
MediaOps(s) ==
  UNION {LET n == Len(Ml(s, at))
         IN UNION {{[name |-> "mlapp", at |-> at, c |-> 0, sp |-> 0, v |-> <<m>>],
                    [name |-> "mldel", at |-> at, c |-> 0, sp |-> 0, v |-> <<m>>],
                    [name |-> "mlapp", at |-> at, c |-> 1, sp |-> 0, v |-> <<m, "all">>],
                    [name |-> "mldel", at |-> at, c |-> 0, sp |-> 1, v |-> <<m, "all">>],
                    [name |-> "mltext", at |-> at, c |-> 1, sp |-> 1, v |-> <<m, "ALL">>]} : m \in MQ}
            \cup {[name |-> "mlins", at |-> at, c |-> 0, sp |-> 0, i |-> i, v |-> <<"ALL">>] : i \in {0, 1, -1}}
            \cup {[name |-> x, at |-> at, c |-> 0, sp |-> 0, i |-> i] :
                    x \in {"mlrem", "mlitem"}, i \in {0, n - 1, n, -1}}
            \cup {[name |-> "mltext", at |-> at, c |-> 0, sp |-> 0, v |-> <<>>]}
         : at \in Places(s.q, <<>>)}

ModelDistinct == Distinct(st)
ModelKnown == Known(st)
(* Rules are never renumbered, and an identity never comes back.             *)
ACFresh ==
  LET old == ToSet(Flat(st.q)) new == ToSet(Flat(st'.q))
  IN \A i \in new : i \in old \/ i >= st.n
(* Whatever is done to a rule or a list, other rules keep their order.        *)
ACOrder ==
  LET old == SelectSeq(Flat(st.q), LAMBDA x : x \in ToSet(Flat(st'.q)))
      new == SelectSeq(Flat(st'.q), LAMBDA x : x \in ToSet(Flat(st.q)))
  IN old = new
(* Rules, declarations and media lists are changed only one at a time.        *)
ACApart ==
  LET o == last'.op.name
  IN /\ o \notin {"insert", "delete"} => Flat(st.q) = Flat(st'.q)
     /\ o \in {"insert", "delete", "dset", "drem"} => st.ml = st'.ml
     /\ o \in {"insert", "delete"} =>
          (last'.op.at = <<>> \/ Len(st.q) = Len(st'.q))
=============================================================================
