----------------------------- MODULE PathModel -----------------------------
(* Every sequence of a few segments of each kind, normalized, transformed   *)
(* and written out at every point.                                          *)
EXTENDS Path, ModelBase

Z(n) == <<n, 1>>
Ns(q) == [i \in 1 .. Len(q) |-> Z(q[i])]
G(t, q) == [t |-> t, v |-> Ns(q)]
PathStarts == {[p |-> <<G("M", <<1, 2>>)>>], [p |-> <<G("m", <<-1, 0>>), G("m", <<2, 1>>)>>],
               [p |-> <<G("M", <<3, 0>>), G("b", <<90>>)>>]}
Alphabet == {G("L", <<4, 1>>), G("l", <<0, -2>>), G("H", <<5>>), G("v", <<3>>), G("h", <<-2>>),
             G("V", <<0>>), G("C", <<0, 1, 2, 3, 4, 0>>), G("c", <<1, 0, 0, 2, -3, 1>>),
             G("S", <<2, 2, 6, 1>>), G("s", <<1, 3, 2, 0>>), G("Q", <<3, 3, 0, 6>>),
             G("q", <<0, 3, 3, 0>>), G("T", <<9, 0>>), G("t", <<3, -3>>), G("Z", <<>>),
             G("z", <<>>), G("M", <<0, 0>>), G("m", <<1, -1>>), G("B", <<90>>), G("b", <<-90>>),
             G("A", <<2, 1, 0, 0, 1, 5, 5>>), G("a", <<1, 3, 90, 1, 0, 2, 2>>)}
(* Smooth curves after a bearing, and closepath or moveto runs broken by a   *)
(* bearing, are left open.                                                   *)
Fits(p, g) == LET t == p[Len(p)].t IN
  /\ g.t \in {"S", "s", "T", "t", "M", "m"} => t \notin {"B", "b"}
  /\ g.t \in {"M", "m"} => t \notin {"M", "m"} \/ t = g.t
Mats == {Ns(<<1, 0, 0, 1, 3, -1>>), Ns(<<0, 1, -1, 0, 0, 2>>), Ns(<<2, 0, 1, -1, 0, 0>>),
         Ns(<<1, 2, 0, 0, 1, 1>>)}
PathModelOps(s) ==
  {[name |-> "push", c |-> 0, g |-> g] : g \in {g \in Alphabet : Fits(s.p, g)}}
  \cup {[name |-> "roundtrip", c |-> c] : c \in (IF Thirds(s.p) THEN {} ELSE {0, 1})}
  \cup (IF HasArc(s.p) THEN {} ELSE {[name |-> "normalize", c |-> 0]})
  \cup {[name |-> "transform", m |-> m] : m \in (IF HasArc(s.p) THEN {} ELSE Mats)}
  \cup {[name |-> "ends"]}
(* Only one step out of what is pushed, so that longer sequences fit.        *)
PathPushOps(s) ==
  {[name |-> "push", c |-> 1, g |-> g] : g \in {g \in Alphabet : Fits(s.p, g)}}
  \cup (IF HasArc(s.p) THEN {} ELSE {[name |-> "normalize", c |-> 0],
        [name |-> "transform", m |-> Ns(<<0, 1, -1, 0, 0, 2>>)]})
ModelIdem == NormIdem(st)
ModelXf == \A m \in Mats : NormXf(st, m)
(* What is drawn starts where the path data says and ends where its last     *)
(* segment leads: nothing is lost at the ends.                               *)
ACPure == last'.op.name \in {"roundtrip", "ends"} => st' = st
=============================================================================
