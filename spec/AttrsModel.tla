----------------------------- MODULE AttrsModel -----------------------------
(* Every short sequence of operations on the attributes of one or two      *)
(* elements, through every view of them.                                   *)
EXTENDS Attrs, ModelBase

AttrsStarts == {[el |-> <<<<<<"class", "a b">>, <<"data-foo", "v">>>>, <<>>>>]}
AttrsStartsBig == AttrsStarts \cup
  {[el |-> <<<<<<"class", " b a  b">>>>, <<<<"class", "q">>, <<"id", "">>>>>>]}

E(s)  == 1 .. Len(s.el)
NM == {"class", "data-foo"}
VL == {"b c", "", NONE}
AttrsModelOps(s) ==
  {[name |-> "set_attribute", e |-> e, n |-> n, v |-> v, w |-> w] :
      e \in E(s), n \in NM, v \in VL, w \in {0, 2}}
  \cup {[name |-> nm, e |-> e, n |-> n, w |-> 0] :
      nm \in {"map_del", "remove_attribute", "remove_named", "raw_del"},
      e \in E(s), n \in NM}
  \cup {[name |-> "raw_set", e |-> 1, n |-> n, v |-> "q", w |-> 0] : n \in NM}
  \cup (IF Len(s.A) < 5 THEN {[name |-> "new_attr", n |-> "class", v |-> "z a"]} ELSE {})
  \cup {[name |-> "set_node", e |-> e, a |-> a, w |-> 0] :
      e \in E(s), a \in 1 .. Len(s.A)}
  \cup {[name |-> "remove_node", e |-> 1, a |-> a] : a \in 1 .. Len(s.A)}
  \cup {[name |-> "attr_value", a |-> a, v |-> v, w |-> 0] :
      a \in 1 .. Len(s.A), v \in {"p", ""}}
  \cup {[name |-> "toggle", e |-> 1, n |-> n, i |-> i, w |-> 0] :
      n \in NM, i \in {-1, 0, 1}}
  \cup {[name |-> "token", e |-> 1, f |-> f, ts |-> <<t>>, i |-> i, w |-> 0] :
      f \in {"toggle", "set", "insert"}, t \in {"a", "c"}, i \in {-1, 0, 1}}
  \cup {[name |-> "token", e |-> 1, f |-> "add", ts |-> q, i |-> 0, w |-> 0] :
      q \in {<<"c", "a", "c">>, <<"c", "">>}}
  \cup {[name |-> "token", e |-> 1, f |-> "remove", ts |-> q, i |-> 0, w |-> 0] :
      q \in {<<"a">>, <<"b", "a">>, <<"a", "x y">>}}
  \cup {[name |-> "token", e |-> 1, f |-> "replace", ts |-> q, i |-> 0, w |-> 0] :
      q \in {<<"a", "b">>, <<"a", "c">>, <<"c", "a">>, <<"a", "a">>}}
  \cup {[name |-> "token", e |-> 1, f |-> "del", ts |-> <<"">>, i |-> i, w |-> 0] :
      i \in {0, -1, 2}}
  \cup {[name |-> "data", e |-> e, f |-> f, k |-> k, v |-> "v"] :
      e \in E(s), f \in {"set", "del"}, k \in {"foo", "fooBar", "foo-bar"}}

AttrsModelInv == AttrsInv(st)
RefusedSame == [][last'.out.r # "ok" => st' = st]_mvars
=============================================================================
