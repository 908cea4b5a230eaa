-------------------------------- MODULE Url --------------------------------
(***************************************************************************)
(* URLs: their parts, their text, and references resolved against them.    *)
(* A state is [pr, us, pw, hn, po, segs, dir, q, h]: scheme, user name,    *)
(* password, host name, port, the segments of the path and whether it ends *)
(* with a solidus, the search parameters <<name, value>> and the fragment; *)
(* parts are held decoded.                                                 *)
(* A URL in an operation has the same shape, its path with dot segments;   *)
(* a reference adds k: "full" | "net" | "abs" | "rel" | "query" | "frag"   *)
(* | "empty".                                                              *)
(***************************************************************************)
EXTENDS Text

UErr(s, e) == [st |-> s, out |-> [r |-> e]]
UOk(s)     == UErr(s, "ok")

(* ---- percent-encoding ---------------------------------------------------- *)
Ascii == Chars(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~")
AsciiSet == {Ascii[i] : i \in 1 .. Len(Ascii)}
IxTab == [c \in AsciiSet |-> CHOOSE i \in 1 .. Len(Ascii) : Ascii[i] = c]
Hex == Chars("0123456789ABCDEF")
(* One character beyond ASCII is used: U+00E9                                 *)
Pct(c) == IF c \notin AsciiSet THEN "%C3%A9"
          ELSE LET k == 31 + IxTab[c] IN "%" \o Hex[(k \div 16) + 1] \o Hex[(k % 16) + 1]
Alnum == LowerSet \cup UpperSet \cup Digits
Unres == Alnum \cup {"_", ".", "-", "~"}
Enc(s, safe) == Str([i \in 1 .. Len(s) |-> IF Ch(s, i) \in Unres \cup safe THEN Ch(s, i) ELSE Pct(Ch(s, i))])
InSet(s) == {Ch(s, i) : i \in 1 .. Len(s)}
PathSafe == InSet("&:;=@[]")
HashSafe == InSet("!#$%&'()*+,/:;=?@[\\]^{|}")
KeySafe == InSet("!$%()*,/:;?@[\\]^`{|}")
HexSet == Digits \cup InSet("abcdefABCDEF")
(* A percent sign stays where nothing can be mistaken for its digits.        *)
Percent(s) == Str([i \in 1 .. Len(s) |->
                IF Ch(s, i) = "%" /\ i + 2 <= Len(s) /\ Ch(s, i + 1) \in HexSet /\ Ch(s, i + 2) \in HexSet
                THEN "%25" ELSE Ch(s, i)])
Plus(s, safe) == Str([i \in 1 .. Len(s) |-> IF Ch(s, i) = " " THEN "+" ELSE Enc(Ch(s, i), safe)])
\* the two steps together: the percent sign written for one stays as it is
QEnc(s, safe) == Plus(Percent(s), safe)

(* ---- parts ------------------------------------------------------------------ *)
Default == [x \in {"http:", "ws:"} |-> "80"] @@ [x \in {"https:", "wss:"} |-> "443"]
           @@ [x \in {"ftp:"} |-> "21"] @@ [x \in {"gopher:"} |-> "70"] @@ [x \in {"file:"} |-> ""]
Special(p) == p \in DOMAIN Default
DefPort(p) == IF Special(p) THEN Default[p] ELSE ""

Host(s) == IF s.po = "" \/ s.hn = "" \/ s.po = DefPort(s.pr) THEN s.hn ELSE s.hn \o ":" \o s.po
Path(s) == IF s.segs = <<>> THEN "/"
           ELSE "/" \o Join([i \in 1 .. Len(s.segs) |-> Enc(s.segs[i], PathSafe)], "/")
                \o (IF s.dir THEN "/" ELSE "")
(* Search parameters are written in the order of their names.                *)
Rank(c) == IF c \in AsciiSet THEN IxTab[c] ELSE 99
RECURSIVE Less(_, _, _)
Less(a, b, i) ==
  IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN Less(a, b, i + 1) ELSE Rank(Ch(a, i)) < Rank(Ch(b, i))
Sorted(q) == SortSeq(q, LAMBDA x, y : Less(x[1], y[1], 1))
SearchOf(q) ==
  IF q = <<>> THEN ""
  ELSE "?" \o Join([i \in 1 .. Len(q) |->
                     QEnc(Sorted(q)[i][1], KeySafe) \o "=" \o QEnc(Sorted(q)[i][2], KeySafe \cup {"="})], "&")
FormOf(q) ==
  Join([i \in 1 .. Len(q) |-> Plus(Sorted(q)[i][1], {"*"}) \o "=" \o Plus(Sorted(q)[i][2], {"*"})], "&")
Hash(s) == IF s.h = "" THEN "" ELSE "#" \o Enc(Percent(s.h), HashSafe)
User(s) == IF s.us = "" \/ s.hn = "" \/ s.pr = "file:" THEN ""
           ELSE Enc(s.us, {}) \o (IF s.pw = "" THEN "" ELSE ":" \o Enc(s.pw, {})) \o "@"
Bare(s) == s.pr \o "//" \o User(s) \o (IF s.pr = "file:" THEN "" ELSE Host(s)) \o Path(s) \o SearchOf(s.q)
Href(s) == Bare(s) \o Hash(s)
Origin(s) == IF Special(s.pr) /\ s.pr # "file:" /\ s.hn # "" THEN s.pr \o "//" \o Host(s) ELSE "null"

(* ---- paths ------------------------------------------------------------------ *)
RECURSIVE Dots(_, _)      \* without dot segments
Dots(q, acc) ==
  IF q = <<>> THEN acc
  ELSE CASE Head(q) = "." -> Dots(Tail(q), acc)
         [] Head(q) = ".." -> Dots(Tail(q), IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
         [] OTHER -> Dots(Tail(q), Append(acc, Head(q)))
Norm(segs, dir) ==
  LET n == Dots(segs, <<>>)
  IN [segs |-> n,
      dir |-> n # <<>> /\ (dir \/ (segs # <<>> /\ segs[Len(segs)] \in {".", ".."}))]
(* A name given again has the last value.                                     *)
RECURSIVE Params(_, _)
Params(q, acc) ==
  IF q = <<>> THEN acc
  ELSE Params(Tail(q), Append(SelectSeq(acc, LAMBDA x : x[1] # Head(q)[1]), Head(q)))

Of(u) ==
  LET n == Norm(u.segs, u.dir)
  IN [pr |-> Lower(u.pr), us |-> u.us, pw |-> IF u.us = "" THEN "" ELSE u.pw, hn |-> Lower(u.hn), po |-> u.po,
      segs |-> n.segs, dir |-> n.dir, q |-> Params(u.q, <<>>), h |-> u.h]
WithPath(s, segs, dir) == LET n == Norm(segs, dir) IN [s EXCEPT !.segs = n.segs, !.dir = n.dir]
Folder(s) == IF s.dir \/ s.segs = <<>> THEN s.segs ELSE SubSeq(s.segs, 1, Len(s.segs) - 1)

(* What is lost when the text of a URL is read again: a port that is the     *)
(* default, and what has no host to go with.                                 *)
Again(s) == [s EXCEPT !.po = IF @ = DefPort(s.pr) \/ s.hn = "" THEN "" ELSE @,
                      !.us = IF s.hn = "" THEN "" ELSE @,
                      !.pw = IF s.hn = "" \/ s.us = "" THEN "" ELSE @]
Resolve(base, r) ==
  LET s == Again(base)
      q == Params(r.q, <<>>)
  IN CASE r.k = "full" -> Of(r)
       [] r.k = "net" -> Of([r EXCEPT !.pr = s.pr, !.us = "", !.pw = ""])
       [] r.k = "abs" -> [WithPath(s, r.segs, r.dir) EXCEPT !.q = q, !.h = r.h]
       [] r.k = "rel" -> [WithPath(s, Folder(s) \o r.segs, r.dir) EXCEPT !.q = q, !.h = r.h]
       [] r.k = "query" -> [s EXCEPT !.q = q, !.h = r.h]
       [] r.k = "frag" -> [s EXCEPT !.h = r.h]
       [] r.k = "empty" -> [s EXCEPT !.h = ""]

UrlObs(s) == [href |-> Href(s), bare |-> Bare(s), origin |-> Origin(s), pr |-> s.pr,
              us |-> Enc(s.us, {}), pw |-> Enc(s.pw, {}), host |-> Host(s), hn |-> s.hn, po |-> s.po,
              path |-> Path(s), search |-> SearchOf(s.q), hash |-> Hash(s),
              sp |-> Sorted(s.q), form |-> FormOf(s.q)]

(* ---- operations ---------------------------------------------------------------- *)
UrlStart(start) == Of(start.u)
UrlStep(s, op) ==
  LET o == op.name IN
  CASE o = "href" -> UOk(Of(op.u))
    [] o = "bad"  -> UErr(s, "exc:ValueError")
    [] o = "protocol" -> UOk([s EXCEPT !.pr = Lower(op.v) \o ":"])
    [] o = "username" -> UOk([s EXCEPT !.us = op.v])
    [] o = "password" -> UOk([s EXCEPT !.pw = op.v])
    [] o = "host" -> UOk([s EXCEPT !.hn = Lower(op.v), !.po = op.p])
    [] o = "hostname" -> UOk([s EXCEPT !.hn = Lower(op.v), !.po = IF op.p = "" THEN @ ELSE op.p])
    [] o = "port" -> UOk([s EXCEPT !.po = op.v])
    [] o = "pathname" -> UOk(WithPath(s, op.segs, op.dir))
    [] o = "search" -> UOk([s EXCEPT !.q = Params(op.q, <<>>)])
    [] o = "hash" -> UOk([s EXCEPT !.h = op.v])
    [] o = "spset" -> UOk([s EXCEPT !.q = Params(<<op.kv>>, @)])
    [] o = "spdel" -> IF \E i \in 1 .. Len(s.q) : s.q[i][1] = op.key
                      THEN UOk([s EXCEPT !.q = SelectSeq(@, LAMBDA x : x[1] # op.key)])
                      ELSE UErr(s, "exc:KeyError")
    [] o = "resolve" -> [st |-> IF op.go THEN Resolve(s, op.u) ELSE s,
                         out |-> [r |-> "ok", v |-> UrlObs(Resolve(s, op.u))]]
    [] o = "blob" ->   \* a URL around a URL: only the place is that of the inner one
         [st |-> s, out |-> [r |-> "ok", v |-> [origin |-> Origin(Again(s)), pr |-> "blob:", host |-> "",
                                                search |-> SearchOf(Again(s).q), hash |-> Hash(Again(s))]]]
    [] o = "data" ->   \* a data URL holds its text, whatever its spelling
         [st |-> s, out |-> [r |-> "ok", v |-> [text |-> op.t, origin |-> "null", pr |-> "data:", hash |-> "",
                                                type |-> IF op.m = "" THEN "text/plain;charset=US-ASCII" ELSE op.m]]]
    [] o = "again" -> [st |-> s, out |-> [r |-> "ok", v |-> UrlObs(Again(s))]]

(* ---- laws ------------------------------------------------------------------------ *)
Plain(s) == \A i \in 1 .. Len(s.segs) : s.segs[i] \notin {".", ".."}
Unique(s) == \A i, j \in 1 .. Len(s.q) : s.q[i][1] = s.q[j][1] => i = j
Stable(s) == Again(Again(s)) = Again(s) /\ Href(Again(s)) = Href(s)
Neutral(s) ==     \* references that lead nowhere else
  LET r(k) == [k |-> k, pr |-> "", us |-> "", pw |-> "", hn |-> "", po |-> "", segs |-> <<".">>, dir |-> TRUE,
               q |-> s.q, h |-> s.h]
  IN /\ Resolve(s, r("frag")) = Again(s) /\ Resolve(s, r("query")) = Again(s)
     /\ Resolve(s, r("rel")).segs = Folder(s)
     /\ Resolve(Resolve(s, r("rel")), r("rel")) = Resolve(s, r("rel"))
=============================================================================
