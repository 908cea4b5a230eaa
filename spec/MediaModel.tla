----------------------------- MODULE MediaModel -----------------------------
(* Every short history of questions and changes of a window.                *)
EXTENDS Media, ModelBase

W0 == [media |-> "screen", sw |-> 1280, sh |-> 720, iw |-> 640, ih |-> 360, dw |-> 0, dh |-> 0,
       depth |-> 8, mono |-> 0, scan |-> "progressive", update |-> "none", gamut |-> "srgb",
       dpr |-> 1000, zoom |-> 1000, angle |-> 0]
MediaStarts == {[w |-> W0, root |-> FALSE],
                [w |-> [W0 EXCEPT !.dw = 300, !.dh = 600, !.media = "print"], root |-> TRUE]}

V(k, a, b, id, u) == [k |-> k, a |-> a, b |-> b, id |-> id, u |-> u]
Px(a) == V("len", a, 1, "", "px")
C(n, form, rel, v, rel2, v2) == [n |-> n, form |-> form, rel |-> rel, v |-> v, rel2 |-> rel2, v2 |-> v2]
F(n, form, v) == C(n, form, "=", v, "=", v)
Q(neg, ty, op, cs) == [neg |-> neg, ty |-> ty, op |-> op, cs |-> cs, junk |-> "", sp |-> 0, up |-> FALSE, mx |-> IF op = "mix" THEN <<"and", "or", "and">> ELSE <<>>]
Conditions ==
  {F("width", f, Px(640)) : f \in {"is", "min", "max", "bool"}}
  \cup {C("height", f, r, Px(a), "=", Px(0)) : f \in {"range", "flip"}, r \in {"<", "<=", ">", ">=", "="}, a \in {360, 600}}
  \cup {C("width", "between", r, Px(300), r2, Px(640)) : r \in {"<", "<="}, r2 \in {"<", "<="}}
  \cup {C("aspect-ratio", "range", r, V("ratio", 16, 9, "", "/"), "=", Px(0)) : r \in {"<", "<=", ">", ">=", "="}}
  \cup {F("device-aspect-ratio", f, V("ratio", 32, 18, "", "/")) : f \in {"is", "min", "max"}}
  \cup {F("resolution", f, V("res", 1500, 1, "", "dpi")) : f \in {"is", "min", "max"}}
  \cup {F(n, f, V("int", a, 1, "", "")) : n \in {"color", "monochrome"}, f \in {"bool", "is", "min"}, a \in {0, 8}}
  \cup {F("color-index", f, V("int", 256, 1, "", "")) : f \in {"is", "max"}}
  \cup {F("grid", f, V("int", 0, 1, "", "")) : f \in {"bool", "is", "min"}}
  \cup {F("orientation", f, V("id", 0, 1, x, "")) : f \in {"is", "min"}, x \in {"portrait", "landscape"}}
  \cup {F("update", f, V("id", 0, 1, x, "")) : f \in {"bool", "is"}, x \in {"none", "fast"}}
  \cup {F("scan", "is", V("id", 0, 1, "interlace", "")), F("color-gamut", "is", V("id", 0, 1, "p3", "")),
        F("hover", "bool", Px(0)), F("max-weight", "bool", Px(0)), F("width", "is", V("bad", 0, 1, "0.254m", ""))}
Ask(l) == [name |-> "ask", sep |-> ",", q |-> l]
SomeC == <<F("color", "bool", Px(0)), C("width", "range", ">=", Px(640), "=", Px(0)),
           F("orientation", "is", V("id", 0, 1, "portrait", ""))>>
MediaAsk(s) ==
  IF Len(s.q) >= 1 THEN {}
  ELSE {Ask(<<Q(neg, "", "and", <<c>>)>>) : neg \in {"", "not"}, c \in Conditions}
       \cup {Ask(<<Q(neg, ty, "and", <<>>)>>) : neg \in {"", "not", "only"}, ty \in {"all", "screen", "print", "unknown"}}
       \cup {Ask(<<Q(neg, ty, "and", cs)>>) :
               neg \in {"", "only"}, ty \in {"all", "print"},
               cs \in {<<SomeC[i], SomeC[j]>> : i, j \in 1 .. 3}}
       \cup {Ask(<<Q("", "", op, <<SomeC[i], SomeC[j], SomeC[k]>>)>>) :
               op \in {"and", "or", "mix"}, i, j, k \in 1 .. 3}
       \cup {Ask(<<Q("", "print", "and", <<>>), Q("", "", "and", <<c>>)>>) : c \in ToSet(SomeC)}
Set(f, v) == [name |-> "set", f |-> f, v |-> v]
Word_(f, t) == [name |-> "word", f |-> f, t |-> t]
MediaSet(s) ==
  {Set("iw", 300), Set("iw", 640), Set("ih", 600), Set("sw", 720), Set("angle", 90), Set("angle", 135),
   Set("angle", 180), Set("depth", 0), Set("depth", 8), Set("mono", 8), Word_("media", "print"),
   Word_("update", "fast"), Word_("scan", "interlace"), Word_("gamut", "p3"), Set("dpr", 3000), Set("zoom", 500)}
MediaOps(s) == MediaAsk(s) \cup MediaSet(s)
ModelSound == Sound(st)
(* Asking changes no answer already given, nor does what goes unasked.       *)
ACStable ==
  LET o == last'.op
  IN /\ o.name = "ask" => SubSeq(MediaObs(st').m, 1, Len(st.q)) = MediaObs(st).m
     /\ (o.name \in {"set", "word"} /\ o.f # "media") =>
          \A i \in 1 .. Len(st.q) :
            (\A j \in 1 .. Len(st.q[i]) : st.q[i][j].cs = <<>>) =>
               Matches(st.w, st.q[i]) = Matches(st'.w, st'.q[i])
=============================================================================
