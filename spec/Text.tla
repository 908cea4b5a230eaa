-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of characters.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1 .. Len(s) |-> SubSeq(s, i, i)]
RECURSIVE JoinFrom(_, _)
JoinFrom(q, i) == IF i > Len(q) THEN "" ELSE q[i] \o JoinFrom(q, i + 1)
Str(q) == JoinFrom(q, 1)          \* concatenation of a sequence of strings

RECURSIVE JoinSep(_, _, _)
JoinSep(q, sep, i) == IF i > Len(q) THEN ""
                      ELSE IF i = Len(q) THEN q[i]
                      ELSE q[i] \o sep \o JoinSep(q, sep, i + 1)
Join(q, sep) == JoinSep(q, sep, 1)

LowerChars == Chars("abcdefghijklmnopqrstuvwxyz")
UpperChars == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LowerSet == {LowerChars[i] : i \in 1 .. 26}
UpperSet == {UpperChars[i] : i \in 1 .. 26}
ToUp == [c \in LowerSet |-> UpperChars[CHOOSE i \in 1 .. 26 : LowerChars[i] = c]]
ToLow == [c \in UpperSet |-> LowerChars[CHOOSE i \in 1 .. 26 : UpperChars[i] = c]]
LowCh(c) == IF c \in UpperSet THEN ToLow[c] ELSE c
Lower(s) == Str([i \in 1 .. Len(s) |-> LowCh(Ch(s, i))])
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitSeq == Chars("0123456789")
DigitVal == [c \in Digits |-> (CHOOSE i \in 1 .. 10 : DigitSeq[i] = c) - 1]
WS == {" ", "\t", "\n", "\r", "\f"}

Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Has(s, x) == \E i \in 1 .. Len(s) : s[i] = x
Ix(s, x)  == CHOOSE i \in 1 .. Len(s) : s[i] = x /\ \A j \in 1 .. i - 1 : s[j] # x
IxOf(s, x) == IF Has(s, x) THEN Ix(s, x) ELSE 0
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
RemAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
HasWS(s) == \E i \in 1 .. Len(s) : Ch(s, i) \in WS

(* Maximal runs of characters that are not separators.                     *)
RECURSIVE SplitFrom(_, _, _, _, _)
SplitFrom(s, i, cur, acc, sep) ==
  IF i > Len(s) THEN IF cur = "" THEN acc ELSE Append(acc, cur)
  ELSE IF Ch(s, i) \in sep
       THEN SplitFrom(s, i + 1, "", IF cur = "" THEN acc ELSE Append(acc, cur), sep)
       ELSE SplitFrom(s, i + 1, cur \o Ch(s, i), acc, sep)
Words(s) == SplitFrom(s, 1, "", <<>>, WS)

RECURSIVE Dedup(_, _)
Dedup(s, acc) == IF s = <<>> THEN acc
                 ELSE Dedup(Tail(s), IF Has(acc, Head(s)) THEN acc
                                     ELSE Append(acc, Head(s)))
=============================================================================
