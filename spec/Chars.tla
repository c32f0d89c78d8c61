------------------------------- MODULE Chars -------------------------------
(* Texts are sequences of code points. S("abc") is the text abc.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch)]
S(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
C(str) == CodeOf[str]
EOF == -1
LF == 10
Digit(c) == c \in 48..57
Hex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexDigit(c) == IF c < 58 THEN c - 48 ELSE IF c < 71 THEN c - 55 ELSE c - 87
Letter(c) == c \in 65..90 \/ c \in 97..122
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
HexValue(h) == FoldLeft(LAMBDA a, d : IF a > 1114111 THEN a ELSE 16 * a + HexDigit(d), 0, h)
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
EndsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
Has(t, c) == \E i \in 1..Len(t) : t[i] = c
\* index of the first occurrence of c in t, 0 if there is none
RECURSIVE IndexFrom(_, _, _)
IndexFrom(t, c, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE IndexFrom(t, c, i + 1)
Index(t, c) == IndexFrom(t, c, 1)
\* t split at every occurrence of c
SplitAt(t, c) ==
    FoldLeft(LAMBDA a, x : IF x = c THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, x)], <<<<>>>>, t)
Join(ts, sep) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN <<x>> ELSE <<a[1] \o sep \o x>>, <<>>, ts)[1]
LTrim(t, W) == LET k == CHOOSE k \in 0..Len(t) : (\A i \in 1..k : t[i] \in W) /\ (k < Len(t) => t[k + 1] \notin W)
               IN SubSeq(t, k + 1, Len(t))
Trim(t, W) == Reverse(LTrim(Reverse(LTrim(t, W)), W))
\* a code point as UTF-16 units, as scripts see it
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
\* the same sequence; TLC evaluates its elements once
E(f) == f \o <<>>
=============================================================================
