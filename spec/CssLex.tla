------------------------------- MODULE CssLex -------------------------------
(* The tokens of stylesheets, after CSS Syntax Level 3, section 4.             *)
(* Lex(text) is a sequence of [t, v, x, b, e]:                                 *)
(*   "ws"  white space        "c"   comment (v: its text)                      *)
(*   "str" string (v: value)  "badstr"                                         *)
(*   "id" "fn" "at" names (v: value)   "hash" (v: value, x: "id" or "")        *)
(*   "url" (v: value) "badurl" "num" "pct" "dim" (v: number, x: unit)          *)
(*   "p" anything else (v: its text)                                           *)
(* text[b..e] is where the token was.                                          *)
EXTENDS Chars
\* ---- section 3.3
Clean(text) ==
    LET Put(a, c) == CASE c = 10 /\ a.cr -> [a EXCEPT !.cr = FALSE]
                       [] c = 13 -> [o |-> Append(a.o, 10), cr |-> TRUE]
                       [] c = 12 -> [o |-> Append(a.o, 10), cr |-> FALSE]
                       [] c = 0 \/ c \in 55296..57343 -> [o |-> Append(a.o, 65533), cr |-> FALSE]
                       [] OTHER -> [o |-> Append(a.o, c), cr |-> FALSE]
    IN  IF \A i \in 1..Len(text) : text[i] = 10 \/ (text[i] >= 32 /\ text[i] < 55296) THEN text
        ELSE FoldLeft(Put, [o |-> <<>>, cr |-> FALSE], text).o
WS == {9, 10, 32}
At(t, i) == IF i <= Len(t) THEN t[i] ELSE EOF
NameStart(c) == Letter(c) \/ c >= 128 \/ c = 95
Name(c) == NameStart(c) \/ Digit(c) \/ c = 45
NonPrintable(c) == c \in 0..8 \/ c = 11 \/ c \in 14..31 \/ c = 127
HexD(c) == c # EOF /\ Hex(c)
Dig(c) == c # EOF /\ Digit(c)
Escape(t, i) == At(t, i) = 92 /\ At(t, i + 1) # 10
StartsIdent(t, i) ==
    CASE At(t, i) = 45 -> NameStart(At(t, i + 1)) \/ At(t, i + 1) = 45 \/ Escape(t, i + 1)
      [] At(t, i) = 92 -> Escape(t, i)
      [] OTHER -> NameStart(At(t, i))
StartsNumber(t, i) ==
    LET k == IF At(t, i) \in {43, 45} THEN i + 1 ELSE i
    IN Dig(At(t, k)) \/ (At(t, k) = 46 /\ Dig(At(t, k + 1)))

\* the index after the run of characters of Cs which starts at i
RECURSIVE Run(_, _, _)
Run(t, i, Cs) == IF i <= Len(t) /\ t[i] \in Cs THEN Run(t, i + 1, Cs) ELSE i
Digits == 48..57
HexDigits == 48..57 \cup 65..70 \cup 97..102
\* ---- after the backslash: value and the index after it
EscapeAt(t, i) ==
    IF At(t, i) = EOF THEN [v |-> 65533, n |-> i]
    ELSE IF ~Hex(t[i]) THEN [v |-> t[i], n |-> i + 1]
    ELSE LET r == Run(t, i, HexDigits)
             n == IF r > i + 6 THEN i + 6 ELSE r
             h == HexValue(SubSeq(t, i, n - 1))
         IN  [v |-> IF h = 0 \/ h > 1114111 \/ h \in 55296..57343 THEN 65533 ELSE h,
              n |-> IF At(t, n) \in WS THEN n + 1 ELSE n]
RECURSIVE NameFrom(_, _, _)
NameFrom(t, i, a) ==
    IF i <= Len(t) /\ Name(t[i]) THEN NameFrom(t, i + 1, Append(a, t[i]))
    ELSE IF i <= Len(t) /\ Escape(t, i) THEN LET e == EscapeAt(t, i + 1) IN NameFrom(t, e.n, Append(a, e.v))
    ELSE [v |-> a, n |-> i]
NameAt(t, i) == NameFrom(t, i, <<>>)

\* ---- numbers: <<sign, is it an integer, 1000 + exponent>> and the significant digits
RECURSIVE Stripped(_, _)
Stripped(d, e) == IF d = <<>> THEN <<1000>>
                  ELSE IF Last(d) = 48 THEN Stripped(Front(d), e + 1)
                  ELSE IF d[1] = 48 THEN Stripped(Tail(d), e)
                  ELSE <<e + 1000>> \o d
Decimal(d) == FoldLeft(LAMBDA a, c : IF a > 100000 THEN a ELSE 10 * a + (c - 48), 0, d)
NumberAt(t, i) ==
    LET sign == IF At(t, i) \in {43, 45} THEN t[i] ELSE 0
        b == IF sign # 0 THEN i + 1 ELSE i
        p == Run(t, b, Digits)
        whole == SubSeq(t, b, p - 1)
        dot == At(t, p) = 46 /\ Dig(At(t, p + 1))
        q == IF dot THEN Run(t, p + 1, Digits) ELSE p
        frac == IF dot THEN SubSeq(t, p + 1, q - 1) ELSE <<>>
        es == IF At(t, q + 1) \in {43, 45} THEN q + 2 ELSE q + 1
        exp == At(t, q) \in {69, 101} /\ Dig(At(t, es))
        n == IF exp THEN Run(t, es, Digits) ELSE q
        e == IF exp THEN Decimal(SubSeq(t, es, n - 1)) * (IF At(t, q + 1) = 45 THEN -1 ELSE 1) ELSE 0
    IN  [v |-> <<sign, IF dot \/ exp THEN 0 ELSE 1>> \o Stripped(whole \o frac, e - Len(frac)), n |-> n]

Tok(t, v, x, n) == [t |-> t, v |-> v, x |-> x, n |-> n]
NumericAt(t, i) ==
    LET m == NumberAt(t, i) IN
    IF StartsIdent(t, m.n) THEN LET u == NameAt(t, m.n) IN Tok("dim", m.v, u.v, u.n)
    ELSE IF At(t, m.n) = 37 THEN Tok("pct", m.v, <<>>, m.n + 1)
    ELSE Tok("num", m.v, <<>>, m.n)

RECURSIVE StringFrom(_, _, _, _)
StringFrom(t, i, q, a) ==
    CASE At(t, i) = EOF -> Tok("str", a, <<>>, i)
      [] t[i] = q -> Tok("str", a, <<>>, i + 1)
      [] t[i] = 10 -> Tok("badstr", <<>>, <<>>, i)
      [] t[i] = 92 ->
            IF At(t, i + 1) = EOF THEN StringFrom(t, i + 1, q, a)
            ELSE IF t[i + 1] = 10 THEN StringFrom(t, i + 2, q, a)
            ELSE LET e == EscapeAt(t, i + 1) IN StringFrom(t, e.n, q, Append(a, e.v))
      [] OTHER -> StringFrom(t, i + 1, q, Append(a, t[i]))

RECURSIVE Remnants(_, _)
Remnants(t, i) == CASE At(t, i) = EOF -> i
                    [] t[i] = 41 -> i + 1
                    [] Escape(t, i) -> Remnants(t, EscapeAt(t, i + 1).n)
                    [] OTHER -> Remnants(t, i + 1)
RECURSIVE UrlFrom(_, _, _)
UrlFrom(t, i, a) ==
    CASE At(t, i) = EOF -> Tok("url", a, <<>>, i)
      [] t[i] = 41 -> Tok("url", a, <<>>, i + 1)
      [] t[i] \in WS ->
            LET k == Run(t, i, WS) IN
            IF At(t, k) = EOF THEN Tok("url", a, <<>>, k)
            ELSE IF t[k] = 41 THEN Tok("url", a, <<>>, k + 1)
            ELSE Tok("badurl", <<>>, <<>>, Remnants(t, k))
      [] t[i] \in {34, 39, 40} \/ NonPrintable(t[i]) -> Tok("badurl", <<>>, <<>>, Remnants(t, i))
      [] t[i] = 92 ->
            IF Escape(t, i) THEN LET e == EscapeAt(t, i + 1) IN UrlFrom(t, e.n, Append(a, e.v))
            ELSE Tok("badurl", <<>>, <<>>, Remnants(t, i))
      [] OTHER -> UrlFrom(t, i + 1, Append(a, t[i]))
Lowered(v) == [i \in 1..Len(v) |-> Lower(v[i])]
IdentLikeAt(t, i) ==
    LET m == NameAt(t, i) IN
    IF At(t, m.n) # 40 THEN Tok("id", m.v, <<>>, m.n)
    ELSE IF Lowered(m.v) # S("url") THEN Tok("fn", m.v, <<>>, m.n + 1)
    ELSE LET k == Run(t, m.n + 1, WS) IN
         IF At(t, k) \in {34, 39} THEN Tok("fn", m.v, <<>>, m.n + 1) ELSE UrlFrom(t, k, <<>>)

RECURSIVE CommentEnd(_, _)
CommentEnd(t, i) == IF i > Len(t) THEN i - 1
                    ELSE IF t[i] = 42 /\ At(t, i + 1) = 47 THEN i - 1 ELSE CommentEnd(t, i + 1)
TokenAt(t, i) ==
    LET c == t[i]
        p(n) == Tok("p", SubSeq(t, i, i + n - 1), <<>>, i + n)
    IN
    CASE c = 47 /\ At(t, i + 1) = 42 ->
            LET k == CommentEnd(t, i + 2) IN Tok("c", SubSeq(t, i + 2, k), <<>>, k + 3)
      [] c \in WS -> Tok("ws", <<>>, <<>>, Run(t, i, WS))
      [] c \in {34, 39} -> StringFrom(t, i + 1, c, <<>>)
      [] c = 35 /\ (Name(At(t, i + 1)) \/ Escape(t, i + 1)) ->
            LET m == NameAt(t, i + 1) IN Tok("hash", m.v, IF StartsIdent(t, i + 1) THEN S("id") ELSE <<>>, m.n)
      [] c \in {43, 46} -> IF StartsNumber(t, i) THEN NumericAt(t, i) ELSE p(1)
      [] c = 45 -> IF StartsNumber(t, i) THEN NumericAt(t, i)
                   ELSE IF At(t, i + 1) = 45 /\ At(t, i + 2) = 62 THEN p(3)
                   ELSE IF StartsIdent(t, i) THEN IdentLikeAt(t, i) ELSE p(1)
      [] c = 60 /\ At(t, i + 1) = 33 /\ At(t, i + 2) = 45 /\ At(t, i + 3) = 45 -> p(4)
      [] c = 64 /\ StartsIdent(t, i + 1) -> LET m == NameAt(t, i + 1) IN Tok("at", m.v, <<>>, m.n)
      [] c = 92 /\ Escape(t, i) -> IdentLikeAt(t, i)
      [] Digit(c) -> NumericAt(t, i)
      [] NameStart(c) -> IdentLikeAt(t, i)
      [] OTHER -> p(1)
Lex(text) ==
    LET Take(s, i) == IF i < s.n THEN s
                      ELSE LET k == TokenAt(text, i) IN
                           [n |-> k.n, o |-> Append(s.o, [t |-> k.t, v |-> k.v, x |-> k.x, b |-> i,
                                                          e |-> IF k.n > Len(text) THEN Len(text) ELSE k.n - 1])]
    IN  FoldLeft(Take, [n |-> 1, o |-> <<>>], [i \in 1..Len(text) |-> i]).o
=============================================================================
