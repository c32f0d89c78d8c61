------------------------------ MODULE HtmlLex ------------------------------
(* The tokens of well-formed HTML: start and end tags, text (with character    *)
(* references resolved, adjacent text joined), comments and doctypes.          *)
EXTENDS Chars
Ws == {9, 10, 12, 13, 32}
Tok(k, n, a, t) == [k |-> k, n |-> n, a |-> a, t |-> t]
Text(t) == Tok("text", <<>>, {}, t)
Comment(t) == Tok("comment", <<>>, {}, t)
Open(n, a) == Tok("open", n, a, <<>>)
Close(n) == Tok("close", n, {}, <<>>)
LowerText(t) == E([i \in 1..Len(t) |-> Lower(t[i])])
Void == {S("link"), S("meta"), S("img"), S("br"), S("hr"), S("input"), S("source"), S("area"), S("base"), S("col"), S("embed"), S("wbr"), S("track"), S("param")}
RawText == {S("script"), S("style")}
RcData == {S("title"), S("textarea")}
RECURSIVE Until(_, _, _)
Until(t, p, W) == IF p > Len(t) \/ t[p] \in W THEN p ELSE Until(t, p + 1, W)
RECURSIVE While(_, _, _)
While(t, p, W) == IF p > Len(t) \/ t[p] \notin W THEN p ELSE While(t, p + 1, W)
\* whether s (given in lower case) is at position p of t, in any case
At(t, p, s) == p + Len(s) - 1 <= Len(t) /\ \A i \in 1..Len(s) : Lower(t[p + i - 1]) = s[i]
\* the first position of s in t from p on, 0 if there is none
RECURSIVE Find(_, _, _)
Find(t, s, p) == IF p > Len(t) THEN 0 ELSE IF At(t, p, s) THEN p ELSE Find(t, s, p + 1)
\* character references
Named == <<<<S("amp"), 38>>, <<S("lt"), 60>>, <<S("gt"), 62>>, <<S("quot"), 34>>, <<S("nbsp"), 160>>, <<S("eacute"), 233>>, <<S("copy"), 169>>>>
Reference(r) ==
    IF \E i \in 1..Len(Named) : Named[i][1] = r THEN Named[CHOOSE i \in 1..Len(Named) : Named[i][1] = r][2]
    ELSE IF Len(r) > 2 /\ r[1] = 35 /\ Lower(r[2]) = 120 /\ (\A i \in 3..Len(r) : Hex(r[i])) THEN HexValue(SubSeq(r, 3, Len(r)))
    ELSE IF Len(r) > 1 /\ r[1] = 35 /\ (\A i \in 2..Len(r) : Digit(r[i])) THEN FoldLeft(LAMBDA a, d : 10 * a + d - 48, 0, SubSeq(r, 2, Len(r)))
    ELSE 0
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(t, p, o) ==
    LET q == IndexFrom(t, 38, p) IN
    IF q = 0 THEN o \o SubSeq(t, p, Len(t))
    ELSE LET e == Until(t, q + 1, {59, 38, 32, 10})
             c == IF e <= Len(t) /\ t[e] = 59 THEN Reference(SubSeq(t, q + 1, e - 1)) ELSE 0
         IN  IF c = 0 THEN DecodeFrom(t, q + 1, o \o SubSeq(t, p, q)) ELSE DecodeFrom(t, e + 1, o \o SubSeq(t, p, q - 1) \o <<c>>)
Decode(t) == IF Has(t, 38) THEN DecodeFrom(t, 1, <<>>) ELSE t
\* attributes which are present or absent whatever their value is
Switches == {S("async"), S("defer"), S("nomodule"), S("disabled"), S("checked"), S("hidden"), S("ismap")}
\* from position p behind a tag's name: [a: set of <<name, value>>, p: behind the tag]
RECURSIVE Attributes(_, _, _)
Attributes(t, p, a) ==
    LET q == While(t, p, Ws \cup {47}) IN
    IF q > Len(t) THEN [a |-> a, p |-> q]
    ELSE IF t[q] = 62 THEN [a |-> a, p |-> q + 1]
    ELSE LET e == Until(t, q + 1, Ws \cup {47, 62, 61})
             name == LowerText(SubSeq(t, q, e - 1))
             f == While(t, e, Ws)
             has == f <= Len(t) /\ t[f] = 61
             v == While(t, f + 1, Ws)
             quoted == v <= Len(t) /\ t[v] \in {34, 39}
             w == IF quoted THEN Until(t, v + 1, {t[v]}) ELSE Until(t, v, Ws \cup {62})
             value == IF ~has \/ name \in Switches THEN <<>> ELSE Decode(SubSeq(t, IF quoted THEN v + 1 ELSE v, w - 1))
             more == IF \E x \in a : x[1] = name THEN a ELSE a \cup {<<name, value>>}
         IN  Attributes(t, IF ~has THEN e ELSE IF quoted THEN w + 1 ELSE w, more)
\* comments are also known in text elements
RECURSIVE RcTokens(_, _, _)
RcTokens(t, p, o) ==
    LET q == Find(t, S("<!--"), p)
        e == IF q = 0 THEN 0 ELSE Find(t, S("-->"), q + 4)
    IN  IF e = 0 THEN Append(o, Text(Decode(SubSeq(t, p, Len(t)))))
        ELSE RcTokens(t, e + 3, o \o <<Text(Decode(SubSeq(t, p, q - 1))), Comment(SubSeq(t, q + 4, e - 1))>>)
RECURSIVE LexFrom(_, _, _, _)
LexFrom(t, p, raw, o) ==
    IF p > Len(t) THEN o
    ELSE IF raw # <<>> THEN
        LET q == Find(t, S("</") \o raw, p)
            s == SubSeq(t, p, IF q = 0 THEN Len(t) ELSE q - 1)
        IN  LexFrom(t, p + Len(s), <<>>, IF raw \in RcData THEN RcTokens(s, 1, o) ELSE Append(o, Text(s)))
    ELSE IF t[p] # 60 THEN
        LET q == Until(t, p, {60}) IN LexFrom(t, q, <<>>, Append(o, Text(Decode(SubSeq(t, p, q - 1)))))
    ELSE IF At(t, p, S("<!--")) /\ Find(t, S("-->"), p + 4) > 0 THEN
        LET q == Find(t, S("-->"), p + 4) IN LexFrom(t, q + 3, <<>>, Append(o, Comment(SubSeq(t, p + 4, q - 1))))
    ELSE IF At(t, p, S("<!")) THEN
        LET q == Until(t, p, {62}) IN LexFrom(t, q + 1, <<>>, Append(o, Tok("doctype", <<>>, {}, LowerText(SubSeq(t, p + 2, q - 1)))))
    ELSE IF At(t, p, S("</")) THEN
        LET q == Until(t, p, {62}) IN LexFrom(t, q + 1, <<>>, Append(o, Close(LowerText(Trim(SubSeq(t, p + 2, q - 1), Ws)))))
    ELSE IF p < Len(t) /\ Letter(t[p + 1]) THEN
        LET e == Until(t, p + 1, Ws \cup {47, 62})
            name == LowerText(SubSeq(t, p + 1, e - 1))
            r == Attributes(t, e, {})
        IN  LexFrom(t, r.p, IF name \in RawText \cup RcData THEN name ELSE <<>>, Append(o, Open(name, r.a)))
    ELSE LexFrom(t, p + 1, <<>>, Append(o, Text(<<60>>)))
\* adjacent text joined, none of it empty
Joined(ks) ==
    FoldLeft(LAMBDA a, k :
        IF k.k # "text" THEN Append(a, k)
        ELSE IF k.t = <<>> THEN a
        ELSE IF a # <<>> /\ Last(a).k = "text" THEN [a EXCEPT ![Len(a)].t = @ \o k.t]
        ELSE Append(a, k), <<>>, ks)
Lex(t) == Joined(LexFrom(t, 1, <<>>, <<>>))
Value(k, name) == IF \E x \in k.a : x[1] = name THEN (CHOOSE x \in k.a : x[1] = name)[2] ELSE <<>>
HasAttr(k, name) == \E x \in k.a : x[1] = name
Without(k, name) == {x \in k.a : x[1] # name}
=============================================================================
