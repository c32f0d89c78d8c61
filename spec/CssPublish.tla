----------------------------- MODULE CssPublish -----------------------------
(* What publishing a stylesheet may do to it: local urls get a version, data   *)
(* images become urls of files, import commands become the declarations of a   *)
(* rule (icon commands: see CssIcons), and nothing else changes.               *)
EXTENDS CssLex
P(k, s) == k.t = "p" /\ k.v = S(s)
Mk(t, v) == [t |-> t, v |-> v, x |-> <<>>, b |-> 0, e |-> 0]
Blankish(k) == k.t \in {"ws", "c"}

---- \* positions of urls: unquoted ones, and strings following url(
UrlStrings(toks) ==
    FoldLeft(LAMBDA a, i : CASE toks[i].t = "fn" /\ Lowered(toks[i].v) = S("url") -> [a EXCEPT !.in = TRUE]
                             [] a.in /\ toks[i].t = "str" -> [at |-> a.at \cup {i}, in |-> FALSE]
                             [] a.in /\ Blankish(toks[i]) -> a
                             [] OTHER -> [a EXCEPT !.in = FALSE],
             [at |-> {}, in |-> FALSE], [i \in 1..Len(toks) |-> i]).at
Urls(toks) == {i \in 1..Len(toks) : toks[i].t = "url"} \cup UrlStrings(toks)
\* paths from the root of the site, without a query
Local(v) == /\ StartsWith(v, S("/")) /\ ~StartsWith(v, S("//")) /\ ~Has(v, C("?"))
PathOf(v) == LET h == Index(v, C("#")) IN IF h = 0 THEN v ELSE SubSeq(v, 1, h - 1)
FragmentOf(v) == LET h == Index(v, C("#")) IN IF h = 0 THEN <<>> ELSE SubSeq(v, h, Len(v))

---- \* data urls: what they denote
IsData(v) == StartsWith(Lowered(v), S("data:image/")) /\ Has(v, C(","))
DataSplit(v) ==
    LET c == Index(v, C(","))
        head == SplitAt(Lowered(SubSeq(v, 6, c - 1)), C(";"))
    IN  [type |-> head[1], b64 |-> Trim(Last(head), {32}) = S("base64") /\ Len(head) > 1, data |-> SubSeq(v, c + 1, Len(v))]
Utf8(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
             [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Unpercent(t) ==
    FoldLeft(LAMBDA a, i : IF i < a.n THEN a
                           ELSE IF t[i] = 37 /\ HexD(At(t, i + 1)) /\ HexD(At(t, i + 2))
                           THEN [n |-> i + 3, o |-> Append(a.o, HexValue(SubSeq(t, i + 1, i + 2)))]
                           ELSE [n |-> i + 1, o |-> a.o \o Utf8(t[i])],
             [n |-> 1, o |-> <<>>], [i \in 1..Len(t) |-> i]).o
Alphabet64 == S("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
Value64(c) == Index(Alphabet64, c) - 1
Unbase64(t) ==   \* [ok, o]
    LET u == SelectSeq(t, LAMBDA c : c \notin {9, 10, 12, 13, 32})
        pad == IF EndsWith(u, S("==")) THEN 2 ELSE IF EndsWith(u, S("=")) THEN 1 ELSE 0
        d == IF Len(u) % 4 = 0 THEN SubSeq(u, 1, Len(u) - pad) ELSE u
        bits == FoldLeft(LAMBDA a, c :
                   LET v == Value64(c)
                       n == a.n + 6
                       w == (a.w % 256) * 64 + v
                   IN  IF n >= 8 THEN [n |-> n - 8, w |-> w % (2 ^ (n - 8)), o |-> Append(a.o, w \div (2 ^ (n - 8)))]
                       ELSE [n |-> n, w |-> w, o |-> a.o], [n |-> 0, w |-> 0, o |-> <<>>], d)
    IN  [ok |-> (\A i \in 1..Len(d) : Value64(d[i]) >= 0) /\ Len(d) % 4 # 1, o |-> bits.o]
Denoted(v) == LET s == DataSplit(v)
                  raw == Unpercent(s.data)
              IN  IF s.b64 THEN Unbase64(raw) ELSE [ok |-> TRUE, o |-> raw]

---- \* rules and imports
Spaces == {9, 10, 32}
\* text of a comment which is an import command -> [is, sel, from ("" if the default file)]
Words(t) == SelectSeq(SplitAt([i \in 1..Len(t) |-> IF t[i] \in Spaces THEN 32 ELSE t[i]], 32), LAMBDA w : w # <<>>)
None == [is |-> FALSE, sel |-> <<>>, from |-> <<>>, odd |-> FALSE]
Import(v) ==
    LET w0 == Words(v)
        w == IF w0 # <<>> /\ w0[1] = S("!") THEN <<S("!") \o (IF Len(w0) > 1 THEN w0[2] ELSE <<>>)>> \o SubSeq(w0, 3, Len(w0)) ELSE w0
    IN  IF Len(w) < 3 \/ w[1] # S("!PREPROCESSOR:") \/ w[2] # S("import") THEN None
        ELSE LET args == SubSeq(w, 3, Len(w))
                 froms == {i \in 1..Len(args) : Lowered(args[i]) = S("from")}
             IN  IF froms = {} THEN [is |-> TRUE, sel |-> Join(args, <<32>>), from |-> <<>>, odd |-> FALSE]
                 ELSE LET f == CHOOSE i \in froms : \A j \in froms : i <= j IN
                      IF Cardinality(froms) > 1 \/ f = 1 \/ f + 1 # Len(args) \/ ~StartsWith(args[f + 1], S("/"))
                      THEN [is |-> FALSE, sel |-> <<>>, from |-> <<>>, odd |-> TRUE]
                      ELSE [is |-> TRUE, sel |-> Join(SubSeq(args, 1, f - 1), <<32>>), from |-> args[f + 1], odd |-> FALSE]
ImportAt(toks, i) == IF toks[i].t = "c" THEN Import(toks[i].v) ELSE None
\* the style rules at the top level: sequence of [sel, from, to]; the block is toks[from..to]
TopRules(text, toks) ==
    LET Sel(a, b) == Trim(SubSeq(text, toks[a].b, toks[b].e), Spaces)
        Step(s, i) ==
            LET k == toks[i] IN
            CASE s.depth > 0 ->
                    LET d == s.depth + (IF P(k, "{") THEN 1 ELSE IF P(k, "}") THEN -1 ELSE 0) IN
                    IF d > 0 THEN [s EXCEPT !.depth = d]
                    ELSE [s EXCEPT !.depth = 0, !.start = 0,
                                   !.o = IF s.at THEN @ ELSE Append(@, [sel |-> s.sel, from |-> s.open + 1, to |-> i - 1])]
              [] s.start = 0 -> IF Blankish(k) \/ P(k, "<!--") \/ P(k, "-->") THEN s
                                ELSE IF P(k, "{") THEN [s EXCEPT !.depth = 1, !.at = FALSE, !.sel = <<>>, !.open = i]
                                ELSE [s EXCEPT !.start = i, !.at = k.t = "at"]
              [] s.at /\ P(k, ";") -> [s EXCEPT !.start = 0]
              [] P(k, "{") -> [s EXCEPT !.depth = 1, !.open = i, !.sel = Sel(s.start, i - 1)]
              [] OTHER -> s
    IN  FoldLeft(Step, [depth |-> 0, start |-> 0, at |-> FALSE, sel |-> <<>>, open |-> 0, o |-> <<>>],
                 [i \in 1..Len(toks) |-> i]).o
TrimWs(ks) == LET a == {i \in 1..Len(ks) : ks[i].t # "ws"}
              IN IF a = {} THEN <<>> ELSE SubSeq(ks, CHOOSE i \in a : \A j \in a : i <= j, CHOOSE i \in a : \A j \in a : i >= j)
\* files: path -> [text, toks, rules]; here: path of the stylesheet; result [ok, o]
\* ok: "" or what's wrong
File(files, here, imp, deflt) == IF imp.from = <<>> THEN deflt ELSE imp.from
RECURSIVE Expand(_, _, _, _, _)
Expand(files, here, deflt, ks, stack) ==
    FoldLeft(LAMBDA a, i :
       LET imp == IF ks[i].t = "c" THEN Import(ks[i].v) ELSE None
           f == File(files, here, imp, deflt)
       IN
       IF a.ok # "" \/ ~imp.is THEN [a EXCEPT !.o = Append(@, ks[i])]
       ELSE IF f \notin DOMAIN files THEN [a EXCEPT !.ok = "no file"]
       ELSE LET rs == SelectSeq(files[f].rules, LAMBDA r : r.sel = imp.sel) IN
            IF rs = <<>> THEN [a EXCEPT !.ok = "missing"]
            ELSE IF <<f, imp.sel>> \in stack THEN [a EXCEPT !.ok = "circular"]
            ELSE IF Len(rs) > 1 THEN [a EXCEPT !.ok = "several"]
            ELSE LET sub == Expand(files, f, deflt, SubSeq(files[f].toks, rs[1].from, rs[1].to), stack \cup {<<f, imp.sel>>})
                     b == TrimWs(sub.o)
                     sig == SelectSeq(b, LAMBDA k : ~Blankish(k))
                     end == IF sig = <<>> \/ P(Last(sig), ";") \/ P(Last(sig), "}") THEN <<>> ELSE <<Mk("p", S(";"))>>
                 IN  [ok |-> sub.ok, o |-> a.o \o b \o end],
     [ok |-> "", o |-> <<>>], [i \in 1..Len(ks) |-> i])

---- \* comparing
SameToken(a, b) == a.t = b.t /\ a.v = b.v /\ a.x = b.x
\* white space next to white space is white space
MergeWs(ks) == FoldLeft(LAMBDA a, k : IF k.t = "ws" /\ a # <<>> /\ Last(a).t = "ws" THEN a ELSE Append(a, k), <<>>, ks)
\* a semicolon before the end of a block or another semicolon means nothing
RECURSIVE NextSig(_, _)
NextSig(ks, i) == IF i > Len(ks) THEN Mk("end", <<>>) ELSE IF Blankish(ks[i]) THEN NextSig(ks, i + 1) ELSE ks[i]
RECURSIVE PrevSig(_, _)
PrevSig(ks, i) == IF i = 0 THEN Mk("p", S("{")) ELSE IF Blankish(ks[i]) THEN PrevSig(ks, i - 1) ELSE ks[i]
DropSemis(ks) == FoldLeft(LAMBDA a, i : IF P(ks[i], ";") /\ (P(NextSig(ks, i + 1), "}") \/ P(NextSig(ks, i + 1), ";")) THEN a
                                        ELSE Append(a, ks[i]), <<>>, [i \in 1..Len(ks) |-> i])
FirstDiff(a, b) == CHOOSE i \in 1..(Len(a) + 1) :
                     /\ \A j \in 1..(i - 1) : j <= Len(b) /\ SameToken(a[j], b[j])
                     /\ (i <= Len(a) => (i > Len(b) \/ ~SameToken(a[i], b[i])))
=============================================================================
