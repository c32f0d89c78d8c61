------------------------------ MODULE CssIcons ------------------------------
(* Icon commands in stylesheets:                                               *)
(*   /*! PREPROCESSOR: icon NAME COLOUR colours sizes [buttons] */             *)
(* becomes one class per size and colour, classes of buttons per size, and one *)
(* recoloured copy of the icon per colour used. What colours and sizes there   *)
(* are, the :root rule of the default stylesheet says.                         *)
EXTENDS CssPublish, CssColours, TLC

---- \* the settings
\* ks up to the next token for which nesting is 0 and which is ";" : declarations of a block
Declarations(ks) ==
    LET Opens(k) == k.t = "fn" \/ P(k, "(") \/ P(k, "[") \/ P(k, "{")
        Closes(k) == P(k, ")") \/ P(k, "]") \/ P(k, "}")
        Step(a, k) == CASE Blankish(k) -> a
                        [] a.d = 0 /\ P(k, ";") -> [a EXCEPT !.o = Append(@, a.cur), !.cur = <<>>]
                        [] OTHER -> [a EXCEPT !.cur = Append(@, k),
                                              !.d = IF Opens(k) THEN @ + 1 ELSE IF Closes(k) /\ @ > 0 THEN @ - 1 ELSE @]
        r == FoldLeft(Step, [d |-> 0, cur |-> <<>>, o |-> <<>>], ks)
    IN  SelectSeq(Append(r.o, r.cur), LAMBDA d : Len(d) > 2 /\ d[1].t = "id" /\ P(d[2], ":"))
AllHex(v) == \A i \in 1..Len(v) : Hex(v[i])
\* a colour is <<r, g, b>>; <<>>: none
Colour(value) ==
    IF Len(value) # 1 THEN <<>>
    ELSE LET k == value[1] IN
         CASE k.t = "id" -> NamedColour(Lowered(k.v))
           [] k.t = "hash" /\ AllHex(k.v) /\ Len(k.v) = 6 -> [i \in 1..3 |-> HexValue(SubSeq(k.v, 2 * i - 1, 2 * i))]
           [] k.t = "hash" /\ AllHex(k.v) /\ Len(k.v) = 3 -> [i \in 1..3 |-> 17 * HexDigit(k.v[i])]
           [] OTHER -> <<>>
Distinct(seq) == FoldLeft(LAMBDA a, x : IF x \in ToSet(a) THEN a ELSE Append(a, x), <<>>, seq)
After(v, prefix) == SubSeq(v, Len(prefix) + 1, Len(v))
\* [colours: function name -> colour, order, sizes]
Settings(source) ==
    LET text == source \o S("}")   \* the end of the file ends the rule
        toks == Lex(text)
        roots == SelectSeq(TopRules(text, toks), LAMBDA r : r.sel = S(":root"))
        ds == IF roots = <<>> THEN <<>> ELSE Declarations(SubSeq(toks, roots[1].from, roots[1].to))
        cols == SelectSeq(ds, LAMBDA d : StartsWith(d[1].v, S("--col-")) /\ Colour(SubSeq(d, 3, Len(d))) # <<>>)
        sizes == SelectSeq(ds, LAMBDA d : StartsWith(d[1].v, S("--icon-size-")))
        names == E([i \in 1..Len(cols) |-> After(cols[i][1].v, S("--col-"))])
    IN  [colours |-> FoldLeft(LAMBDA a, i : (names[i] :> Colour(SubSeq(cols[i], 3, Len(cols[i])))) @@ a, [n \in {} |-> <<>>], [i \in 1..Len(cols) |-> i]),
         order |-> Distinct(names),
         sizes |-> Distinct([i \in 1..Len(sizes) |-> After(sizes[i][1].v, S("--icon-size-"))]),
         roots |-> Len(roots)]
\* configured buttons: [d: <<>> nothing said, <<"null">>, or colours ("-": not given), by: sequence of
\* <<identifier, colours...>>] -> sequence of [id, cs]; id <<>>: the one without identifier
Base == <<S("primary"), S("primary-dark"), S("disabled")>>
Given(cs, base) == [i \in 1..3 |-> IF cs[i] = "-" THEN base[i] ELSE S(cs[i])]
Configured(cfg) ==
    LET d == IF cfg.d = <<>> THEN <<Base>> ELSE IF cfg.d = <<"null">> THEN <<>> ELSE <<Given(cfg.d, Base)>>
        base == IF d = <<>> THEN Base ELSE d[1]
    IN  [i \in 1..Len(d) |-> [id |-> <<>>, cs |-> d[i]]]
        \o [i \in 1..Len(cfg.by) |-> [id |-> S(cfg.by[i][1]), cs |-> Given(SubSeq(cfg.by[i], 2, 4), base)]]

---- \* commands
IconHead(v) ==  \* "." and what follows "! PREPROCESSOR: icon "; <<>> if it is no icon command
    LET s(t) == LTrim(t, Spaces)
        a == s(v)
        b == IF StartsWith(a, S("!")) THEN s(After(a, S("!"))) ELSE <<>>
        c == IF StartsWith(b, S("PREPROCESSOR")) THEN s(After(b, S("PREPROCESSOR"))) ELSE <<>>
        d == IF StartsWith(c, S(":")) /\ Len(c) > 1 /\ c[2] \in Spaces THEN s(After(c, S(":"))) ELSE <<>>
        e == IF StartsWith(d, S("icon")) /\ Len(d) > 4 /\ d[5] \in Spaces THEN After(d, S("icon")) ELSE <<>>
    IN  IF e = <<>> THEN <<>> ELSE S(".") \o s(e)
\* tokens of the arguments without blanks and comments up to the end of the line
Arguments(text) ==
    LET toks == Lex(text)
        Step(a, i) ==
            LET k == toks[i] IN
            CASE a.skip -> IF k.t = "ws" /\ Has(SubSeq(text, k.b, k.e), 10) THEN [a EXCEPT !.skip = FALSE] ELSE a
              [] P(k, "/") /\ i < Len(toks) /\ P(toks[i + 1], "/") -> [a EXCEPT !.skip = TRUE]
              [] k.t = "ws" -> a
              [] OTHER -> [a EXCEPT !.o = Append(@, k)]
    IN  FoldLeft(Step, [skip |-> FALSE, o |-> <<>>], [i \in 1..Len(toks) |-> i]).o
Word(k, w) == k.t = "id" /\ k.v = S(w)
Nth(ks, i) == IF i <= Len(ks) THEN ks[i] ELSE Mk("end", <<>>)
\* a list of strings from position i: [ok, vs, n]
StringList(ks, i) ==
    IF ~P(Nth(ks, i), "[") \/ ~\E j \in i..Len(ks) : P(ks[j], "]") THEN [ok |-> FALSE, vs |-> <<>>, n |-> i]
    ELSE LET e == CHOOSE j \in i..Len(ks) : P(ks[j], "]") /\ \A m \in i..(j - 1) : ~P(ks[m], "]")
             items == SubSeq(ks, i + 1, e - 1)
             ok == \A j \in 1..Len(items) : IF j % 2 = 1 THEN items[j].t = "str" ELSE P(items[j], ",")
         IN  [ok |-> ok, vs |-> E([j \in 1..((Len(items) + 1) \div 2) |-> items[2 * j - 1].v]), n |-> e + 1]
RECURSIVE ButtonMap(_, _, _)
ButtonMap(ks, i, o) ==   \* from behind "{": [ok, o, n]
    IF P(Nth(ks, i), "}") THEN [ok |-> TRUE, o |-> o, n |-> i + 1]
    ELSE IF Nth(ks, i).t # "str" \/ ~P(Nth(ks, i + 1), ":") THEN [ok |-> FALSE, o |-> o, n |-> i]
    ELSE LET l == StringList(ks, i + 2)
             id == IF ks[i].v = S("default") THEN <<>> ELSE ks[i].v
             entry == [id |-> id, cs |-> l.vs]
         IN  IF ~l.ok \/ Len(l.vs) # 3 THEN [ok |-> FALSE, o |-> o, n |-> i]
             ELSE LET o2 == Append(SelectSeq(o, LAMBDA x : x.id # id), entry) IN
                  IF P(Nth(ks, l.n), "}") THEN [ok |-> TRUE, o |-> o2, n |-> l.n + 1]
                  ELSE IF P(Nth(ks, l.n), ",") THEN ButtonMap(ks, l.n + 1, o2)
                  ELSE [ok |-> FALSE, o |-> o, n |-> i]
\* is: "no", "yes", "bad", "odd" (goes on after what it needs)
NoIcon == [is |-> "no", name |-> <<>>, from |-> <<>>, colours |-> <<>>, sizes |-> <<>>, buttons |-> <<>>]
Icon(v, settings, cfg) ==
    IF IconHead(v) = <<>> THEN NoIcon
    ELSE
    LET ks == Arguments(Tail(IconHead(v)))
        allC == Word(Nth(ks, 3), "all-colors")
        lc == StringList(ks, 3)
        p == IF allC THEN 4 ELSE lc.n
        allS == Word(Nth(ks, p), "all-sizes")
        ls == StringList(ks, p)
        q == IF allS THEN p + 1 ELSE ls.n
        b == Nth(ks, q)
        bm == IF P(b, "{") THEN ButtonMap(ks, q + 1, <<>>) ELSE [ok |-> TRUE, o |-> <<>>, n |-> q + 1]
        ok == /\ Nth(ks, 1).t = "id" /\ Nth(ks, 2).t = "id" /\ (allC \/ lc.ok) /\ (allS \/ ls.ok)
              /\ b.t = "end" \/ (P(b, "{") /\ bm.ok) \/ Word(b, "no-btn") \/ Word(b, "btn") \/ Word(b, "default")
        Known(c) == c \in DOMAIN settings.colours
        colours == IF allC THEN settings.order ELSE SelectSeq(Distinct(lc.vs), Known)
        sizes == IF allS THEN settings.sizes ELSE SelectSeq(Distinct(ls.vs), LAMBDA x : x \in ToSet(settings.sizes))
        buttons == SelectSeq(IF P(b, "{") THEN bm.o ELSE IF Word(b, "no-btn") THEN <<>> ELSE Configured(cfg),
                             LAMBDA x : \A i \in 1..3 : Known(x.cs[i]))
    IN  IF ~ok THEN [NoIcon EXCEPT !.is = "bad"]
        ELSE IF b.t # "end" /\ bm.n <= Len(ks) THEN [NoIcon EXCEPT !.is = "odd"]
        ELSE [is |-> IF ~Known(ks[2].v) \/ colours = <<>> \/ sizes = <<>> THEN "nothing" ELSE "yes",
              name |-> ks[1].v, from |-> ks[2].v, colours |-> colours, sizes |-> sizes, buttons |-> buttons]
FileColours(ic) == ToSet(ic.colours) \cup UNION {{b.cs[1], b.cs[2], b.cs[3]} : b \in ToSet(ic.buttons)}
FilePath(ic, colour) == S("/img/icons/") \o ic.name \o S("/") \o colour \o S(".svg")
SourcePath(ic) == S("/img/icons/") \o ic.name \o S(".svg")

---- \* what it becomes: rules as text, url(N) standing for the file of colour N
ImageA == S("background-image:url(\"")
ImageB == S("\");")
Image(url) == ImageA \o url \o ImageB
BodyA == S("background:no-repeat center center;display:inline-block;vertical-align:middle;content:\"\";width:var(--icon-size-")
BodyB == S(");height:var(--icon-size-")
BodyC == S(");background-size:100% 100%;")
IconBody(size, url) == BodyA \o size \o BodyB \o size \o BodyC \o Image(url)
RuleA == S(" {")
RuleB == S("}")
RuleText(sel, body) == sel \o RuleA \o body \o RuleB
ButtonBody == S("-webkit-appearance:none;appearance:none;background:transparent;border:none;border-radius:0;box-shadow:none;outline:none;padding:0;margin:0;text-align:center;display:inline-block;cursor:pointer;")
Disabled == S(":disabled")
NotAllowed == S("cursor:not-allowed;")
Inside == S(" .icon-btn--icon")
Hover == S(":hover .icon-btn--icon")
DisabledInside == S(":disabled .icon-btn--icon")
ClassA == S(".icon-")
ClassBtn == S(".icon-btn-")
Dash == <<45>>
IconRules(ic, U(_)) ==   \* sequence of rule texts
    LET n == ClassA \o ic.name \o Dash
        plain == [i \in 1..(Len(ic.sizes) * Len(ic.colours)) |->
                    LET s == ic.sizes[1 + ((i - 1) \div Len(ic.colours))]
                        c == ic.colours[1 + ((i - 1) % Len(ic.colours))]
                    IN  RuleText(n \o s \o Dash \o c, IconBody(s, U(c)))]
        Button(s, b) ==
            LET sel == ClassBtn \o ic.name \o Dash \o s \o (IF b.id = <<>> THEN <<>> ELSE Dash \o b.id) IN
            << RuleText(sel, ButtonBody),
               RuleText(sel \o Disabled, NotAllowed),
               RuleText(sel \o Inside, IconBody(s, U(b.cs[1]))),
               RuleText(sel \o Hover, Image(U(b.cs[2]))),
               RuleText(sel \o DisabledInside, Image(U(b.cs[3]))) >>
        nb == Len(ic.buttons)
    IN  plain \o FoldLeft(LAMBDA a, i : a \o Button(ic.sizes[1 + ((i - 1) \div nb)], ic.buttons[1 + ((i - 1) % nb)]), <<>>,
                          [i \in 1..(nb * Len(ic.sizes)) |-> i])

---- \* a recoloured icon: the colour in hexadecimal notation, long or short, is replaced
HexDig == S("0123456789ABCDEF")
Upper(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
HexOf(col) == FoldLeft(LAMBDA a, c : a \o <<HexDig[1 + (c \div 16)], HexDig[1 + (c % 16)]>>, <<>>, col)
Shorts(col) == IF \A i \in 1..3 : col[i] \div 16 = col[i] % 16 THEN {[i \in 1..3 |-> HexDig[1 + (col[i] % 16)]]} ELSE {}
WordChar(c) == Letter(c) \/ Digit(c) \/ c = 95 \/ c >= 128
RECURSIVE WordEnd(_, _)
WordEnd(t, i) == IF i <= Len(t) /\ (WordChar(t[i]) \/ t[i] = 45) THEN WordEnd(t, i + 1) ELSE i
Recolour(svg, from, to) ==
    LET forms == {HexOf(from)} \cup Shorts(from)
        Reference(i) == \/ i > 1 /\ (svg[i - 1] \in {40, 38} \/ WordChar(svg[i - 1]))
                        \/ i > 6 /\ Lowered(SubSeq(svg, i - 6, i - 2)) = S("href=") /\ svg[i - 1] \in {34, 39}
    IN  FoldLeft(LAMBDA a, i : IF i < a.n THEN a
                               ELSE LET e == WordEnd(svg, i + 1) IN
                                    IF svg[i] = 35 /\ Upper(SubSeq(svg, i + 1, e - 1)) \in forms /\ ~Reference(i)
                                    THEN [n |-> e, o |-> a.o \o S("#") \o HexOf(to)]
                                    ELSE [n |-> i + 1, o |-> Append(a.o, svg[i])],
                 [n |-> 1, o |-> <<>>], [i \in 1..Len(svg) |-> i]).o
Encoded(t) == FoldLeft(LAMBDA a, c : a \o Utf8(c), <<>>, t)
=============================================================================
