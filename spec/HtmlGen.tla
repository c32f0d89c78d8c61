------------------------------- MODULE HtmlGen -------------------------------
(* Pages with their partials: templates, variables, canonical addresses,        *)
(* references and inline code, mostly of the given kind.                        *)
EXTENDS Chars, Json
CONSTANTS Kind, Size, Sampled
NL == <<10>>
Q == <<34>>
\* ---------------------------------------------------------------- parts
Scripts == <<S("let a = 1;"), S("if (a < b && c > d) { e(\"<p>\"); }"), S(""), NL \o S("  // comment") \o NL \o S("  x();") \o NL, S("import {a} from \"/js/a.js\"; a();"), S("export const t /*: number*/ = '&amp;';"), S("import x from '/js/sub/b.js'"), S("var s = \"<!-- x -->\";")>>
Styles == <<S("a { color: red }"), S(""), S("a > b::before { content: \"<\" }"), S(" .x { background: url(/img/x.png) } "), S("/* c */ p{}"), S("@import \"/css/a.css\";"), NL \o S(":root { --a: 'b' }") \o NL>>
Data == <<S("{\"@type\": \"Thing\", \"a\": \"b & c\"}"), S("<b>{{x}}</b>"), S("a, b"), S("")>>
JsTypes == <<S(""), S(""), S(" type=\"module\""), S(" type='text/javascript'"), S(" async type=module"), S(" id=x defer"), S(" TYPE=Module data-x='a&quot;b'")>>
DataTypes == <<S(" type=\"application/ld+json\""), S(" type='application/json' id=\"data\""), S(" type=text/template"), S(" type=\"importmap\"")>>
CssAttrs == <<S(""), S(""), S(" media=\"print\""), S(" type='text/css' title=t"), S(" media='(min-width: 1px)' id=a")>>
Tag(name, attrs, body) == S("<") \o name \o attrs \o S(">") \o body \o S("</") \o name \o S(">")
Inlines(n) == CASE n = 1 -> [t |-> S("script"), a |-> JsTypes, b |-> Scripts]
                [] n = 2 -> [t |-> S("style"), a |-> CssAttrs, b |-> Styles]
                [] n = 3 -> [t |-> S("script"), a |-> DataTypes, b |-> Data]
                [] n = 4 -> [t |-> S("SCRIPT"), a |-> JsTypes, b |-> Scripts]
Addresses == <<S("/js/a.js"), S("/css/a.css"), S("/assets/f.ttf"), S("/js/sub/b.js"), S("/img/x.png"), S("/js/a.js?x=1"), S("/css/a.css?v=1&amp;pv=2"), S("/js/a.js#h"), S("//cdn.example.com/a.js"), S("https://cdn.example.com/a.js"), S("js/a.js"), S("./a.js"), S(""), S("data:text/css,a"), S("/css/a.css#")>>
Canons == <<S("/"), S("/index.html"), S("/a/b?c=d&amp;e=f"), S("https://other.example/x"), S("http://other.example"), S("account.html"), S("./sub/x.html"), S("../up.html"), S("//other.example/y"), S(""), S("?page=2"), S("#top"), S("httpd.html"), S("HTTPS://Other.example/Z"), S("/p#f"), S("sub/"), S(".."), S("/100%25"), S("a/./b/c.html")>>
Rels == <<S("stylesheet"), S("stylesheet"), S("preload"), S("icon"), S("alternate"), S("prefetch")>>
Extra == <<S(""), S(""), S(" as=\"style\""), S(" crossorigin=anonymous type=\"text/css\""), S(" media='print'"), S(" data-a=\"1 &lt; 2\" id=z")>>
Texts == <<S("plain"), S(" two words "), NL, S("a &amp; b"), S("1 &lt; 2 &gt; 0"), S("&quot;q&quot; 'r'"), S("x&nbsp;y"), <<233, 8364>>, S("&eacute;&#65;&#x42;"), S("AT&T"), S("&lt;!-- no comment -->"), S("&lt;b&gt;")>>
\* ---------------------------------------------------------------- templates
Names == <<S("a"), S("a"), S("b"), S("c d")>>
Values == <<S("\"x\""), S("\"1 < 2 & 'q'\""), S("\"<b>bold</b>\""), S("\"\\u00e9\\n\\\"q\\\"\""), S("3"), S("1.5"), S("-2"), S("\"\""), S("\"[STACK: [\\\"pop\\\"]]\""), S("\"--\\u003e ]\"")>>
NoText == <<S("[1]"), S("{\"x\": 1}"), S("{\"type\": \"variable\", \"name\": \"zz\"}")>>
Paths == <<S("/a.html"), S("/a.html"), S("/sub/b.html"), S("/sub/b.html"), S("/sub/c.html"), S("b.html"), S("./c.html"), S("../a.html"), S("/sub/../a.html"), S("c.html"), S("/gone.html")>>
NoCommands == <<S("[STACK:[\"pop\"]]"), S("[STACK: [\"retrieve\", \"a\"]"), S("STACK: [\"pop\"]"), S("[STACK: pop]"), S("[TEMPLATE: [\"/a.html\",]]"), S("[TEMPLATE: []]"), S("[TEMPLATE: [3]]"), S("[TEMPLATE: {\"a\": 1}]"), S(" a comment "), S("[stack: [\"pop\"]]"), S("[STACK: [\"pop\"]] x"), S("[IMAGES: /a.png 1 1]"), S(""), S("[STACK: ['pop']]"), S("[TEMPLATE: [\"/a.html\"]"), S("[TEMPLATE: [\"/a.html\", [1]]]"), S("[TEMPLATE: [\"/a.html\", \"x\"]]"), S("[TEMPLATE: [\"/a.html\", null]]"), S("[STACK: [\"retrieve\"]]"), S("[STACK: [\"define\", \"a\"]]"), S("[STACK: [\"push\", 3]]"), S("[STACK: [\"poke\"]]"), S("[STACK: [\"retrieve\", 1]]"), S("[STACK: [\"define\", 1, 2]]")>>
VARIABLE doc
Rand(k) == RandomElement(1..(k + 0 * Len(doc)))
One(seq) == seq[Rand(Len(seq))]
OneOf(a, b, k) == IF Rand(k) > 1 THEN a ELSE b
Cmd(word, args) == S("<!--") \o One(<<<<>>, <<>>, S(" "), NL>>) \o S("[") \o One(<<<<>>, <<>>, S(" ")>>) \o word \o S(":") \o One(<<S(" "), S(" "), S("  ")>>) \o args \o S("]") \o One(<<<<>>, <<>>, S(" "), NL>>) \o S("-->")
Name(k) == Q \o One(Names) \o Q
Retrieve(k) == Cmd(S("STACK"), S("[\"retrieve\", ") \o Name(k) \o S("]"))
Val(k) == IF Rand(25) = 1 THEN One(NoText) ELSE One(Values)
Define(k) == Cmd(S("STACK"), S("[\"define\", ") \o Name(k) \o S(", ") \o Val(k) \o S("]"))
Arg(k) == IF Rand(3) = 1 THEN S("{\"type\": \"variable\", \"name\": ") \o Name(k) \o S("}") ELSE Val(k)
VarsText(k) == S("{\"a\":") \o Arg(1) \o S(", \"b\" : ") \o Arg(2) \o (IF Rand(2) = 1 THEN S(", \"c d\": ") \o Arg(3) ELSE <<>>) \o S("}")
Sparse(k) == IF Rand(2) = 1 THEN S("{}") ELSE S("{") \o Name(1) \o S(": ") \o Arg(1) \o S("}")
TemplateCmd(k) ==
    Cmd(S("TEMPLATE"), S("[") \o Q \o One(Paths) \o Q
        \o (IF Rand(8) = 1 THEN <<>> ELSE S(",") \o One(<<S(" "), NL, <<>>>>) \o (IF Rand(4) > 1 THEN VarsText(k) ELSE Sparse(k))) \o S("]"))
InlineCode(k) == LET x == Inlines(Rand(4)) IN Tag(x.t, One(x.a), One(x.b))
Quoted(v) == IF Rand(3) = 1 /\ v # <<>> /\ ~\E i \in 1..Len(v) : v[i] \in {32, 34, 39, 61, 62, 96} THEN v ELSE IF Rand(2) = 1 THEN Q \o v \o Q ELSE <<39>> \o v \o <<39>>
Attr(name, v) == S(" ") \o name \o One(<<S("="), S("="), S(" = ")>>) \o Quoted(v)
Shuffled(x, y) == IF Rand(2) = 1 THEN x \o y ELSE y \o x
LinkTag(k, head) ==
    CASE Rand(3) = 1 -> Tag(S("script"), Shuffled(Attr(S("src"), One(Addresses)), One(JsTypes)), <<>>)
      [] ~head /\ Rand(6) = 1 -> Tag(S("a"), Attr(S("href"), One(Addresses)), One(Texts))
      [] ~head /\ Rand(6) = 1 -> S("<img") \o Attr(S("src"), One(Addresses)) \o S(" alt=''>")
      [] OTHER -> S("<link") \o Shuffled(Attr(S("rel"), One(Rels)), IF Rand(12) = 1 THEN <<>> ELSE Attr(S("href"), One(Addresses))) \o One(Extra) \o One(<<S(">"), S(">"), S(" />")>>)
CanonTag(k) ==
    LET link == Rand(2) = 1
        given == IF Rand(4) = 1 THEN <<>> ELSE Attr(IF link THEN S("href") ELSE S("content"), One(Canons))
    IN  CASE Rand(6) = 1 -> S("<link rel=\"next\" href=\"/x\">")
          [] Rand(6) = 1 -> S("<meta property=\"og:title\" content='/t'>")
          [] Rand(8) = 1 -> S("<meta name=\"og:url\" content=\"/u\">")
          [] link -> S("<link") \o Shuffled(Attr(S("rel"), S("canonical")), given) \o One(<<<<>>, S(" id=c"), S(" content=c hreflang=''")>>) \o S(">")
          [] OTHER -> S("<meta") \o Shuffled(Attr(S("property"), S("og:url")), given) \o One(<<<<>>, <<>>, S(" href='/h' id=m")>>) \o S(">")
Metas == <<S("<meta charset=\"utf-8\">"), S("<meta charset=latin1>"), S("<meta http-equiv='Content-Type' content=\"text/html\">"), S("<meta name=\"viewport\" content=\"width=1\">")>>
NoCmd(k) == S("<!--") \o One(NoCommands) \o S("-->")
\* what may be anywhere
AnyPart(k, head) ==
    LET x == IF Rand(6) = 1 THEN One(<<"templates", "inline", "canonical", "links">>) ELSE Kind IN
    CASE x = "templates" -> (CASE Rand(3) = 1 -> TemplateCmd(k) [] Rand(3) = 1 -> Define(k) [] Rand(8) = 1 -> NoCmd(k) [] OTHER -> Retrieve(k))
      [] x = "inline" -> InlineCode(k)
      [] x = "canonical" -> CanonTag(k)
      [] x = "links" -> LinkTag(k, head)
\* what may be in a body
Block(k) ==
    CASE Rand(4) = 1 -> One(Texts)
      [] Rand(6) = 1 -> Tag(S("p"), One(<<<<>>, S(" class=\"a b\""), S(" title='&lt;&quot;'")>>), One(Texts) \o (IF Rand(2) = 1 THEN Retrieve(k) ELSE <<>>) \o One(Texts))
      [] Rand(6) = 1 -> Tag(S("div"), <<>>, AnyPart(k, FALSE) \o AnyPart(k, FALSE))
      [] Rand(12) = 1 -> Tag(S("textarea"), <<>>, S("t") \o One(Texts))
      [] Rand(12) = 1 -> S("<br><input disabled value=\"a\">")
      [] OTHER -> AnyPart(k, FALSE)
RECURSIVE Blocks(_, _)
Blocks(n, o) == IF n = 0 THEN o ELSE Blocks(n - 1, o \o Block(n))
Title(k) == CASE Rand(4) = 1 -> Tag(S("title"), <<>>, Retrieve(k))
              [] Rand(4) = 1 -> Tag(S("title"), <<>>, S("A &amp; ") \o Retrieve(k) \o S(" b"))
              [] Rand(9) = 1 -> Tag(S("title"), <<>>, Retrieve(k) \o S(" - ") \o Retrieve(k))
              [] OTHER -> Tag(S("title"), <<>>, S("T"))
RECURSIVE Heads(_, _)
Heads(n, o) == IF n = 0 THEN o ELSE Heads(n - 1, o \o (IF Rand(9) = 1 THEN One(Metas) ELSE AnyPart(n, TRUE)) \o One(<<NL, <<>>>>))
Defaults(k) == Cmd(S("STACK"), S("[\"define\",\"a\",") \o Val(k) \o S("]")) \o Cmd(S("STACK"), S("[\"define\", \"b\", ") \o Val(k) \o S("]"))
Page(n) ==
    S("<!DOCTYPE html><html lang=en><head>") \o (IF Rand(8) > 1 THEN Defaults(n) \o Cmd(S("STACK"), S("[\"define\", \"c d\", 4]")) ELSE <<>>)
    \o (IF Rand(2) = 1 THEN Title(n) ELSE <<>>) \o Heads(Rand(n) - 1, <<>>)
    \o S("</head><body>") \o Blocks(Rand(n), <<>>) \o S("</body></html>")
Partial(n) == (IF Rand(3) = 1 THEN Defaults(n) ELSE <<>>) \o (IF Rand(6) = 1 THEN Title(n) ELSE <<>>) \o Blocks(Rand(n), <<>>)
\* partials which mostly use the ones further on
Leaf(n) == IF Rand(12) = 1 THEN Partial(n) ELSE S("<i>") \o Retrieve(n) \o S("</i>") \o One(Texts)
Files(n) == <<[p |-> S("src/partials/a.html"), s |-> Partial(n)],
              [p |-> S("src/partials/sub/b.html"), s |-> IF Rand(2) = 1 THEN Partial(n) ELSE Leaf(n)],
              [p |-> S("src/partials/sub/c.html"), s |-> Leaf(n)],
              [p |-> S("src/public/sub/c.html"), s |-> Leaf(n)]>>
Homes == <<S("/index.html"), S("/page.html"), S("/sub/page.html"), S("/sub/a/page.html"), S("/a/page.html"), S("/a.b.html"), S("/a.c.html"), S("/a.html"), S("/Sub/Page.html"), S("/page-1.html"), S("/page_1.html"), S("/p age.html")>>
Init == doc = <<>>
Next == /\ Len(doc) < 1
        /\ \E h \in {One(Homes)} : doc' = Append(doc, [h |-> h, fs |-> <<[p |-> S("src/public") \o h, s |-> Page(Size)]>> \o Files(Size)])
GSpec == Init /\ [][Next]_doc
Emit == doc # <<>> => PrintT(<<"TEXT", ToJson(doc[1])>>)
\* the inline code of the documents and the names of the files they refer to
Codes == [i \in 1..Len(Scripts) |-> [k |-> "script", s |-> Scripts[i]]] \o [i \in 1..Len(Styles) |-> [k |-> "style", s |-> Styles[i]]]
ASSUME PrintT(<<"CODES", ToJson(Codes)>>)
=============================================================================
