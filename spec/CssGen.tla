------------------------------- MODULE CssGen -------------------------------
(* Stylesheets made of fragments.                                              *)
EXTENDS Chars, Json
CONSTANTS Kind, Size, Sampled
NLs == <<10>>
Tokens == <<
  S("a"), S("b-c"), S("--x"), S("-y"), S("_z"), S("n"), S("e3"), S("U"), S("url"), S("f("), S("URL("), S("url("), <<233>>, <<178>>, <<97, 1632>>, <<128512>>, S("\\26 B"), S("\\26"), S("\\31 0"),
  S("a\\:b"), S("md\\/2"), S("\\."), S("-\\31"), S("x\\") \o NLs, S("\\"), S("\\0"), S("\\110000 "), S("\\d800"),
  S("1"), S("+1"), S("-1"), S("+"), S("-"), S("."), S("+.5"), S("-0.50"), S("1.0"), S(".5e3"), S("1e-7"), S("1E+3"), S("007"), S("2n"), S("2n+1"), S("1e"), S("12px"), S("1\\65 3"), S("50%"), S("+.0%"), S("1e3px"), S("1.5--x"), S("1-->"), S("1/2"), S("123456789012345678"), S("0.1234567890123456789"), S("1e40"),
  S("#"), S("#fff"), S("#1ab"), S("#-a"), S("#\\31 23"), S("#a\\.b"), S("#--"),
  S("\"s\""), S("'t'"), S("'\"'"), S("\"'\""), S("\"'\\\"\""), S("\"\\A\""), S("\"\\a b\""), S("'\\e9 a'"), S("\"\\\\\""), S("\"\\") \o NLs \o S("x\""), <<34, 233, 98, 34>>, <<39, 8220, 97, 128512, 49, 39>>, <<34, 9, 34>>, <<34, 127, 97, 34>>, <<34, 1, 49, 34>>, S("\"") \o NLs, S("'\\9\\d\\c '"), S("\"\\0\""), S("\"\""), S("\"/*\""), S("'*/'"), S("\""),
  S("url(a.png)"), S("url( b.png )"), S("url(a b)"), S("url(a\\ b)"), S("url(\\29 )"), S("url(\\(\\'\\\")"), S("url()"), S("url("), S("url(a(b)"), S("url('c.png')"), S("url( 'c.png' )"), S("URL(\"d\" x)"), S("uRl(e)"), S("url(http://x.org/?a=b#c)"), S("url(a'b)"), S("url(\\"), <<117, 114, 108, 40, 97, 233, 102, 41>>, <<117, 114, 108, 40, 97, 1, 41>>, S("u\\72l(a)"),
  S("@media"), S("@"), S("@-x"), S("@\\41 b"), S("@1"), S("!important"), S("<!--"), S("-->"), S("<"), S("/"), S("*"), S("&"), S(">"), S("~="), S("||"), S("|"), S("$="), S("="), S("?"), S("U+26"), S("u+0-7F"), S("U+4??"), S("^"), S("`"), S("%"),
  S("{"), S("}"), S("("), S(")"), S("["), S("]"), S(":"), S(";"), S(","), S("::before"),
  S("/**/"), S("/* c */"), S("/*! p"), S("*/"), S("/* a") \o NLs \o S("b */"), S("/***/"), S("/*/*/"),
  S(" "), NLs, <<9>>, <<13, 10>>, <<12>>, <<13>>, <<160>>, <<8232>> >>
Paths == <<S("/img/x.png"), S("/img/y.svg#f"), S("/css/main.css"), S("/css/other.css"), S("/img/x.png?v=1"), S("/img/x.png?a#b"), S("//cdn.org/x.png"), S("http://x.org/img/x.png"), S("https://x.org/a?b"), S("x.png"), S("../img/x.png"), S("#id"), S("data:text/plain,a"), S("/img/x.png#"), S("/css/sample.css"), S("/css/sample.css#q"), S("?x"), S("about:blank")>>
Wrap(b, a) == [i \in 1..Len(Paths) |-> S(b) \o Paths[i] \o S(a)]
Urls == Wrap("url(", ")") \o Wrap("url( ", " )") \o Wrap("url('", "')") \o Wrap("URL( \"", "\" )") \o <<
  S("url(\"/img/\\78 .png\")"), S("url(/img/\\78.png)"), S("url('/img/x.png' format('/img/y.svg'))"), S("url(/* c */ '/img/x.png')"), S("url('/img/x.png'"), S("url(/img/x.png"), S("Url(/img/x.png)"), S("src: url(/img/x.png) format('woff2'), "),
  S("'/img/x.png'"), S("/* url(/img/x.png) */"), S("\"url(/img/x.png)\""), S("@import \"/css/other.css\";"), S("image(/img/x.png)"), S("url(\"\")"), S("url()"), S("url(\"/img/x.png\")url(/img/y.svg)"), S("myurl(/img/x.png)"),
  S("a{b:"), S(";"), S("}"), S(" "), S(","), NLs, S("@media x{"), S("c:d;"), S(")") >>
Datas == <<S("image/svg+xml,%3csvg a=%23f%3e%00%ff%C3%A9"), S("image/svg+xml,<svg a=b/>"), S("image/svg+xml;utf8,%3Csvg/%3E"), S("image/svg+xml;charset=utf-8,a%20b"), S("image/png;base64,iVBORw0KGgo="), S("image/png;base64,/+8="), S("image/png;base64,AAECAwQFBgc"), S("image/gif;base64,R0lGODlh%0A"), S("image/gif;base64,QQ=="), S("image/png,QQ=="), S("IMAGE/JPEG;BASE64,QQ=="), S("image/x-icon;foo=bar;base64,AAAA"), S("image/png;base64,Q%51%3D%3D"), S("image/png,a,b;c"), S("image/webp;base64,UklGRg=="), S("image/svg+xml;base64,PHN2Zy8+"), S("image/png,QQ%3D%3D"), S("image/gif,%"), S("image/gif,%0d%0a%0D"), S("image/gif,%4"), S("text/plain,a"), S("image/png"), S("application/font-woff;base64,AAAA"), S("image/gif;base64,QUI="), S("image/avif,%F0%9F%98%80")>>
WrapD(b, a) == [i \in 1..Len(Datas) |-> S(b) \o Datas[i] \o S(a)]
DataUrls == WrapD("url(\"data:", "\")") \o WrapD("url( 'data:", "' )") \o WrapD("url(data:", ")") \o <<
  <<117, 114, 108, 40, 34>> \o S("data:image/svg+xml,") \o <<233, 8364, 128512>> \o S("\")"), S("URL('data:image/gif,ab')"), S("url(\"data:image/gif,a\\\"b\")"), S("url('data:image/gif,a\\") \o NLs \o S("b')"),
  S("url(\"data:image/gif,\\41 b\")"), S("'data:image/gif,a'"), S("/* url(data:image/gif,a) */"), S("url(/img/x.png)"), S("url('/img/x.png')"), S("url(x.png)"), S("url(\"data:image/gif,q\")"), S("url(\"data:image/png,q\")"),
  S("a{b:"), S(";"), S("}"), S(" "), S(","), NLs, S("c:d;") >>
Sels == <<S(".a"), S(".b"), S(".c"), S("h1, h2"), S(".from-top"), S("a:hover > .x"), S(".o"), S(".p")>>
Imp(s, f) == S("/*! PREPROCESSOR: import ") \o s \o (IF f = <<>> THEN <<>> ELSE S(" FROM ") \o f) \o S(" */")
Bodies == <<S("x: y"), S("x: y;"), S("z:1;w:2"), S("k: url(/img/x.png);"), S("/* c */"), <<>>, S(" q: 'r' ;"), S("&:hover{m:n}"), S("f:f !important;") >>
Nests == [i \in 1..Len(Sels) |-> Sels[i] \o S(" {") \o NLs] \o [i \in 1..Len(Bodies) |-> Bodies[i]] \o [i \in 1..5 |-> S("}") \o NLs]
  \o [i \in 1..6 |-> Imp(Sels[i], <<>>)] \o [i \in 1..2 |-> Imp(Sels[6 + i], S("/css/other.css"))] \o [i \in 1..4 |-> Imp(Sels[i], S("/css/sample.css"))]
  \o <<Imp(S(".m"), <<>>), Imp(S(".n"), S("/css/main.css")), Imp(S(".none"), S("/css/other.css")), Imp(S(".in-media"), S("/css/other.css")), S("@media print {"), S("@import url(/css/other.css);"), S("@charset \"utf-8\";"), S("@layer base;") \o NLs, S("/*! PREPROCESSOR: other x */"), S("/*! keep */"), S(" "), NLs, S(";"), S("@font-face{x:y}")>>
\* whole rules: more of them are what one would write
Bits == <<S("x: y"), S("x: y;"), S("z:1;w:2"), S("k: url(/img/x.png);"), S("/* c */"), <<>>>> \o [i \in 1..6 |-> Imp(Sels[i], <<>>)] \o [i \in 1..5 |-> Imp(Sels[i], S("/css/sample.css"))]
  \o <<Imp(S(".o"), S("/css/other.css")), Imp(S(".p"), S("/css/other.css")), Imp(S(".m"), <<>>), Imp(S(".n"), S("/css/main.css"))>>
Rule(i, j, k) == Sels[i] \o S(" {") \o NLs \o Bits[j] \o S(" ") \o Bits[k] \o NLs \o S("}") \o NLs
RulesOf(n) == Rule(1 + ((n - 1) % 6), 1 + (((n - 1) \div 6) % Len(Bits)), 1 + (((n - 1) \div (6 * Len(Bits))) % Len(Bits)))
Others == <<S("@import url(/css/other.css);") \o NLs, S("@media print { .a { in: media } }") \o NLs, S("@charset \"utf-8\";"), S("/* between */"), NLs>>
Frags == (CASE Kind = "tokens" -> Tokens [] Kind = "urls" -> Urls [] Kind = "data" -> DataUrls [] Kind = "nest" -> Nests
          [] Kind = "rules" -> [n \in 1..(IF Sampled THEN 600 ELSE Len(Others)) |-> Others[1 + (n % Len(Others))]] \o [n \in 1..(6 * Len(Bits) * Len(Bits)) |-> RulesOf(n)])
VARIABLE seq
Init == seq = <<>>
Pick == IF Sampled THEN {RandomElement(1..(Len(Frags) + 0 * Len(seq)))} ELSE 1..Len(Frags)
Next == Len(seq) < Size /\ \E i \in Pick : seq' = Append(seq, i)
GSpec == Init /\ [][Next]_seq
Emit == (Len(seq) = Size \/ (~Sampled /\ seq # <<>>)) => PrintT(<<"TEXT", ToJson(FoldLeft(LAMBDA a, i : a \o Frags[i], <<>>, seq))>>)
=============================================================================
