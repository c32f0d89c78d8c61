----------------------------- MODULE CssIconGen -----------------------------
(* Stylesheets with icon commands, default stylesheets, icons and configured   *)
(* buttons.                                                                    *)
EXTENDS Chars, Json
CONSTANTS Kind, Size, Sampled
NL == <<10>>
Cols == <<S("primary"), S("primary-dark"), S("disabled"), S("z"), S("none")>>
Values == <<S("#333"), S("#C0C0C0"), S("#abcdef"), S("#000"), S("#FfF"), S("gray"), S("SandyBrown"), S("rebeccapurple"), S("#123456"), S("darkslategrey"), S("rgb(0, 0, 0)"), S("#12"), S("red blue"), S("var(--col-z)"), S("#333333"), S("#1234567"), S("aqua")>>
Col(i, j) == S("--col-") \o Cols[i] \o S(": ") \o Values[j]
Decls == [n \in 1..(4 * Len(Values)) |-> Col(1 + (n % 4), 1 + ((n \div 4) % Len(Values)))]
   \o [n \in 1..60 |-> Col(1 + (n % 4), 1 + ((n * 7) % 9))]
   \o [n \in 1..15 |-> S("--icon-size-small:1px")] \o [n \in 1..15 |-> S("--icon-size-medium : calc(1rem * (2 + 1))")] \o [n \in 1..8 |-> S("--icon-size-large:2em")]
   \o [n \in 1..8 |-> S("--font: \"Open Sans\", sans-serif")] \o <<S("--col-"), S("--icon-size-:3"), S("color: red"), S("/* --col-q: #fff; */"), S("--x: { a: b; c: d }"), S("margin: 0 auto !important"), S(""), S("--icon-size-x"), S("--colour-z: #fff"), S("--y: (;)"), S("{ --col-q: #111 }"), S("--COL-z: #222"), S("--col-primary/**/:/* c */ #444")>>
Before == <<S(""), S(""), S(""), S("@import url(x.css);") \o NL, S("a:hover { --col-z: #fff }") \o NL, S("@media print { :root { --col-q: #fff } }") \o NL, S("/* :root { --col-q: #fff } */"), S(":root.dark { --col-q: #fff }"), S("@charset \"utf-8\";"), S("html { color: red }"), S("p::before { content: ':root {' }")>>
AfterRoot == <<S(""), S(""), S(""), S("a { --col-q: #fff }"), S("@media x { :root { --icon-size-q: 1px } }"), S(".icon-x { a: b }"), NL>>
Names == <<S("x"), S("x"), S("x"), S("x"), S("y-1"), S("y-1"), S("x"), S("x"), S("y-1"), S("X"), S("gone")>>
Lists == <<S("[]"), S("[\"primary\"]"), S("['primary-dark', \"primary\"]"), S("[\"z\",\"z\",'none',]"), S("[\"none\"]"), S("['disabled' , 'z' ]"), S("[\"primary\", // first") \o NL \o S("  \"z\"]"), S("[\"primary-\\64 ark\"]")>>
SizeLists == <<S("[\"small\"]"), S("['medium','small']"), S("['large','none',\"large\"]"), S("[]"), S("['']")>>
Buttons == <<S(""), S(""), S(""), S(" no-btn"), S(" btn"), S(" default"), S(" {}"), S(" {\"default\": [\"primary\", \"z\", \"disabled\"]}"), S(" {'a': ['z','z','primary'], \"b-c\": [\"primary\", \"primary-dark\", \"primary\"], }"), S(" {\"default\": ['z','none','z'], 'k': ['z','primary','z']}"), S(" {'a': ['z','z','z'], 'a': ['primary','z','primary']}")>>
Bad == <<S(""), S("x"), S("x primary"), S("x primary all-colors"), S("x primary all-sizes all-colors"), S("x primary [z] all-sizes"), S("x primary [\"z\" \"z\"] all-sizes"), S("x primary [,] all-sizes"), S("x primary all-colors all-sizes {'a': ['z']}"), S("x primary all-colors all-sizes {'a' ['z','z','z']}"), S("x primary all-colors all-sizes maybe"), S("'x' primary all-colors all-sizes"), S("x 'primary' all-colors all-sizes"), S("x primary [\"z\" all-sizes"), S("x primary all-colors 1"), S("x primary all-colors all-sizes no-btn more"), S("x primary all-colors all-sizes {'a': ['z','z','z'] 'b': ['z','z','z']}")>>
Heads == [i \in 1..14 |-> S("! PREPROCESSOR: icon ")] \o <<S("! PREPROCESSOR: icon "), S("! PREPROCESSOR: icon "), S("! PREPROCESSOR: icon "), S("!PREPROCESSOR: icon") \o NL, S(" ! PREPROCESSOR :  icon  "), S("PREPROCESSOR: icon "), S("! preprocessor: icon "), S("! PREPROCESSOR: iconx "), S("! PREPROCESSOR:icon ")>>
Fills == <<S("#333"), S("#333333"), S("#abcdef"), S("#ABCDEF"), S("#C0C0C0"), S("#c0c0c0"), S("#000"), S("#000000"), S("black"), S("#ffF"), S("#808080"), S("#3333"), S("#33333333"), S("none"), S("currentColor"), S("#123456"), S("#663399"), S("#F4A460"), S("#0ff"), S("#2f4f4f")>>
Parts == <<S("<path fill=\"@\"/>"), S("<path stroke='@' fill=\"@\"/>"), S("<g style=\"fill:@;stroke: @\">"), S("<style>.a{fill:@}</style>"), S("<use href=\"@\"/>"), S("<use xlink:href='@'/>"), S("<p fill=\"url(@)\"/>"), S("<t>a@ @b @-c &@; @</t>"), S("@"), S("<!-- ") \o <<233, 8364>> \o S(" @ -->") \o NL>>
Fill(part, f) == FoldLeft(LAMBDA a, c : IF c = 64 THEN a \o f ELSE Append(a, c), <<>>, part)
Cfgs == <<[d |-> <<>>, by |-> <<>>], [d |-> <<>>, by |-> <<>>], [d |-> <<"null">>, by |-> <<>>], [d |-> <<"z", "-", "-">>, by |-> <<>>], [d |-> <<"z", "primary", "z">>, by |-> << <<"sec", "-", "z", "-">> >>],
          [d |-> <<"null">>, by |-> << <<"sec", "z", "-", "primary">>, <<"third", "z", "z", "z">> >>], [d |-> <<"none", "z", "z">>, by |-> << <<"sec", "-", "z", "z">>, <<"t", "primary", "z", "z">> >>]>>

VARIABLE doc
R(seq) == RandomElement(1..(Len(seq) + 0 * Len(doc)))
One(seq) == seq[R(seq)]
Rand(k) == RandomElement(1..(k + 0 * Len(doc)))
RECURSIVE DeclsOf(_, _)
DeclsOf(n, o) == IF n = 0 THEN o ELSE DeclsOf(n - 1, o \o One(Decls) \o S(";") \o NL)
Root(k) == S(":root {") \o NL
          \o (IF Rand(6) > 1 THEN Col(1, Rand(9)) \o S(";") \o Col(2, Rand(9)) \o S(";") \o Col(4, Rand(9)) \o S("; --icon-size-medium: 1rem;") ELSE <<>>)
          \o (IF Rand(3) > 1 THEN Col(3, Rand(9)) \o S(";") ELSE <<>>)
          \o DeclsOf(Rand(k) - 1, <<>>) \o (IF Rand(3) = 1 THEN One(Decls) ELSE <<>>) \o (IF Rand(40) = 1 THEN <<>> ELSE S("}") \o NL)
Main(k) == One(Before) \o (IF Rand(30) = 1 THEN <<>> ELSE Root(k)) \o One(AfterRoot)
Command(x) == S("/*") \o One(Heads)
    \o (IF Rand(12) = 1 THEN One(Bad)
        ELSE One(Names) \o S(" ") \o One(<<Cols[1], Cols[1], Cols[1], Cols[2], Cols[4], Cols[5]>>) \o S(" ") \o (IF Rand(2) = 1 THEN S("all-colors") ELSE One(Lists))
             \o One(<<S(" "), NL, S(" // note") \o NL>>) \o (IF Rand(5) > 1 THEN S("all-sizes") ELSE One(SizeLists)) \o One(Buttons))
    \o S(" */")
Around == <<S(""), NL, S(".a { b: c }"), S("/* c */"), S(" d{e:f}") \o NL, S("@media x{g{h:i}} ")>>
RECURSIVE Commands(_, _)
Commands(n, o) == IF n = 0 THEN o ELSE Commands(n - 1, o \o Command(n) \o One(Around))
RECURSIVE Svg(_, _)
Svg(n, o) == IF n = 0 THEN o ELSE Svg(n - 1, o \o Fill(One(Parts), One(Fills)))
Init == doc = <<>>
Next == /\ Len(doc) < 1
        /\ doc' = Append(doc, [m |-> Main(Size), i |-> One(Around) \o Commands(Rand(3), <<>>),
                               x |-> Svg(Rand(4), <<>>), y |-> Svg(Rand(3), <<>>), cfg |-> One(Cfgs), inmain |-> Rand(4) = 1])
GSpec == Init /\ [][Next]_doc
Emit == doc # <<>> => PrintT(<<"TEXT", ToJson(doc[1])>>)
=============================================================================
