------------------------------ MODULE ImageGen ------------------------------
(* Pages with image commands, the images and the settings, mostly of the given  *)
(* kind.                                                                        *)
EXTENDS Chars, Integers, Json
CONSTANTS Kind, Size, Sampled
NL == <<10>>
Q == <<34>>
VARIABLE doc
Rand(k) == RandomElement(1..(k + 0 * Len(doc)))
One(seq) == seq[Rand(Len(seq))]
RECURSIVE Num(_)
Num(n) == IF n < 0 THEN S("-") \o Num(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE Num(n \div 10) \o <<48 + (n % 10)>>
\* ---------------------------------------------------------------- settings
Steps == <<[n |-> 1, d |-> 2, t |-> "0.5"], [n |-> 1, d |-> 2, t |-> "0.5"], [n |-> 1, d |-> 1, t |-> "1"], [n |-> 1, d |-> 4, t |-> "0.25"], [n |-> 1, d |-> 10, t |-> "0.1"], [n |-> 3, d |-> 10, t |-> "0.3"], [n |-> 2, d |-> 1, t |-> "2"], [n |-> 3, d |-> 4, t |-> "0.75"], [n |-> 1, d |-> 20, t |-> "0.05"]>>
FormatNames == <<<<"webp">>, <<"png">>, <<"webp", "jpeg">>, <<"png", "jpeg">>, <<"webp", "png", "jpeg">>, <<"jpeg", "webp">>, <<"gif", "jpeg">>>>
Limits == <<<<-1, -1>>, <<-1, -1>>, <<-1, 300>>, <<100, -1>>, <<50, 600>>, <<301, -1>>, <<400, 400>>, <<-1, 99>>>>
Bytes(k) == 400 + (CASE Rand(4) = 1 -> 0 [] Rand(3) = 1 -> Rand(40) [] OTHER -> 100 * Rand(12))
Export(i, q) == LET l == IF Kind = "choice" /\ Rand(2) = 1 THEN <<-1, -1>> ELSE One(Limits) IN
    [name |-> One(<<"a", "b", "90", "x-y">>) \o ToString(i), lo |-> l[1], hi |-> l[2], pref |-> One(<<1, 1, 2, 3, 5, 10>>), q |-> q, bytes |-> E([x \in 1..3 |-> Bytes(x)])]
Exports(n, f) == E([i \in 1..n |-> Export(i, 10 * f + i)])
Always(f) == [name |-> "all", lo |-> -1, hi |-> -1, pref |-> One(<<1, 2, 4>>), q |-> 10 * f, bytes |-> E([x \in 1..3 |-> Bytes(x)])]
Swapped(seq, i) == IF i = 1 THEN seq ELSE [seq EXCEPT ![1] = seq[i], ![i] = seq[1]]
Settings(k) ==
    LET names == One(FormatNames)
        Fmt(i) == LET base == IF Rand(8) > 1 THEN <<Always(i)>> ELSE <<>>
                      all == base \o Exports(Rand(4) - 1, i)
                  IN [name |-> names[i], min |-> One(<<0, 0, 450, 800, 1000>>), exports |-> IF all = <<>> THEN all ELSE Swapped(all, Rand(Len(all)))]
    IN  [formats |-> E([i \in 1..Len(names) |-> Fmt(i)]), default |-> Rand(Len(names)), max |-> One(<<1, 2, 3, 3, 8>>), step |-> One(Steps)]
\* ---------------------------------------------------------------- images
Names == <<S("/img/a.png"), S("/img/a.bmp"), S("/b.png"), S("/img/sub/a.png"), S("/img/c.d.png")>>
\* which have no image
Broken == <<S("/img/text.png"), S("/img/gone.png")>>
Side(k) == IF Rand(3) = 1 THEN Rand(6) ELSE IF Rand(2) = 1 THEN Rand(24) ELSE Rand(48)
Images0(k) == E([i \in 1..Len(Names) |-> [p |-> Names[i], w |-> Side(i), h |-> Side(i)]])
\* ---------------------------------------------------------------- commands
Sp(k) == One(<<S(" "), S(" "), S(" "), S("  "), <<9>>>>)
Tail1(p) == SubSeq(p, 2, Len(p))
Written(p) == One(<<p, p, p, p, S("/./") \o Tail1(p), S("/x/..") \o p>>)
Relative(home, p) ==
    LET up == Len(SelectSeq(home, LAMBDA c : c = 47)) - 1
        RECURSIVE Ups(_)
        Ups(n) == IF n = 0 THEN <<>> ELSE S("../") \o Ups(n - 1)
    IN  One(<<<<>>, S("./")>>) \o Ups(up) \o Tail1(p)
OutsidePaths == <<S("/../secret.png"), S("../../../secret.png"), S("/../../secret.png"), S("../../secret.png"), S("/img/../../secret.png")>>
Shares == <<S("0.5"), S("0"), S("1"), S("0.25"), S("0.1"), S("0.75"), S("0.33"), S("1.0"), S("0.9")>>
BadShares == <<S("-0.5"), S("1.5"), S("2"), S("\"0.5\""), S("null")>>
Margin(k, n) == IF n < 2 \/ Rand(3) = 1 THEN 0 ELSE IF Rand(3) = 1 THEN Rand(n) ELSE Rand((n \div 3) + 1) - 1
Member(key, v) == Q \o S(key) \o Q \o S(":") \o One(<<S(" "), <<>>>>) \o v
\* settings for an image of w x h
Crop(w, h) ==
    LET odd == Rand(25)
        all == <<Member("pre_left_crop", Num(Margin(1, w))), Member("pre_right_crop", Num(Margin(2, w))), Member("pre_top_crop", Num(Margin(3, h))), Member("pre_bottom_crop", Num(Margin(4, h))), Member("crop_left_percentage", One(Shares)), Member("crop_top_percentage", One(Shares))>>
        some == SelectSeq(all, LAMBDA m : Rand(3 + Len(m) - Len(m)) > 1)
        ms == IF odd = 1 THEN Append(some, Member("pre_left_crop", S("-1"))) ELSE IF odd = 2 THEN Append(some, Member("crop_top_percentage", One(BadShares))) ELSE IF odd = 3 THEN Append(some, Member("min_top_crop", S("1"))) ELSE some
    IN  S("{") \o (IF ms = <<>> THEN <<>> ELSE Join(ms, S(",") \o One(<<S(" "), <<>>>>))) \o S("}")
Loading(k) == One(<<<<>>, <<>>, S(" lazy"), S(" eager"), S(" eager"), S("  lazy"), <<9>> \o S("eager"), S(" eager ")>>)
Args1(home, imgs) ==
    LET img == One(imgs)
        odd == Rand(16)
        path == IF odd = 1 THEN One(OutsidePaths) ELSE IF odd = 2 THEN One(Broken) ELSE IF Rand(4) = 1 THEN Relative(home, img.p) ELSE Written(img.p)
        w == IF odd = 3 THEN img.w + Rand(3) ELSE IF Rand(3) = 1 THEN Rand((img.w \div 3) + 1) ELSE Rand(img.w)
        h == IF odd = 4 THEN img.h + Rand(3) ELSE IF Rand(3) = 1 THEN Rand((img.h \div 3) + 1) ELSE Rand(img.h)
        more == Rand(6)
    IN  path \o Sp(1) \o Num(w) \o Sp(2) \o Num(h)
        \o (CASE more = 1 /\ Kind # "crops" -> <<>>
              [] more = 2 /\ Kind # "crops" -> Sp(3) \o S("cover")
              [] OTHER -> Sp(3) \o S("cover") \o Sp(4) \o Crop(img.w, img.h) \o Loading(1))
Wrong == <<S("/b.png"), S("/b.png 2"), S("/b.png 2 x"), S("/b.png 2.5 2"), S("/b.png 2px 2"), S("/b.png 1 1 contain"), S("/b.png 1 1 cover lazy"), S("/b.png 1 1 cover {\"pre_top_crop\": 0"), S("/b.png 1 1 cover {pre_top_crop: 0}"), S("/b.png 1 1 cover [1]"), S("/b.png 0 1"), S("/b.png 1 -1"), S("/b.png 1 1 cover {\"crop\": {}}"), S("/b.png 1 1 lazy")>>
Enclosed(k, args) == One(<<<<>>, <<>>, S(" "), NL>>) \o S("[") \o One(<<<<>>, <<>>, S(" ")>>) \o S("IMAGE") \o One(<<<<>>, <<>>, S(" ")>>) \o S(":") \o One(<<S(" "), S(" "), S("  "), NL>>) \o args \o S("]") \o One(<<<<>>, <<>>, S(" "), NL>>)
NoCommands == <<S("[IMAGE:/b.png 1 1]"), S("[IMAGE: /b.png 1 1"), S("IMAGE: /b.png 1 1"), S("[image: /b.png 1 1]"), S("[IMAGES: /b.png 1 1]"), S(" an image "), S("[IMAGE /b.png 1 1]"), S("[IMAGE: /b.png 1 1] x"), S("[IMAGE: /b.png") \o NL \o S("1 1]"), S("[IMAGE: /b.png 1 1") \o NL \o S("]"), S("x [IMAGE: /b.png 1 1]"), S("IMAGE")>>
Cmd(home, imgs) ==
    S("<!--") \o (CASE Rand(60) = 1 \/ (Kind = "commands" /\ Rand(20) = 1) -> Enclosed(1, One(Wrong))
                    [] Rand(12) = 1 \/ (Kind = "commands" /\ Rand(3) = 1) -> One(NoCommands)
                    [] OTHER -> Enclosed(1, Args1(home, imgs))) \o S("-->")
\* ---------------------------------------------------------------- the page
Block(home, imgs) ==
    CASE Rand(5) = 1 -> One(<<S("text"), NL, S("a &amp; b "), S("<br>")>>)
      [] Rand(6) = 1 -> S("<p class=x>") \o Cmd(home, imgs) \o S("</p>")
      [] Rand(8) = 1 -> S("<!--[TEMPLATE: [\"/p.html\"]]-->")
      [] Rand(12) = 1 -> S("<img src='/img/a.png' alt=''><picture><source srcset='/b.png 2x'></picture>")
      [] OTHER -> Cmd(home, imgs)
RECURSIVE Blocks(_, _, _, _)
Blocks(n, home, imgs, o) == IF n = 0 THEN o ELSE Blocks(n - 1, home, imgs, o \o Block(home, imgs))
Homes == <<S("/index.html"), S("/sub/page.html"), S("/img/sub/x.html")>>
Document(home, imgs) ==
    [h |-> home, imgs |-> imgs, cfg |-> Settings(1),
     fs |-> <<[p |-> S("src/public") \o home, s |-> S("<!DOCTYPE html><html><head><title>T</title></head><body>") \o Blocks(Rand(Size), home, imgs, <<>>) \o S("</body></html>")],
              [p |-> S("src/partials/p.html"), s |-> S("<b>") \o Cmd(home, imgs) \o S("</b>")]>>]
Init == doc = <<>>
Next == /\ Len(doc) < 1
        /\ \E h \in {One(Homes)} : \E imgs \in {Images0(1)} : doc' = Append(doc, Document(h, imgs))
GSpec == Init /\ [][Next]_doc
Emit == doc # <<>> => PrintT(<<"TEXT", ToJson(doc[1])>>)
=============================================================================
