---------------------------- MODULE ImageListGen ----------------------------
(* Lists of images, the images and the settings.                                *)
EXTENDS ImageGen
ListNames == <<S("img1"), S("a b"), S("B"), S("\\u00e9"), S("constructor"), S("x\\\"y")>>
Field(key, v) == Q \o S(key) \o Q \o S(":") \o One(<<S(" "), <<>>, NL>>) \o v
Quote(t) == Q \o t \o Q
Entry(imgs) ==
    LET img == One(imgs)
        odd == Rand(40)
        path == IF odd = 1 THEN One(<<S("/../secret.png"), S("img/a.png"), S("/img/../../secret.png"), S("/../../secret.png")>>) ELSE IF odd = 2 THEN One(Broken) ELSE Written(img.p)
        w == IF odd = 3 THEN img.w + Rand(3) ELSE IF Rand(3) = 1 THEN Rand((img.w \div 3) + 1) ELSE Rand(img.w)
        h == IF odd = 4 THEN One(<<0, 0 - 1, img.h + 1>>) ELSE IF Rand(2) = 1 THEN Rand((img.h \div 3) + 1) ELSE Rand(img.h)
        fields == <<Field("path", Quote(path)),
                    Field("width", IF odd = 5 THEN One(<<S("\"2\""), S("1.5"), S("null"), S("[]")>>) ELSE Num(IF w > img.w /\ odd # 3 THEN img.w ELSE w)),
                    Field("height", Num(IF h > img.h /\ odd # 4 THEN img.h ELSE h))>>
        style == IF Rand(3) = 1 THEN <<Field("crop_style", IF odd = 6 THEN Quote(S("contain")) ELSE Quote(S("cover")))>> ELSE <<>>
        \* not so much that nothing is left
        crop == IF Rand(2) = 1 THEN <<>> ELSE <<Field("crop_arguments", IF odd = 7 THEN S("[1]") ELSE Crop(IF Rand(4) = 1 THEN img.w ELSE ((img.w - w) \div 2) + 1, IF Rand(4) = 1 THEN img.h ELSE ((img.h - h) \div 2) + 1))>>
        lazy == IF Rand(3) = 1 THEN <<Field("lazy", One(<<S("true"), S("false")>>))>> ELSE <<>>
        more == IF Rand(9) = 1 THEN <<Field("note", S("{\"a\": [1, \"}\"]}"))>> ELSE <<>>
        all == fields \o style \o crop \o lazy \o more
        few == IF odd = 8 THEN Tail(all) ELSE IF odd = 9 THEN <<all[1]>> \o SubSeq(all, 3, Len(all)) ELSE all
    IN  IF odd = 10 THEN One(<<S("3"), S("[]"), S("null"), S("\"/b.png\"")>>)
        ELSE S("{") \o Join(IF Rand(2) = 1 THEN few ELSE Reverse(few), S(",") \o One(<<S(" "), <<>>, NL>>)) \o S("}")
RECURSIVE Entries0(_, _, _)
Entries0(n, imgs, o) ==
    IF n = 0 THEN o
    ELSE Entries0(n - 1, imgs, o \o (IF o = <<>> THEN <<>> ELSE S(", ")) \o Quote(ListNames[n]) \o S(": ") \o Entry(imgs))
Lists == <<S("/x.images.json"), S("/sub/a.b.images.json"), S("/img/.images.json")>>
List(imgs) == IF Rand(40) = 1 THEN One(<<S("[]"), S("{"), S("3"), S("{\"a\": 1}"), S("{}"), S("null")>>) ELSE S("{") \o Entries0(Rand(IF Size > Len(ListNames) THEN Len(ListNames) ELSE Size), imgs, <<>>) \o S("}")
LNext == /\ Len(doc) < 1
         /\ \E p \in {One(Lists)} : \E imgs \in {Images0(1)} : doc' = Append(doc, [p |-> p, s |-> List(imgs), imgs |-> imgs, cfg |-> Settings(1)])
LSpec == Init /\ [][LNext]_doc
=============================================================================
