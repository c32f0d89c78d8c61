------------------------------- MODULE Images -------------------------------
(* Image commands of pages: how they are read, which variants of the image they *)
(* ask for, which part of the image those show and which export of each format *)
(* is published. Fractions are [n, d] with d > 0.                               *)
EXTENDS HtmlPage
Abs(n) == IF n < 0 THEN 0 - n ELSE n
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
IntOf(w) == FoldLeft(LAMBDA a, c : 10 * a + c - 48, 0, w)
IsInt(w) == LET m == IF w # <<>> /\ w[1] = 45 THEN Tail(w) ELSE w IN m # <<>> /\ Len(m) < 9 /\ \A i \in 1..Len(m) : Digit(m[i])
SInt(w) == IF w[1] = 45 THEN 0 - IntOf(Tail(w)) ELSE IntOf(w)
Fraction(w) ==
    LET neg == w[1] = 45
        m == IF neg THEN Tail(w) ELSE w
        dot == Index(m, 46)
        n == IF dot = 0 THEN IntOf(m) ELSE IntOf(SubSeq(m, 1, dot - 1) \o SubSeq(m, dot + 1, Len(m)))
        d == IF dot = 0 THEN 1 ELSE Pow10(Len(m) - dot)
    IN  [n |-> IF neg THEN 0 - n ELSE n, d |-> d]
\* ---------------------------------------------------------------- reading a command
\* the first word and what is behind it
WordEnd(t) == Until(t, 1, Ws)
FirstWord(t) == SubSeq(t, 1, WordEnd(t) - 1)
Behind(t) == LTrim(SubSeq(t, WordEnd(t), Len(t)), Ws)
PixelKeys == {S("pre_top_crop"), S("pre_left_crop"), S("pre_right_crop"), S("pre_bottom_crop")}
ShareKeys == {S("crop_left_percentage"), S("crop_top_percentage")}
Half == [n |-> 1, d |-> 2]
NoCrop == [top |-> 0, left |-> 0, right |-> 0, bottom |-> 0, x |-> Half, y |-> Half]
Is(is) == [is |-> is, path |-> <<>>, w |-> 0, h |-> 0, crop |-> NoCrop, lazy |-> TRUE]
Pixels(o, key) == IF JMember(o, key).j = "bad" THEN 0 ELSE SInt(JMember(o, key).v)
Share(o, key) == IF JMember(o, key).j = "bad" THEN Half ELSE Fraction(JMember(o, key).v)
\* the settings a JSON object states
CropOf(o) ==
    [top |-> Pixels(o, S("pre_top_crop")), left |-> Pixels(o, S("pre_left_crop")), right |-> Pixels(o, S("pre_right_crop")),
     bottom |-> Pixels(o, S("pre_bottom_crop")), x |-> Share(o, S("crop_left_percentage")), y |-> Share(o, S("crop_top_percentage"))]
Outside(f) == f.n < 0 \/ f.n > f.d
BadCrop(o) ==
    \/ o.j # "o"
    \/ \E i \in 1..Len(o.v) : o.v[i][1] \notin PixelKeys \cup ShareKeys
    \/ \E i \in 1..Len(o.v) : o.v[i][2].j \notin {"n", "s"}
    \/ \E i \in 1..Len(o.v) : o.v[i][1] \in PixelKeys /\ o.v[i][2].j = "n" /\ IsInt(o.v[i][2].v) /\ SInt(o.v[i][2].v) < 0
    \/ \E i \in 1..Len(o.v) : o.v[i][1] \in ShareKeys /\ o.v[i][2].j = "n" /\ Outside(Fraction(o.v[i][2].v))
OpenCrop(o) == \E i \in 1..Len(o.v) : o.v[i][2].j = "s" \/ (o.v[i][1] \in PixelKeys /\ ~IsInt(o.v[i][2].v))
\* what a comment says: [is: "no" command, "malformed", "open" or a "command", ...]
ImageCommand(t) ==
    LET args == Args(t, S("IMAGE"))
        a == IF args = <<>> THEN <<>> ELSE Trim(args[1], {9, 11, 12, 13, 32, 10})
        path == FirstWord(a)
        a2 == Behind(a)
        w == FirstWord(a2)
        a3 == Behind(a2)
        h == FirstWord(a3)
        a4 == Behind(a3)
        style == FirstWord(a4)
        a5 == Behind(a4)
        brace == Index(a5, C("}"))
        crop == IF a5 = <<>> THEN [j |-> "o", v |-> <<>>] ELSE IF a5[1] # C("{") \/ brace = 0 THEN JBad.v ELSE JParse(SubSeq(a5, 1, brace))
        last == IF a5 = <<>> THEN <<>> ELSE SubSeq(a5, brace + 1, Len(a5))
        loading == Trim(last, Ws)
    IN  IF args = <<>> \/ Has(LTrim(args[1], Ws), 10) THEN Is("no")
        ELSE IF a = <<>> THEN Is("malformed")
        ELSE IF ~IsInt(w) \/ ~IsInt(h) THEN Is("malformed")
        ELSE IF style # <<>> /\ style # S("cover") THEN Is("malformed")
        ELSE IF a5 # <<>> /\ (a5[1] # C("{") \/ brace = 0) THEN Is("malformed")
        ELSE IF loading \notin {<<>>, S("lazy"), S("eager")} \/ (loading # <<>> /\ last[1] \notin Ws) THEN Is("open: loading")
        ELSE [is |-> "command", path |-> path, w |-> SInt(w), h |-> SInt(h), crop |-> crop, lazy |-> loading # S("eager")]
\* the path, from the root of the site, of the image a command in the page at the path home names: <<>> if it's outside
ImagePath(home, path) ==
    LET full == IF path[1] = SLASH THEN Normal(S("src/public") \o path) ELSE Normal(Dir(S("src/public") \o home) \o <<SLASH>> \o path)
    IN  IF StartsWith(full, Public) THEN SubSeq(full, Len(Public), Len(full)) ELSE <<>>
\* ---------------------------------------------------------------- the variants
\* sizes of the variants of a w x h command for an image of sw x sh
RECURSIVE SizesFrom(_, _, _, _, _, _, _)
SizesFrom(k, sw, sh, w, h, cfg, o) ==
    LET n == cfg.step.d + k * cfg.step.n
        d == cfg.step.d
    IN  IF w * n > sw * d \/ h * n > sh * d \/ n > cfg.max * d THEN o
        ELSE SizesFrom(k + 1, sw, sh, w, h, cfg, o \cup {<<(w * n) \div d, (h * n) \div d>>})
Sizes(sw, sh, w, h, cfg) == SizesFrom(0, sw, sh, w, h, cfg, {})
Applicable(fmt, w, h) ==
    {i \in 1..Len(fmt.exports) : (fmt.exports[i].lo = -1 \/ fmt.exports[i].lo <= w * h) /\ (fmt.exports[i].hi = -1 \/ w * h <= fmt.exports[i].hi)}
\* how large an export of that size gets
Weight(fmt, x, w, h) == LET b == x.bytes[((w * h) % 3) + 1] IN IF b < fmt.min THEN fmt.min ELSE b
Preferred(fmt, w, h) ==
    LET at == Applicable(fmt, w, h)
        Better(i, j) == Weight(fmt, fmt.exports[i], w, h) * fmt.exports[j].pref < Weight(fmt, fmt.exports[j], w, h) * fmt.exports[i].pref
    IN  {i \in at : \A j \in at : ~Better(j, i)}
\* whether the rectangle [x, y, w, h] of an image of sw x sh is the one to show in a variant of dw x dh
Empty(sw, sh, dw, dh, c) ==
    LET rw == sw - c.left - c.right
        rh == sh - c.top - c.bottom
    IN  (rw * dh > rh * dw /\ 2 * dw * rh <= dh) \/ (rw * dh < rh * dw /\ 2 * dh * rw <= dw)
Nothing(sw, sh, c) == sw - c.left - c.right <= 0 \/ sh - c.top - c.bottom <= 0
\* |part - total * share| is at most one
Near(part, slack, share) == Abs(part * share.d - slack * share.n) <= share.d
GoodBox(b, sw, sh, dw, dh, c) ==
    LET rw == sw - c.left - c.right
        rh == sh - c.top - c.bottom
        cw == b[3] - b[1]
        ch == b[4] - b[2]
        x == b[1] - c.left
        y == b[2] - c.top
    IN  /\ x >= 0 /\ y >= 0 /\ x + cw <= rw /\ y + ch <= rh /\ cw > 0 /\ ch > 0
        /\ IF rw * dh > rh * dw THEN ch = rh /\ 2 * Abs(cw * dh - dw * rh) <= dh
           ELSE cw = rw /\ 2 * Abs(ch * dw - dh * rw) <= dw
        /\ Near(x, rw - cw, c.x) /\ Near(y, rh - ch, c.y)
\* ---------------------------------------------------------------- lists of images
\* which part of an entry of a list of images keeps the list from being published, "" if none does
Num(o, key, default) == IF JMember(o, key).j = "n" THEN JMember(o, key).v ELSE default
Text1(o, key) == IF JMember(o, key).j = "s" THEN JMember(o, key).v ELSE <<>>
BadEntry(v, Img(_)) ==
    LET path == Text1(v, S("path"))
        crop == IF JMember(v, S("crop_arguments")).j = "bad" THEN [j |-> "o", v |-> <<>>] ELSE JMember(v, S("crop_arguments"))
        full == IF path # <<>> /\ path[1] = SLASH THEN Normal(S("src/public") \o path) ELSE <<>>
        img == Img(IF StartsWith(full, Public) THEN SubSeq(full, Len(Public), Len(full)) ELSE <<>>)
        w == Num(v, S("width"), <<48>>)
        h == Num(v, S("height"), <<48>>)
        style == JMember(v, S("crop_style"))
    IN  IF v.j # "o" THEN "no settings"
        ELSE IF path = <<>> \/ img.w = 0 THEN "no image"
        ELSE IF ~IsInt(w) \/ ~IsInt(h) \/ SInt(w) < 1 \/ SInt(h) < 1 \/ SInt(w) > img.w \/ SInt(h) > img.h THEN "size"
        ELSE IF style.j # "bad" /\ style # [j |-> "s", v |-> S("cover")] THEN "style"
        ELSE IF BadCrop(crop) THEN "crop"
        ELSE IF OpenCrop(crop) THEN "open: crop"
        ELSE LET c == CropOf(crop) IN
             IF img.w - c.left - c.right < SInt(w) \/ img.h - c.top - c.bottom < SInt(h) THEN "crop leaves too little" ELSE ""
=============================================================================
