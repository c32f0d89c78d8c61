--------------------------- MODULE ImageListTrace ---------------------------
(* Judges recorded publications of lists of images. trace.ndjson: first line    *)
(* [host], then per list [p: path of the script it becomes, s: the list, cfg,   *)
(* imgs: sequence of [p, w, h] (w = 0: no image), o: the script published (<<>> *)
(* if none is; absent if the list is refused), files, arts, deps, kids, same,   *)
(* again: as for pages (ImageTrace)].                                           *)
EXTENDS Images, Json
CONSTANT Chains
Trace == ndJsonDeserialize("trace.ndjson")
Verdict(v, a) == [v |-> v, a |-> a]
Ok == Verdict("ok", "")
NoImage == [p |-> <<>>, w |-> 0, h |-> 0]
ImageAt(r, p) == LET at == {i \in 1..Len(r.imgs) : r.imgs[i].p = p} IN IF p = <<>> \/ at = {} THEN NoImage ELSE r.imgs[CHOOSE i \in at : TRUE]
PublicPath(path) ==
    LET full == IF path # <<>> /\ path[1] = SLASH THEN Normal(S("src/public") \o path) ELSE <<>>
    IN  IF StartsWith(full, Public) THEN SubSeq(full, Len(Public), Len(full)) ELSE <<>>
CropKeys == [top |-> S("pre_top_crop"), left |-> S("pre_left_crop"), right |-> S("pre_right_crop"), bottom |-> S("pre_bottom_crop")]
Same(a, b) == a.n * b.d = b.n * a.d
SameCrop(o, c) ==
    /\ o.j = "o" /\ Len(o.v) = 6
    /\ \A k \in DOMAIN CropKeys : JMember(o, CropKeys[k]).j = "n" /\ Same(Fraction(JMember(o, CropKeys[k]).v), [n |-> c[k], d |-> 1])
    /\ \A k \in {"x", "y"} : LET v == JMember(o, IF k = "x" THEN S("crop_left_percentage") ELSE S("crop_top_percentage")) IN v.j = "n" /\ Same(Fraction(v.v), c[k])
FileAt(r, u) == LET at == {i \in 1..Len(r.files) : r.files[i].u = u} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
\* what is wrong with what the script says about an entry of the list
BadDescription(r, entry, d) ==
    LET img == ImageAt(r, PublicPath(Text1(entry, S("path"))))
        w == SInt(Num(entry, S("width"), <<48>>))
        h == SInt(Num(entry, S("height"), <<48>>))
        crop == CropOf(IF JMember(entry, S("crop_arguments")).j = "bad" THEN [j |-> "o", v |-> <<>>] ELSE JMember(entry, S("crop_arguments")))
        target == JMember(d, S("target"))
        set == JMember(target, S("settings"))
        outs == JMember(target, S("outputs"))
        all == Sizes(img.w, img.h, w, h, r.cfg)
        SizesOf(fmt) == {z \in all : Applicable(fmt, z[1], z[2]) # {}}
        offered == {i \in 1..Len(r.cfg.formats) : SizesOf(r.cfg.formats[i]) # {}}
        Name(fmt) == S(fmt.name)
        BadOutput(fmt, x) ==
            LET f == FileAt(r, Text1(x, S("url"))) IN
            IF f = 0 THEN "no such file"
            ELSE IF r.files[f].f # fmt.name THEN "format"
            ELSE IF Num(x, S("width"), <<>>) = <<>> \/ Num(x, S("height"), <<>>) = <<>> THEN "size stated"
            ELSE IF SInt(Num(x, S("width"), <<48>>)) # r.files[f].w \/ SInt(Num(x, S("height"), <<48>>)) # r.files[f].h THEN "size stated"
            ELSE IF <<r.files[f].w, r.files[f].h>> \notin SizesOf(fmt) THEN "size"
            ELSE IF r.files[f].s # img.p THEN "of another image"
            ELSE IF r.files[f].b # <<>> /\ ~GoodBox(r.files[f].b, img.w, img.h, r.files[f].w, r.files[f].h, crop) THEN "crop"
            ELSE IF ~\E e \in Preferred(fmt, r.files[f].w, r.files[f].h) : fmt.exports[e].q = r.files[f].q /\ S(fmt.exports[e].name) = Text1(x, S("choice")) THEN "choice"
            ELSE ""
        BadFormat(fmt) ==
            LET xs == JMember(outs, Name(fmt)) IN
            IF xs.j # "a" THEN "format missing"
            ELSE LET bad == {i \in 1..Len(xs.v) : BadOutput(fmt, xs.v[i]) # ""} IN
                 IF bad # {} THEN BadOutput(fmt, xs.v[CHOOSE i \in bad : TRUE])
                 ELSE IF Len(xs.v) # Cardinality(SizesOf(fmt)) \/ {Text1(xs.v[i], S("url")) : i \in 1..Len(xs.v)} = {} THEN "sizes"
                 ELSE IF Cardinality({Text1(xs.v[i], S("url")) : i \in 1..Len(xs.v)}) # Len(xs.v) THEN "sizes" ELSE ""
        bad == {i \in offered : BadFormat(r.cfg.formats[i]) # ""}
    IN  IF set.j # "o" \/ outs.j # "o" THEN "description"
        ELSE IF Num(set, S("width"), <<>>) = <<>> \/ Num(set, S("height"), <<>>) = <<>> \/ Text1(set, S("crop")) # S("cover") THEN "settings"
        ELSE IF SInt(Num(set, S("width"), <<48>>)) # w \/ SInt(Num(set, S("height"), <<48>>)) # h \/ ~SameCrop(JMember(set, S("crop_settings")), crop) THEN "settings"
        ELSE IF Len(outs.v) # Cardinality(offered) THEN "formats"
        ELSE IF bad # {} THEN BadFormat(r.cfg.formats[CHOOSE i \in bad : TRUE])
        ELSE ""
Prefix == S("export default ")
Times(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
Judge(r) ==
    LET list == JParse(r.s)
        published == "o" \in DOMAIN r
        n == IF list.j = "o" THEN Len(list.v) ELSE 0
        paths == {PublicPath(Text1(list.v[i][2], S("path"))) : i \in {i \in 1..n : list.v[i][2].j = "o"}} \ {<<>>}
        Why(i) == BadEntry(list.v[i][2], LAMBDA p : ImageAt(r, p))
        why == E([i \in 1..n |-> Why(i)])
        bad == list.j # "o" \/ \E i \in 1..n : why[i] # ""
    IN
    IF list.j = "bad" THEN (IF published THEN Verdict("published", "what is no list") ELSE Ok)
    ELSE IF \E i \in 1..n : StartsWith(why[i] \o "     ", "open:") THEN Verdict("skip", "open: settings")
    ELSE IF ~bad /\ \E i \in 1..n : LET e == list.v[i][2]
                                        img == ImageAt(r, PublicPath(Text1(e, S("path"))))
                                        crop == CropOf(IF JMember(e, S("crop_arguments")).j = "bad" THEN [j |-> "o", v |-> <<>>] ELSE JMember(e, S("crop_arguments")))
                                    IN  \E z \in Sizes(img.w, img.h, SInt(Num(e, S("width"), <<48>>)), SInt(Num(e, S("height"), <<48>>)), r.cfg) : Empty(img.w, img.h, z[1], z[2], crop)
         THEN Verdict("skip", "open: empty crop")
    ELSE IF ~published THEN Verdict("rejected", "")
    ELSE IF ToSet(r.deps) # paths \/ ToSet(r.kids) # paths THEN Verdict("dependencies", "")
    ELSE IF bad THEN (IF r.o = <<>> /\ r.files = <<>> THEN Ok ELSE Verdict("published", "despite an entry which is wrong"))
    ELSE
    LET o == Trim(r.o, Ws \cup {C(";")})
        js == IF StartsWith(o, Prefix) THEN JParse(SubSeq(o, Len(Prefix), Len(o))) ELSE JBad.v
        Described(i) == BadDescription(r, list.v[i][2], JMember(js, list.v[i][1]))
        wrong == {i \in 1..n : Described(i) # ""}
        Plain(f) == [w |-> f.w, h |-> f.h, f |-> f.f, q |-> f.q, s |-> f.s, b |-> f.b]
        pub == E([i \in 1..Len(r.files) |-> Plain(r.files[i])])
        art == E([i \in 1..Len(r.arts) |-> Plain(r.arts[i])])
        Urls(d) == LET outs == JMember(JMember(d, S("target")), S("outputs")) IN
                   UNION {{Text1(outs.v[f][2].v[x], S("url")) : x \in 1..Len(outs.v[f][2].v)} : f \in 1..Len(outs.v)}
        linked == UNION {Urls(js.v[i][2]) : i \in 1..Len(js.v)}
    IN
    CASE js.j # "o" -> Verdict("script", "")
      [] Len(js.v) # n -> Verdict("script", "images")
      [] wrong # {} -> Verdict("script", Described(CHOOSE i \in wrong : TRUE))
      [] {r.files[i].u : i \in 1..Len(r.files)} \ linked # {} -> Verdict("script", "files nothing shows")
      [] \E i \in 1..Len(art) : Times(art, art[i]) # Times(pub, art[i]) -> Verdict("script", "candidates left")
      [] \E i \in 1..Len(pub) : Times(art, pub[i]) # Times(pub, pub[i]) -> Verdict("script", "not kept")
      [] ~r.same -> Verdict("outputs", "differ from those foreseen")
      [] ~r.again.same -> Verdict("again", "another script")
      [] r.again.made > 0 -> Verdict("again", "made again")
      [] OTHER -> Ok
VARIABLE n
TInit == n \in 2..(Chains + 1)
TNext == n + Chains <= Len(Trace) /\ n' = n + Chains
TSpec == TInit /\ [][TNext]_n
Report == n <= Len(Trace) => LET j == Judge(Trace[n]) IN
            j.v # "ok" => PrintT(<<"JUDGED", n - 1, j.v, j.a>>)
=============================================================================
