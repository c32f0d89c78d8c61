----------------------------- MODULE ImageTrace -----------------------------
(* Judges recorded publications of pages with image commands. trace.ndjson:     *)
(* first line [host], then per page [h: its path, fs: sequence of [p, s] of the *)
(* page and the partials, cfg: settings, imgs: sequence of [p, w, h] (w = 0: no *)
(* image), o: published (absent if refused), files: sequence of [u, w, h, f, q, *)
(* s, b] of the images published (format, setting identifying the export, image *)
(* it was made of, part of it as <<left, top, right, bottom>> or <<>>), arts:   *)
(* the same of the images in the artifacts folder, deps, kids, same: what was   *)
(* produced is what was foreseen, again: [same, made] of publishing it again].  *)
EXTENDS Images, Json
CONSTANT Chains
Trace == ndJsonDeserialize("trace.ndjson")
Verdict(v, a) == [v |-> v, a |-> a]
Ok == Verdict("ok", "")
ImageAt(r, p) == LET at == {i \in 1..Len(r.imgs) : r.imgs[i].p = p} IN IF p = <<>> \/ at = {} THEN [p |-> p, w |-> 0, h |-> 0] ELSE r.imgs[CHOOSE i \in at : TRUE]
Exists(r, p) == \E i \in 1..Len(r.imgs) : r.imgs[i].p = p
\* what a comment asks for: [is: "as is", "fails", "open" or "picture", dep: set of paths, cmd, img, crop]
Meaning(r, t) ==
    LET c == ImageCommand(t)
        p == IF c.is = "command" THEN ImagePath(r.h, c.path) ELSE <<>>
        img == ImageAt(r, p)
        M(is, dep, crop) == [is |-> is, dep |-> dep, cmd |-> c, img |-> img, crop |-> crop]
    IN  IF c.is = "no" THEN M("as is", {}, NoCrop)
        ELSE IF c.is = "malformed" THEN M("fails", {}, NoCrop)
        ELSE IF c.is # "command" THEN M("open", {}, NoCrop)
        ELSE IF c.crop.j = "bad" THEN M("fails", {}, NoCrop)
        ELSE IF p = <<>> THEN M("as is", {}, NoCrop)
        ELSE IF img.w = 0 \/ c.w > img.w \/ c.h > img.h THEN M("as is", {p}, NoCrop)
        ELSE IF BadCrop(c.crop) \/ c.w < 1 \/ c.h < 1 THEN M("fails", {}, NoCrop)
        ELSE IF OpenCrop(c.crop) THEN M("open", {}, NoCrop)
        ELSE LET crop == CropOf(c.crop) IN
             IF Nothing(img.w, img.h, crop) THEN M("fails", {}, NoCrop)
             ELSE IF \E z \in Sizes(img.w, img.h, c.w, c.h, r.cfg) : Empty(img.w, img.h, z[1], z[2], crop) THEN M("open", {}, NoCrop)
             ELSE IF <<c.w, c.h>> \notin Sizes(img.w, img.h, c.w, c.h, r.cfg) \/ Applicable(r.cfg.formats[r.cfg.default], c.w, c.h) = {} THEN M("fails", {}, NoCrop)
             ELSE M("picture", {p}, crop)
\* ---------------------------------------------------------------- pictures
Picture == Open(S("picture"), {})
IsSource(k) == k.k = "open" /\ k.n = S("source")
\* the entries of a srcset: <<address, width>>
Entries(v) ==
    LET es == SplitAt(v, C(","))
        Entry(e) == LET t == Trim(e, Ws)
                        u == FirstWord(t)
                        w == Behind(t)
                    IN  IF w # <<>> /\ Last(w) = C("w") /\ IsInt(SubSeq(w, 1, Len(w) - 1)) THEN <<u, SInt(SubSeq(w, 1, Len(w) - 1))>> ELSE <<u, 0>>
    IN  E([i \in 1..Len(es) |-> Entry(es[i])])
FileAt(r, u) == LET at == {i \in 1..Len(r.files) : r.files[i].u = u} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : TRUE
\* whether the entries offer the variants of the format asked for, and nothing else
OffersOf(r, m, fmt, entries) ==
    LET sizes == {z \in Sizes(m.img.w, m.img.h, m.cmd.w, m.cmd.h, r.cfg) : Applicable(fmt, z[1], z[2]) # {}}
        at == [i \in 1..Len(entries) |-> FileAt(r, entries[i][1])]
        Bad(i) ==
            LET f == r.files[at[i]] IN
            IF at[i] = 0 THEN "no such file"
            ELSE IF f.f # fmt.name THEN "format"
            ELSE IF f.w # entries[i][2] THEN "width stated"
            ELSE IF <<f.w, f.h>> \notin sizes THEN "size"
            ELSE IF f.s # m.img.p THEN "of another image"
            ELSE IF f.b # <<>> /\ ~GoodBox(f.b, m.img.w, m.img.h, f.w, f.h, m.crop) THEN "crop"
            ELSE IF ~\E x \in Preferred(fmt, f.w, f.h) : fmt.exports[x].q = f.q THEN "choice"
            ELSE ""
        bad == {i \in 1..Len(entries) : Bad(i) # ""}
    IN  IF bad # {} THEN Bad(CHOOSE i \in bad : TRUE)
        ELSE IF {<<r.files[at[i]].w, r.files[at[i]].h>> : i \in 1..Len(entries)} # sizes THEN "sizes"
        ELSE IF Len(entries) # Cardinality(sizes) THEN "listed twice"
        ELSE ""
\* the formats besides the default one there is something of
Others(r, m) ==
    {i \in 1..Len(r.cfg.formats) : i # r.cfg.default /\ \E z \in Sizes(m.img.w, m.img.h, m.cmd.w, m.cmd.h, r.cfg) : Applicable(r.cfg.formats[i], z[1], z[2]) # {}}
\* the picture whose tokens are those of out from p on: "" if it's the one meant
BadPicture(r, m, out, p) ==
    LET n == Cardinality(Others(r, m))
        img == out[p + n + 1]
        Set0(k) == Entries(Value(k, S("srcset")))
        Fmt(i) == LET e == Set0(out[p + i]) IN IF FileAt(r, e[1][1]) = 0 THEN "" ELSE r.files[FileAt(r, e[1][1])].f
        Offered(i) == OffersOf(r, m, CHOOSE x \in ToSet(r.cfg.formats) : x.name = Fmt(i), Set0(out[p + i]))
        bad == {i \in 1..n : Offered(i) # ""}
        default == r.cfg.formats[r.cfg.default]
        src == FileAt(r, Value(img, S("src")))
        Size(name) == IF HasAttr(img, name) /\ IsInt(Value(img, name)) THEN SInt(Value(img, name)) ELSE 0
    IN  IF p + n + 2 > Len(out) \/ out[p] # Picture THEN "no picture"
        ELSE IF ~\A i \in 1..n : IsSource(out[p + i]) /\ HasAttr(out[p + i], S("srcset")) THEN "sources"
        ELSE IF img.k # "open" \/ img.n # S("img") \/ out[p + n + 2] # Close(S("picture")) THEN "no img"
        ELSE IF {Fmt(i) : i \in 1..n} # {r.cfg.formats[i].name : i \in Others(r, m)} THEN "formats"
        ELSE IF bad # {} THEN Offered(CHOOSE i \in bad : TRUE)
        ELSE IF OffersOf(r, m, default, Set0(img)) # "" THEN OffersOf(r, m, default, Set0(img))
        ELSE IF src = 0 \/ (r.files[src].w # m.cmd.w \/ r.files[src].h # m.cmd.h) \/ ~\E i \in 1..Len(Set0(img)) : Set0(img)[i][1] = Value(img, S("src")) THEN "fallback"
        ELSE IF Size(S("width")) # m.cmd.w \/ Size(S("height")) # m.cmd.h THEN "size attributes"
        ELSE IF m.cmd.lazy # (Value(img, S("loading")) = S("lazy")) THEN "loading"
        ELSE ""
Addresses(out) == UNION {{Entries(Value(out[i], S("srcset")))[j][1] : j \in 1..Len(Entries(Value(out[i], S("srcset"))))} : i \in {i \in 1..Len(out) : out[i].k = "open" /\ HasAttr(out[i], S("srcset"))}}
Times(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
Judge(r) ==
    LET env == [path |-> r.h, host |-> Trace[1].host, query |-> <<>>,
                files |-> FoldLeft(LAMBDA a, f : (f.p :> f.s) @@ a, <<>>, r.fs)]
        st == Expand(env)
        published == "o" \in DOMAIN r
        items == Wanted(st)
        ms == E([i \in 1..Len(items) |-> IF items[i].tok.k = "comment" THEN Meaning(r, items[i].tok.t) ELSE Meaning(r, <<>>)])
    IN
    IF st.why # "" THEN Verdict("skip", st.why)
    ELSE IF \E i \in 1..Len(ms) : ms[i].is = "open" THEN Verdict("skip", "open: command")
    ELSE IF \E i \in 1..Len(ms) : ms[i].is = "fails" THEN (IF published THEN Verdict("published", "despite a malformed command") ELSE Ok)
    ELSE IF ~published THEN Verdict("rejected", "")
    ELSE
    LET out0 == Published(r.o)
        out == IF out0 # <<>> /\ Last(out0).k = "text" /\ Trim(Last(out0).t, Ws) = <<>> THEN SubSeq(out0, 1, Len(out0) - 1) ELSE out0
        deps == st.deps \cup UNION {ms[i].dep : i \in 1..Len(ms)}
        Step(a, i) ==
            IF a.bad # "" THEN a
            ELSE IF a.p > Len(out) THEN [a EXCEPT !.bad = "too short"]
            ELSE IF ms[i].is = "picture" THEN
                LET bad == BadPicture(r, ms[i], out, a.p) IN
                IF bad # "" THEN [a EXCEPT !.bad = bad] ELSE [a EXCEPT !.p = @ + Cardinality(Others(r, ms[i])) + 3]
            ELSE IF out[a.p] = items[i].tok THEN [a EXCEPT !.p = @ + 1]
            ELSE [a EXCEPT !.bad = IF items[i].tok.k = "comment" THEN "comment" ELSE "other content"]
        m == FoldLeft(Step, [p |-> 1, bad |-> ""], E([i \in 1..Len(items) |-> i]))
        linked == Addresses(out)
        Plain(f) == [w |-> f.w, h |-> f.h, f |-> f.f, q |-> f.q, s |-> f.s, b |-> f.b]
        pub == E([i \in 1..Len(r.files) |-> Plain(r.files[i])])
        art == E([i \in 1..Len(r.arts) |-> Plain(r.arts[i])])
    IN
    CASE m.bad # "" -> Verdict("page", m.bad)
      [] m.p <= Len(out) -> Verdict("page", "goes on")
      [] {r.files[i].u : i \in 1..Len(r.files)} \ linked # {} -> Verdict("page", "files nothing shows")
      [] \E i \in 1..Len(art) : Times(art, art[i]) # Times(pub, art[i]) -> Verdict("page", "candidates left")
      [] \E i \in 1..Len(pub) : Times(art, pub[i]) # Times(pub, pub[i]) -> Verdict("page", "not kept")
      [] ToSet(r.deps) # deps \/ ToSet(r.kids) # deps -> Verdict("dependencies", "")
      [] ~r.same -> Verdict("outputs", "differ from those foreseen")
      [] ~r.again.same -> Verdict("again", "another page")
      [] r.again.made > 0 -> Verdict("again", "made again")
      [] OTHER -> Ok
VARIABLE n
TInit == n \in 2..(Chains + 1)
TNext == n + Chains <= Len(Trace) /\ n' = n + Chains
TSpec == TInit /\ [][TNext]_n
Report == n <= Len(Trace) => LET j == Judge(Trace[n]) IN
            j.v # "ok" => PrintT(<<"JUDGED", n - 1, j.v, j.a>>)
=============================================================================
