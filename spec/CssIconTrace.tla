---------------------------- MODULE CssIconTrace ----------------------------
(* Judges recorded publications of stylesheets with icon commands.             *)
(* trace.ndjson: first line [default: path of the default stylesheet], then    *)
(* per stylesheet [h: its path, i: source, m: text of the default stylesheet,  *)
(* cfg: configured buttons (see CssIcons), svgs: sequence of [p, s] of the     *)
(* source icons, o: published (absent if refused), deps, kids, gen, again,     *)
(* same: what was produced is what was foreseen] (see CssTrace).               *)
EXTENDS CssIcons, Json
CONSTANT Chains
Trace == ndJsonDeserialize("trace.ndjson")
Default == Trace[1].default
Verdict(v, a) == [v |-> v, a |-> a]
Slim(k) == [t |-> k.t, v |-> k.v, x |-> k.x]
\* without the white space which means nothing
Tight(ks) ==
    FoldLeft(LAMBDA a, i :
        IF ks[i].t = "ws" /\ \/ a = <<>> \/ P(Last(a), "{") \/ P(Last(a), ";") \/ P(Last(a), "}") \/ P(Last(a), ":")
                             \/ i < Len(ks) /\ (P(ks[i + 1], "{") \/ P(ks[i + 1], ";") \/ P(ks[i + 1], "}"))
                             \/ i = Len(ks)
        THEN a ELSE Append(a, ks[i]), <<>>, [i \in 1..Len(ks) |-> i])
Plain(ks) == E([i \in 1..Len(ks) |-> Slim(ks[i])])
TextTokens(t) == Plain(Tight(Lex(t)))
\* the next n rules of ks from position p: sequence of their token sequences; fewer if there aren't
RECURSIVE RulesFrom(_, _, _, _)
RulesFrom(ks, p, n, o) ==
    IF n = 0 \/ ~\E j \in p..Len(ks) : P(ks[j], "}") THEN [o |-> o, p |-> p]
    ELSE LET e == CHOOSE j \in p..Len(ks) : P(ks[j], "}") /\ \A m \in p..(j - 1) : ~P(ks[m], "}")
         IN  RulesFrom(ks, e + 1, n - 1, Append(o, SubSeq(ks, p, e)))
Judge(r) ==
    LET src == Clean(r.i)
        toks == Lex(src)
        settings == Settings(IF r.h = Default THEN src ELSE Clean(r.m))
        svg == [p \in {r.svgs[j].p : j \in 1..Len(r.svgs)} |-> r.svgs[CHOOSE j \in 1..Len(r.svgs) : r.svgs[j].p = p].s]
        icons == E([i \in 1..Len(toks) |-> IF toks[i].t = "c" THEN Icon(toks[i].v, settings, r.cfg) ELSE NoIcon])
        at == {i \in 1..Len(toks) : icons[i].is = "yes"}
        published == "o" \in DOMAIN r
    IN
    IF settings.roots > 1 THEN Verdict("skip", "several roots")
    ELSE IF \E i \in 1..Len(toks) : icons[i].is = "odd" THEN Verdict("skip", "goes on")
    ELSE IF \E i \in 1..Len(toks) : icons[i].is = "bad" THEN
            (IF published /\ r.gen # <<>> /\ at = {} THEN Verdict("malformed", "") ELSE Verdict("skip", "malformed"))
    ELSE IF \E i, j \in at : icons[i].name = icons[j].name /\ icons[i].from # icons[j].from THEN Verdict("skip", "two source colours")
    ELSE IF \E i \in at : SourcePath(icons[i]) \notin DOMAIN svg THEN Verdict("skip", "no icon")
    ELSE IF ~published THEN Verdict("rejected", "")
    ELSE
    LET files == UNION {{<<i, c>> : c \in FileColours(icons[i])} : i \in at}
        paths == {FilePath(icons[f[1]], f[2]) : f \in files}
        Gen(p) == {g \in 1..Len(r.gen) : r.gen[g].p = p}
        Url(p) == p \o r.gen[CHOOSE g \in Gen(p) : TRUE].s
        deps == {SourcePath(icons[i]) : i \in at}
                \cup (IF r.h # Default /\ \E i \in 1..Len(toks) : icons[i].is \in {"yes", "nothing"} THEN {Default} ELSE {})
        out == Plain(Tight(Lex(Clean(r.o))))
        want == Tight(FoldLeft(LAMBDA a, i : Append(a, IF i \in at THEN Mk("icons", <<i>>) ELSE toks[i]), <<>>, [i \in 1..Len(toks) |-> i]))
        \* white space on either side of what is generated means nothing
        Beside(i) == want[i].t = "ws" /\ ((i > 1 /\ want[i - 1].t = "icons") \/ (i < Len(want) /\ want[i + 1].t = "icons"))
        items == SelectSeq([i \in 1..Len(want) |-> IF Beside(i) THEN Mk("none", <<>>) ELSE want[i]], LAMBDA k : k.t # "none")
        Step(a, k) ==
            IF a.bad # "" THEN a
            ELSE IF k.t # "icons" THEN
                LET b == IF a.p <= Len(out) /\ out[a.p].t = "ws" /\ k.t # "ws" THEN a.p + 1 ELSE a.p IN
                IF b > Len(out) \/ out[b] # Slim(k) THEN [a EXCEPT !.bad = "text"] ELSE [a EXCEPT !.p = b + 1]
            ELSE LET ic == icons[k.v[1]]
                     rules == IconRules(ic, LAMBDA c : Url(FilePath(ic, c)))
                     b == IF a.p <= Len(out) /\ out[a.p].t = "ws" THEN a.p + 1 ELSE a.p
                     got == RulesFrom(out, b, Len(rules), <<>>)
                     expected == E([j \in 1..Len(rules) |-> TextTokens(rules[j])])
                     Where(x) == CHOOSE j \in 1..Len(got.o) : got.o[j] = x
                     nplain == Len(ic.sizes) * Len(ic.colours)
                 IN  IF Len(got.o) # Len(rules) THEN [a EXCEPT !.bad = "too few classes"]
                     ELSE IF ToSet(got.o) # ToSet(expected) THEN [a EXCEPT !.bad = "classes"]
                     ELSE IF \E j \in (nplain + 1)..Len(rules) : (j - nplain) % 5 = 0 /\ Where(expected[j - 1]) > Where(expected[j])
                          THEN [a EXCEPT !.bad = "order of states"]
                     ELSE [a EXCEPT !.p = got.p]
    IN
    CASE {r.gen[g].p : g \in 1..Len(r.gen)} # paths -> Verdict("files", "")
      [] \E f \in files : \E g \in Gen(FilePath(icons[f[1]], f[2])) :
            r.gen[g].b # Encoded(Recolour(svg[SourcePath(icons[f[1]])], settings.colours[icons[f[1]].from], settings.colours[f[2]]))
            -> Verdict("recoloured icon", "")
      [] OTHER ->
        LET m == FoldLeft(Step, [p |-> 1, bad |-> ""], items) IN
        CASE m.bad # "" -> Verdict("stylesheet", m.bad)
          [] m.p <= Len(out) /\ ~(m.p = Len(out) /\ out[m.p].t = "ws") -> Verdict("stylesheet", "goes on")
          [] ToSet(r.deps) # deps \/ ToSet(r.kids) # deps -> Verdict("dependencies", "")
          [] ~r.same -> Verdict("outputs differ from those foreseen", "")
          [] ~r.again -> Verdict("not stable", "")
          [] OTHER -> Verdict("ok", "")
VARIABLE n
TInit == n \in 2..(Chains + 1)
TNext == n + Chains <= Len(Trace) /\ n' = n + Chains
TSpec == TInit /\ [][TNext]_n
Report == n <= Len(Trace) => LET j == Judge(Trace[n]) IN
            j.v # "ok" => PrintT(<<"JUDGED", n - 1, j.v, j.a>>)
=============================================================================
