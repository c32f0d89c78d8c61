------------------------------ MODULE CssTrace ------------------------------
(* Judges recorded publications of stylesheets. trace.ndjson: first line       *)
(* [default: path of the default stylesheet, query: sequence of [p, s],        *)
(*  files: sequence of [p, o: published text]], then one line per stylesheet   *)
(* [h: its path, i: source, o: published (absent if refused), deps, kids:      *)
(*  sequences of paths, gen: sequence of [p, s, b: bytes] of the files it      *)
(*  produced, again: is it the same after publishing it again].                *)
EXTENDS CssPublish, Json
CONSTANT Chains
Trace == ndJsonDeserialize("trace.ndjson")
Cfg == Trace[1]
Query == [p \in {Cfg.query[j].p : j \in 1..Len(Cfg.query)} |->
            Cfg.query[CHOOSE j \in 1..Len(Cfg.query) : Cfg.query[j].p = p].s]
AsFile(text) == LET toks == Lex(text) IN [toks |-> toks, rules |-> TopRules(text, toks)]
Others == [p \in {Cfg.files[j].p : j \in 1..Len(Cfg.files)} |->
             AsFile(Clean(Cfg.files[CHOOSE j \in 1..Len(Cfg.files) : Cfg.files[j].p = p].o))]
Verdict(v, a) == [v |-> v, a |-> a]
Judge(r) ==
    LET src == Clean(r.i)
        me == AsFile(src)
        imps == {ImportAt(me.toks, i) : i \in 1..Len(me.toks)}
        real == {m \in imps : m.is}
        files == [f \in {r.h} \cup DOMAIN Others |-> IF f = r.h THEN me ELSE Others[f]]
        exp == IF real = {} THEN [ok |-> "", o |-> me.toks] ELSE Expand(files, r.h, Cfg.default, me.toks, {})
        ks == exp.o
        urls == Urls(ks)
        data == {i \in urls : IsData(ks[i].v)}
        locals == {i \in urls : Local(ks[i].v) /\ PathOf(ks[i].v) # r.h}
        sheets == {IF m.from = <<>> THEN Cfg.default ELSE m.from : m \in real} \ {r.h}
        repeated == \E i, j \in 1..Len(me.rules) : i # j /\ me.rules[i].sel = me.rules[j].sel
    IN
    IF \E m \in imps : m.odd THEN Verdict("skip", "odd import")
    ELSE IF \E i \in 1..Len(me.toks) : ImportAt(me.toks, i).is /\ ~PrevSig(me.toks, i - 1).v \in {S("{"), S("}"), S(";")} THEN Verdict("skip", "odd place")
    ELSE IF real # {} /\ repeated THEN Verdict("skip", "repeated selector")
    ELSE IF exp.ok \in {"several", "no file"} THEN Verdict("skip", exp.ok)
    ELSE IF \E i \in UrlStrings(ks) : ~P(NextSig(ks, i + 1), ")") THEN Verdict("skip", "url modifiers")
    ELSE IF \E i \in locals : PathOf(ks[i].v) \notin DOMAIN Query THEN Verdict("skip", "missing file")
    ELSE IF \E i \in data : Has(ks[i].v, C("#")) \/ DataSplit(ks[i].v).data = <<>> \/ ~Denoted(ks[i].v).ok THEN Verdict("skip", "odd data")
    ELSE IF exp.ok # "" THEN IF "o" \in DOMAIN r THEN Verdict("not reported", exp.ok) ELSE Verdict("ok", "")
    ELSE IF "o" \notin DOMAIN r THEN Verdict("rejected", "")
    ELSE
    LET out0 == Lex(Clean(r.o))
        \* what stands for data url i
        Stands(i, k) == /\ k.t = "str" \/ k.t = "url"
                        /\ \E g \in 1..Len(r.gen) : k.v = r.gen[g].p \o r.gen[g].s /\ r.gen[g].b = Denoted(ks[i].v).o
        want0 == [i \in 1..Len(ks) |->
                    CASE i \in data -> Mk("data", <<i>>)
                      [] i \in locals -> [ks[i] EXCEPT !.v = PathOf(@) \o Query[PathOf(@)] \o FragmentOf(@)]
                      [] OTHER -> ks[i]]
        want == IF real = {} THEN want0 ELSE DropSemis(MergeWs(want0))
        out == IF real = {} THEN out0 ELSE DropSemis(MergeWs(out0))
        \* unquoted data urls may be written with or without quotes
        Same(w, k) == IF w.t = "data" THEN Stands(w.v[1], k) ELSE SameToken(w, k)
        bad == {j \in 1..Len(want) : j > Len(out) \/ ~Same(want[j], out[j])}
        deps == {PathOf(ks[i].v) : i \in locals} \cup sheets
        used == {out[j].v : j \in 1..Len(out)}
    IN
    CASE Len(want) # Len(out) \/ bad # {} ->
            Verdict(IF real # {} THEN "import" ELSE IF bad = {} THEN "length"
                    ELSE LET b == CHOOSE j \in bad : \A k \in bad : j <= k IN
                         IF want[b].t = "data" THEN "data" ELSE "token", "")
      [] ToSet(r.deps) # deps \/ ToSet(r.kids) # deps -> Verdict("dependencies", "")
      [] \E g \in 1..Len(r.gen) : r.gen[g].p \o r.gen[g].s \notin used -> Verdict("extra file", "")
      [] ~r.again -> Verdict("not stable", "")
      [] OTHER -> Verdict("ok", "")
VARIABLE n
TInit == n \in 2..(Chains + 1)
TNext == n + Chains <= Len(Trace) /\ n' = n + Chains
TSpec == TInit /\ [][TNext]_n
Report == n <= Len(Trace) => LET j == Judge(Trace[n]) IN
            j.v # "ok" => PrintT(<<"JUDGED", n - 1, j.v, j.a>>)
=============================================================================
