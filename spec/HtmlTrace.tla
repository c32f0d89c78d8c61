----------------------------- MODULE HtmlTrace -----------------------------
(* Judges recorded publications of pages. trace.ndjson: first line [host,      *)
(* inline: sequence of [k: "script" or "style", s: source, o: what publishing   *)
(* it as a file gives, deps], files: sequence of [p, q: its version query]      *)
(* of published files, made: sequence of [h, g: files publishing the page h     *)
(* generated at any time]], then per page [h: its path, fs: sequence of [p, s] of   *)
(* the page and the partials, o: published (absent if refused), gen: sequence   *)
(* of [p, q, s] of the files generated besides it, deps, kids, same: what was   *)
(* produced is what was foreseen, clean: the source folder is as it was].       *)
EXTENDS HtmlPage, Json
CONSTANT Chains
Trace == ndJsonDeserialize("trace.ndjson")
Verdict(v, a) == [v |-> v, a |-> a]
Queries == FoldLeft(LAMBDA a, f : (f.p :> f.q) @@ a, <<>>, Trace[1].files)
Code(k, s) == LET at == {i \in 1..Len(Trace[1].inline) : Trace[1].inline[i].k = k /\ Trace[1].inline[i].s = s}
              IN  IF at = {} THEN <<>> ELSE <<Trace[1].inline[CHOOSE i \in at : TRUE]>>
\* the reference an element takes the place of inline code with
RefAttr(item) == IF item.is = "script" THEN S("src") ELSE S("href")
Judge(r) ==
    LET env == [path |-> r.h, host |-> Trace[1].host, query |-> Queries,
                files |-> FoldLeft(LAMBDA a, f : (f.p :> f.s) @@ a, <<>>, r.fs)]
        st == Expand(env)
        published == "o" \in DOMAIN r
        code == {i \in 1..Len(st.o) : st.o[i].is # "as is"}
    IN
    IF StartsWith(st.why \o "     ", "open:") THEN Verdict("skip", st.why)
    ELSE IF \E i \in code : Code(st.o[i].is, st.o[i].text) = <<>> THEN Verdict("skip", "unknown code")
    ELSE IF ~r.clean THEN Verdict("source changed", "")
    ELSE IF st.why # "" THEN (IF published THEN Verdict("published despite", st.why) ELSE Verdict("ok", ""))
    ELSE IF ~published THEN Verdict("rejected", "")
    ELSE
    LET items == Wanted(st)
        out0 == Published(r.o)
        out == IF out0 # <<>> /\ Last(out0).k = "text" /\ Trim(Last(out0).t, Ws) = <<>> THEN SubSeq(out0, 1, Len(out0) - 1) ELSE out0
        gens == {r.gen[g].p : g \in 1..Len(r.gen)}
        deps == st.deps \cup UNION {ToSet(Code(st.o[i].is, st.o[i].text)[1].deps) : i \in code}
        Step(a, x) ==
            IF a.bad # "" THEN a
            ELSE IF a.p > Len(out) THEN [a EXCEPT !.bad = "too short"]
            ELSE IF x.is = "as is" THEN
                (IF out[a.p] = x.tok THEN [a EXCEPT !.p = @ + 1]
                 ELSE [a EXCEPT !.bad = IF out[a.p].k # x.tok.k THEN "another kind of token"
                                        ELSE IF x.tok.k = "text" THEN "text" ELSE "element"])
            ELSE
                LET k == out[a.p]
                    u == Value(k, RefAttr(x))
                    f == SubSeq(u, 1, Until(u, 1, {63}) - 1)
                    g == CHOOSE g \in 1..Len(r.gen) : r.gen[g].p = f
                    attrs == {y \in x.tok.a : y[1] # RefAttr(x)} \cup {<<RefAttr(x), u>>}
                    style == {y \in attrs : y[1] # S("rel")} \cup {<<S("rel"), S("stylesheet")>>}
                    elem == IF x.is = "script" THEN Open(S("script"), attrs) ELSE Open(S("link"), style)
                    closed == x.is = "style" \/ (a.p < Len(out) /\ out[a.p + 1] = Close(S("script")))
                IN  IF k # elem THEN [a EXCEPT !.bad = "element in place of inline code"]
                    ELSE IF ~closed THEN [a EXCEPT !.bad = "inline code"]
                    ELSE IF f \notin gens THEN [a EXCEPT !.bad = "no generated file"]
                    ELSE IF f \in a.used THEN [a EXCEPT !.bad = "shared generated file"]
                    ELSE IF u # f \o r.gen[g].q THEN [a EXCEPT !.bad = "version of generated file"]
                    ELSE IF r.gen[g].s # Code(x.is, x.text)[1].o THEN [a EXCEPT !.bad = "content of generated file"]
                    ELSE [a EXCEPT !.p = @ + (IF x.is = "script" THEN 2 ELSE 1), !.used = @ \cup {f}]
        m == FoldLeft(Step, [p |-> 1, used |-> {}, bad |-> ""], items)
    IN
    CASE m.bad # "" -> Verdict("page", m.bad)
      [] m.p <= Len(out) -> Verdict("page", "goes on")
      [] gens # m.used -> Verdict("page", "other generated files")
      [] \E i \in 1..Len(Trace[1].made) : Trace[1].made[i].h # r.h /\ ToSet(Trace[1].made[i].g) \cap gens # {} ->
            Verdict("page", "generated files shared with another page")
      [] ToSet(r.deps) # deps \/ ToSet(r.kids) # deps -> Verdict("dependencies", "")
      [] ~r.same -> Verdict("outputs differ from those foreseen", "")
      [] OTHER -> Verdict("ok", "")
VARIABLE n
TInit == n \in 2..(Chains + 1)
TNext == n + Chains <= Len(Trace) /\ n' = n + Chains
TSpec == TInit /\ [][TNext]_n
Report == n <= Len(Trace) => LET j == Judge(Trace[n]) IN
            j.v # "ok" => PrintT(<<"JUDGED", n - 1, j.v, j.a>>)
=============================================================================
