------------------------------ MODULE JsTrace ------------------------------
(* Judges recorded publications of scripts. trace.ndjson: first line           *)
(* [dir, query: sequence of [p, s]], then one line per script                  *)
(* [i: source, o: published, deps: sequence of paths, kids: likewise].         *)
(* Every judgement which is not "ok" is printed.                               *)
EXTENDS JsPublish, Json
CONSTANT Chains
Trace == ndJsonDeserialize("trace.ndjson")
Cfg == Trace[1]
Query == [p \in {Cfg.query[j].p : j \in 1..Len(Cfg.query)} |->
            Cfg.query[CHOOSE j \in 1..Len(Cfg.query) : Cfg.query[j].p = p].s]
Judge(r) ==
    LET li == Lex(r.i) IN
    IF li.err # "" THEN [v |-> "skip", a |-> li.err]
    ELSE
    LET it == Unhint(li.toks)
        sp == Specifiers(it)
        locals == {i \in sp.at : Local(it[i].v)}
        deps == {Resolve(it[i].v, Cfg.dir) : i \in locals}
    IN
    IF sp.bad THEN [v |-> "skip", a |-> "malformed import"]
    ELSE IF SlashAfterHint(it) THEN [v |-> "skip", a |-> "slash after hint"]
    ELSE IF ~(deps \subseteq DOMAIN Query) THEN [v |-> "skip", a |-> "missing module"]
    ELSE IF "o" \notin DOMAIN r THEN [v |-> "rejected", a |-> ""]
    ELSE
    LET lo == IF r.o = r.i THEN li ELSE Lex(r.o)
        ex == Expected(it, sp.at, Cfg.dir, Query)
        ou == SelectSeq(lo.toks, LAMBDA k : ~Inserted(k))
        d == FirstDiff(ex, ou)
        hints == \E i \in 1..Len(it) : it[i].x = S("hint")
    IN
    CASE lo.err # "" -> [v |-> IF hints THEN "hints" ELSE "meaning", a |-> lo.err]
      [] d <= Len(ex) \/ Len(ex) # Len(ou) ->
            [v |-> CASE d \in sp.at -> "import"
                     [] d <= Len(ex) /\ ex[d].t = "str" /\ d <= Len(ou) /\ ou[d].t = "str" /\ Has(ou[d].v, C("?")) /\ ~Has(ex[d].v, C("?")) -> "import"
                     [] hints -> "hints"
                     [] OTHER -> "meaning", a |-> "token"]
      [] ~SameGaps(ex, SelectSeq(lo.toks, LAMBDA k : ~Inserted(k))) -> [v |-> "meaning", a |-> "gap"]
      [] ToSet(r.deps) # deps \/ ToSet(r.kids) # deps -> [v |-> IF hints THEN "hints" ELSE "import", a |-> "dependencies"]
      [] OTHER -> [v |-> "ok", a |-> IF locals # {} THEN "imports" ELSE IF hints THEN "hints" ELSE ""]
VARIABLE n
TInit == n \in 2..(Chains + 1)
TNext == n + Chains <= Len(Trace) /\ n' = n + Chains
TSpec == TInit /\ [][TNext]_n
Report == n <= Len(Trace) => LET j == Judge(Trace[n]) IN
            j.v # "ok" => PrintT(<<"JUDGED", n - 1, j.v, j.a>>)
=============================================================================
