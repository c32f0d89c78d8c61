---------------------------- MODULE ProjectTrace ----------------------------
(* Recorded operations judged by Project: Codes are the kinds of deviations of *)
(* interest. A record says what was done (as in Project), and what was there    *)
(* afterwards: holder; users: are the user's files as they were?; out: is there *)
(* an output or artifact folder?; missing: parts of the skeleton missing;       *)
(* host: does a new configuration have the given host?; and after a build, if   *)
(* it ended well, ktext: published constants, imgs: what the published scripts   *)
(* of image lists describe, stale: imports without the matching version, fresh:   *)
(* is the output that of a first build?                                         *)
EXTENDS Project, Json, JsLex
CONSTANT Codes
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, errs
R == Trace[l]

\* ---- the constants file: `export const K = V;` for every constant
SetOf(s) == {s[i] : i \in 1..Len(s)}
Keys(ks) == {k[1] : k \in SetOf(ks)}
Mode == IF R.dev THEN R.consts.dev ELSE R.consts.prod
Wanted == {k \in SetOf(R.consts.shared) : k[1] \notin Keys(Mode)} \cup SetOf(Mode)
Sig(ts) == SelectSeq(ts, LAMBDA t : t.t \notin {"nl", "c"})
Plain(t) == [t |-> t.t, v |-> t.v]
\* a value: a string (as UTF-16 units) or the text of a literal
ValueTokens(v) == IF "s" \in DOMAIN v THEN <<[t |-> "str", v |-> v.s]>>
                  ELSE LET ts == Sig(Lex(v.x).toks) IN [i \in 1..Len(ts) |-> Plain(ts[i])]
RECURSIVE Statements(_)
Statements(ts) ==
    IF ts = <<>> THEN <<>>
    ELSE LET e == CHOOSE i \in 1..Len(ts) + 1 : (i = Len(ts) + 1 \/ ts[i] = [t |-> "p", v |-> S(";")])
                      /\ \A j \in 1..i - 1 : ts[j] # [t |-> "p", v |-> S(";")]
         IN  <<SubSeq(ts, 1, e - 1)>> \o Statements(SubSeq(ts, e + 1, Len(ts)))
Declares(st, k, v) ==
    Len(st) > 4 /\ SubSeq(st, 1, 4) = <<[t |-> "id", v |-> S("export")], [t |-> "id", v |-> S("const")],
                                       [t |-> "id", v |-> k], [t |-> "p", v |-> S("=")]>>
    /\ SubSeq(st, 5, Len(st)) = ValueTokens(v)
ConstantsOk ==
    IF ~ksrc THEN "ktext" \notin DOMAIN R
    ELSE /\ "ktext" \in DOMAIN R
         /\ LET x == Lex(R.ktext)
                ts == Sig(x.toks)
                sts == Statements([i \in 1..Len(ts) |-> Plain(ts[i])])
            IN  /\ x.err = ""
                /\ Len(sts) = Cardinality(Wanted)
                /\ \A k \in Wanted : \E i \in 1..Len(sts) : Declares(sts[i], k[1], k[2])

Expect == [i \in List |-> IF Satisfiable(i) THEN list[i] ELSE 0]
Deviations ==
    {} \cup (IF EndOk(R) THEN {} ELSE {R.op \o "-end"})
       \cup (IF HolderOk(R, R.holder) THEN {} ELSE {R.op \o "-holder"})
       \cup (IF R.users THEN {} ELSE {R.op \o "-users"})
       \cup (IF R.op = "clean" /\ R.end = "ok" /\ R.out THEN {"clean-out"} ELSE {})
       \cup (IF R.op = "clean" /\ R.end = "exit" /\ R.out # (out # "none") THEN {"clean-out"} ELSE {})
       \cup (IF R.op = "init" /\ R.missing THEN {"init-missing"} ELSE {})
       \cup (IF R.op = "init" /\ R.changed THEN {"init-changed"} ELSE {})
       \cup (IF R.op = "build" /\ R.end = "ok" THEN
                (IF ConstantsOk THEN {} ELSE {"constants"})
                \cup (IF R.imgs = Expect THEN {} ELSE {"images"})
                \cup {IF i = "k" THEN "constants-import" ELSE "images-import" : i \in SetOf(R.stale)}
                \cup (IF cleaned /\ ~R.fresh THEN {"fresh"} ELSE {})
             ELSE {})

AsSet(o) == IF o.op = "imports" THEN [op |-> o.op, all |-> SetOf(o.all), end |-> o.end] ELSE o
TInit == Empty /\ l = 1 /\ errs = {}
TReset ==
    /\ R.op = "reset"
    /\ cfg' = [is |-> "none", gen |-> FALSE, k |-> 0] /\ src' = FALSE /\ index' = "none"
    /\ list' = [i \in List |-> 0] /\ holder' = [i \in List |-> "none"] /\ managed' = [i \in List |-> "no"]
    /\ ksrc' = FALSE /\ broken' = FALSE /\ imports' = {} /\ out' = "none" /\ pub' = Nothing /\ cleaned' = TRUE /\ last' = [op |-> "none", end |-> "ok"]
    /\ UNCHANGED errs
TStep == R.op # "reset" /\ errs' = (Deviations \cap Codes) /\ Step(AsSet(R), R.holder)
TNext == l <= Len(Trace) /\ errs = {} /\ l' = l + 1 /\ (TReset \/ TStep)
TSpec == TInit /\ [][TNext]_<<vars, l, errs>>
Accepted == errs = {}
AllRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
