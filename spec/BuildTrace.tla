----------------------------- MODULE BuildTrace -----------------------------
(* Validates recorded histories of the real build against the meaning of      *)
(* builds given in Build.tla.  A history is a sequence of builds of a project *)
(* that was edited in between; every record carries the true sources (known   *)
(* by construction), and what the build was seen to do and to leave behind.   *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANT Codes          \* the verdicts of interest

Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES l,
    src,        \* sources of the build in progress: file -> [v, sig, deps, outs]
    base,       \* sources of the last successful build
    clean,      \* FALSE iff the last build failed or was killed
    mode, bmode, \* mode of this build, of the last successful build
    cfg, bcfg,  \* version of the settings likewise
    valid,
    todo,       \* files that have to be built in this build
    may,        \* after a build that did not succeed: files that may be built as well
    running, done, avail,
    ids,        \* identities of what was published after the last build
    learned,    \* <<output, what it was computed from>> -> content
    bad

vars == <<l, src, base, clean, mode, bmode, cfg, bcfg, valid, todo, may, running, done, avail, ids,
          learned, bad>>

R == Trace[l]
Empty == <<>>
S(x) == Range(x)
Files(s) == DOMAIN s
Deps(s, f) == S(s[f].deps)
Outs(s, f) == S(s[f].outs)
AllOuts(s) == UNION {Outs(s, f) : f \in Files(s)}

RECURSIVE Reach(_, _, _)
Reach(s, fs, seen) ==
    LET next == (UNION {Deps(s, f) : f \in fs}) \ seen IN
    IF next = {} THEN seen ELSE Reach(s, next, seen \cup next)
Closure(s, f) == Reach(s, {f}, {f})

RECURSIVE Up(_, _, _)
Up(s, fs, seen) ==
    LET next == {p \in Files(s) : Deps(s, p) \cap fs # {}} \ seen IN
    IF next = {} THEN seen ELSE Up(s, next, seen \cup next)

\* files whose signature or existence differs from the last successful build
Changed(b, s) ==
    {f \in Files(s) : f \notin Files(b) \/ b[f].sig # s[f].sig} \cup (Files(b) \ Files(s))
\* the constants script is computed from the mode as well
ModeChanged(b, s, bm, m) ==
    IF bm = m THEN {} ELSE {f \in Files(s) : s[f].k = "const"}
Affected(b, s, bm, m) ==
    LET c == Changed(b, s) \cup ModeChanged(b, s, bm, m) IN Up(b, c, c) \cap Files(s)
AffectedOld(b, s, bm, m) ==
    LET c == Changed(b, s) \cup ModeChanged(b, s, bm, m) IN Up(b, c, c)

\* what an output is computed from
Producers(s, o) == {f \in Files(s) : o \in Outs(s, f)}
Key(s, o, m, g) ==
    LET p == CHOOSE f \in Producers(s, o) : TRUE
        c == Closure(s, p) IN
    <<{<<f, s[f].v>> : f \in c}, g, IF \E f \in c : s[f].k = "const" THEN m ELSE "any">>

Add(codes) == bad' = bad \cup {<<l, c>> : c \in codes}
If(c, code) == IF c THEN {code} ELSE {}

Init ==
    /\ l = 1 /\ src = Empty /\ base = Empty /\ clean = TRUE
    /\ mode = "none" /\ bmode = "none" /\ valid = "yes" /\ cfg = 0 /\ bcfg = 0
    /\ todo = {} /\ may = {} /\ running = {} /\ done = {} /\ avail = {}
    /\ ids = Empty /\ learned = {} /\ bad = {}

Reset ==
    /\ R.t = "reset"
    /\ src' = Empty /\ base' = Empty /\ clean' = TRUE
    /\ mode' = "none" /\ bmode' = "none" /\ valid' = "yes" /\ cfg' = 0 /\ bcfg' = 0
    /\ todo' = {} /\ may' = {} /\ running' = {} /\ done' = {} /\ avail' = {}
    /\ ids' = Empty /\ learned' = {}
    /\ Add({})

\* out/ or artifacts/ removed by the user, or cleaned: everything is new again
Wipe ==
    /\ R.t = "wiped"
    /\ base' = Empty /\ clean' = TRUE /\ bmode' = "none" /\ ids' = Empty
    /\ Add({})
    /\ UNCHANGED <<src, mode, cfg, bcfg, valid, todo, may, running, done, avail, learned>>

\* nothing of the last build is known to be still right: it did not succeed, or it had
\* other settings
Fresh == clean /\ cfg = bcfg

Begin ==
    /\ R.t = "begin"
    /\ src' = R.src
    /\ mode' = R.mode
    /\ cfg' = R.cfg
    /\ valid' = R.valid
    \* a build that did not succeed may have been killed before it changed anything
    /\ todo' = Affected(base, R.src, bmode, R.mode)
    /\ may' = IF clean /\ R.cfg = bcfg THEN {} ELSE Files(R.src) \ todo'
    /\ running' = {} /\ done' = {} /\ avail' = {}
    /\ Add({})
    /\ UNCHANGED <<base, clean, bmode, bcfg, ids, learned>>

Submit ==
    /\ R.t = "submit"
    /\ Add(If(R.f \in running \cup done, "twice")
           \cup If(R.f \notin todo \cup may \cup running \cup done, "unneeded")
           \cup If(R.f \in Files(src) /\ (Deps(src, R.f) \cap (todo \cup running)) \ {R.f} # {}, "order")
           \cup If(\E g \in (running \cup done) \cap Files(src) : g # R.f /\ R.f \in Deps(src, g), "order")
           \cup If(R.f \in Files(src) /\ \E g \in running \cap Files(src) :
                     g # R.f /\ ~((Outs(src, g) \cap Outs(src, R.f)) \subseteq avail), "conflict"))
    /\ todo' = todo \ {R.f} /\ may' = may \ {R.f}
    /\ running' = running \cup {R.f}
    /\ UNCHANGED <<src, base, clean, mode, bmode, cfg, bcfg, valid, done, avail, ids, learned>>

Done ==
    /\ R.t = "done"
    /\ Add(If(R.f \notin running, "twice"))
    /\ running' = running \ {R.f}
    /\ done' = done \cup {R.f}
    /\ avail' = avail \cup (IF R.f \in Files(src) THEN Outs(src, R.f) ELSE {})
    /\ UNCHANGED <<src, base, clean, mode, bmode, cfg, bcfg, valid, todo, may, ids, learned>>

\* killed
Killed ==
    /\ R.t = "end" /\ R.result = "crash"
    /\ clean' = FALSE
    /\ todo' = {} /\ may' = {} /\ running' = {} /\ done' = {} /\ avail' = {}
    /\ ids' = Empty
    /\ Add(If(~R.srcok, "source"))
    /\ UNCHANGED <<src, base, mode, bmode, cfg, bcfg, valid, learned>>

\* what went before a verdict
Suf == IF ~clean THEN "after" ELSE IF cfg # bcfg /\ bcfg # 0 THEN "config" ELSE ""

Failed ==
    /\ R.t = "end" /\ R.result \in {"error", "hang"}
    /\ clean' = FALSE
    /\ todo' = {} /\ may' = {} /\ running' = {} /\ done' = {} /\ avail' = {}
    /\ ids' = Empty
    /\ Add(If(R.result = "hang", "hang")
           \cup If(valid = "yes", "error" \o Suf)
           \cup If(valid = "yes" /\ R.cycle, "falsecycle")
           \cup If(valid = "cycle" /\ R.result = "error" /\ ~R.cycle, "cyclekind")
           \cup If(~R.srcok, "source"))
    /\ UNCHANGED <<src, base, mode, bmode, cfg, bcfg, valid, learned>>

Snapshot(s, m, g, pub) == {<<o, Key(s, o, m, g), pub[o]>> : o \in DOMAIN pub \cap AllOuts(s)}
Contradicts(snap) ==
    \E a \in snap : \E b \in learned : a[1] = b[1] /\ a[2] = b[2] /\ a[3] # b[3]

GraphCodes ==
    LET G == R.graph IN
    If(S(G.files) # Files(src), "gfiles")
    \cup If(\E f \in S(G.files) \cap Files(src) : ~G.sig[f], "gsig")
    \cup If(\E f \in S(G.files) \cap Files(src) : S(G.deps[f]) # Deps(src, f), "gdeps")
    \cup If(\E f \in S(G.files) \cap Files(src) : S(G.outs[f]) # Outs(src, f), "gouts")
    \cup If(~G.both, "gends")
    \cup If(~G.ondisk, "gdisk")

Succeeded ==
    /\ R.t = "end" /\ R.result = "ok"
    /\ LET pub == R.pub
           snap == Snapshot(src, mode, cfg, pub)
           aff == IF Fresh THEN AffectedOld(base, src, bmode, mode) ELSE Files(src)
           noop == Fresh /\ aff = {} /\ base # Empty
           still == {o \in AllOuts(src) \cap AllOuts(base) :
                       (Producers(base, o) \cup Producers(src, o)) \cap aff = {}}
       IN
       /\ Add(If(valid = "dangling", "undetected")
              \cup If(valid = "cycle", "undetectedcycle")
              \cup If(todo # {} \/ running # {}, "notbuilt")
              \cup If(\E o \in AllOuts(src) : o \notin DOMAIN pub, "missing" \o Suf)
              \cup If(\E o \in DOMAIN pub : o \notin AllOuts(src), "extra" \o Suf)
              \cup If(R.hasref /\ R.ref # pub, "content" \o Suf)
              \cup If(valid = "yes" /\ Contradicts(snap), "contradiction" \o (IF Suf = "config" THEN Suf ELSE ""))
              \cup If(\E o \in DOMAIN R.hash : o \in DOMAIN R.dig /\ R.hash[o] # R.dig[o], "hash")
              \cup If(\E k \in DOMAIN R.refs : LET r == R.refs[k] IN
                        r[2] \notin DOMAIN R.dig \/ R.dig[r[2]] # r[3], "version")
              \cup If(\E f \in Files(src) : \E x \in S(src[f].links) :
                        ~\E k \in DOMAIN R.refs : R.refs[k][1] = x[1] /\ R.refs[k][2] = x[2], "unversioned")
              \cup If(~R.srcok, "source")
              \cup If(R.empty # 0, "emptydir")
              \cup If(noop /\ ~R.same, "noop")
              \cup If(Fresh /\ \E o \in still : o \in DOMAIN ids /\ o \in DOMAIN R.ids
                                   /\ ids[o] # R.ids[o], "touched")
              \cup GraphCodes)
       /\ learned' = learned \cup snap
    /\ base' = src /\ bmode' = mode /\ bcfg' = cfg /\ clean' = TRUE
    /\ ids' = R.ids
    /\ todo' = {} /\ may' = {} /\ running' = {} /\ done' = {} /\ avail' = {}
    /\ UNCHANGED <<src, mode, cfg, valid>>

Step ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ Reset \/ Wipe \/ Begin \/ Submit \/ Done \/ Killed \/ Failed \/ Succeeded

Spec == Init /\ [][Step]_vars
Accepted == \A b \in bad : b[2] \notin Codes
AllRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
