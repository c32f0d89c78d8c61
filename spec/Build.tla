------------------------------- MODULE Build -------------------------------
(* The incremental build engine: what a project's sources are, what a build   *)
(* of them publishes, and how a build proceeds - one worker completion at a   *)
(* time, in any order, failing or being killed at any point.                  *)
(*                                                                            *)
(* Pages may depend on pages and leaves; a page that lists a leaf in `sh`     *)
(* additionally produces a derived output of that leaf (an image variant, a   *)
(* recoloured icon), which any number of pages may share.                     *)
(*                                                                            *)
(* Content is modelled by the set of <<file, version>> pairs it was computed  *)
(* from, so a published file is correct iff it was computed from exactly the  *)
(* current versions of its sources.  Pages are computed from the settings as  *)
(* well, so their content also names the version of those.                    *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Page, Leaf, MaxVer, MaxBuilds, MaxCfg

File == Page \cup Leaf
None == [v |-> 0, deps |-> {}, sh |-> {}]
Exists(s, f) == s[f].v > 0
Own(f) == <<"own", f>>
Var(l) == <<"var", l>>
Out == {Own(f) : f \in File} \cup {Var(l) : l \in Leaf}
Absent == {}

VARIABLES
    src,        \* File -> [v, deps, sh], v = 0 if the file does not exist
    ver,        \* last version handed out
    pub,        \* Out -> content (Absent if not published)
    graph,      \* File -> [v, deps, outs] as of the last successful build
    marker,     \* a build has started and not completed
    phase,      \* "idle" | "build"
    todo, running, done,   \* files of the current build
    avail,      \* outputs produced or reused by the current build
    base,       \* sources as of the last successful build (ghost)
    result,     \* outcome of the last finished build
    nbuild,
    cfg,        \* version of the settings
    gcfg,       \* version of the settings what is published was produced with
    bcfg,       \* settings as of the last successful build (ghost)
    act         \* last action (for replay)

vars == <<src, ver, pub, graph, marker, phase, todo, running, done, avail, base,
          result, nbuild, cfg, gcfg, bcfg, act>>

-----------------------------------------------------------------------------
(* Meaning of a set of sources *)

Deps(s, f) == s[f].deps \cup s[f].sh
Outs(s, f) == IF Exists(s, f) THEN {Own(f)} \cup {Var(l) : l \in s[f].sh} ELSE {}

RECURSIVE Reach(_, _, _)
Reach(s, fs, seen) ==
    LET next == (UNION {Deps(s, f) : f \in fs}) \ seen IN
    IF next = {} THEN seen ELSE Reach(s, next, seen \cup next)
Closure(s, f) == Reach(s, {f}, {f})

Dangling(s) == \E f \in File : Exists(s, f) /\ \E d \in Deps(s, f) : ~Exists(s, d)
Cyclic(s) == \E f \in File : Exists(s, f) /\ \E d \in Deps(s, f) : f \in Closure(s, d)
Valid(s) == ~Dangling(s) /\ ~Cyclic(s)

\* What a from-scratch build of valid sources publishes
With(f, c) == IF f \in Page THEN {<<"cfg", c>>} ELSE {}
Published(s, c) ==
    [o \in Out |->
        IF o[1] = "own"
        THEN IF Exists(s, o[2])
             THEN {<<g, s[g].v>> : g \in Closure(s, o[2])} \cup With(o[2], c)
             ELSE Absent
        ELSE IF \E f \in File : Exists(s, f) /\ o[2] \in s[f].sh
             THEN {<<o[2], s[o[2]].v>>} ELSE Absent]

-----------------------------------------------------------------------------
Known(g, f) == g[f].v > 0
NoGraph == [f \in File |-> [v |-> 0, deps |-> {}, outs |-> {}]]
Nothing == [o \in Out |-> Absent]

RECURSIVE Up(_, _, _)
Up(g, fs, seen) ==
    LET next == {p \in File : Known(g, p) /\ g[p].deps \cap fs # {}} \ seen IN
    IF next = {} THEN seen ELSE Up(g, next, seen \cup next)

Changed(g) == {f \in File : g[f].v # src[f].v}
Affected(g) == Up(g, Changed(g), Changed(g))
Producers(g, o) == {f \in File : Known(g, f) /\ o \in g[f].outs}
\* removed before rebuilding: outputs nobody still valid needs
Dirty(g) == {o \in Out : Producers(g, o) # {} /\ Producers(g, o) \subseteq Affected(g)}

Init ==
    /\ src = [f \in File |-> None]
    /\ ver = 0
    /\ pub = Nothing
    /\ graph = NoGraph
    /\ marker = FALSE
    /\ phase = "idle"
    /\ todo = {} /\ running = {} /\ done = {} /\ avail = {}
    /\ base = [f \in File |-> None]
    /\ result = "none"
    /\ nbuild = 0
    /\ cfg = 1 /\ gcfg = 1 /\ bcfg = 1
    /\ act = [a |-> "init"]

UNCH_BUILD == UNCHANGED <<pub, graph, marker, phase, todo, running, done, avail, base,
                          result, nbuild, cfg, gcfg, bcfg>>

EditPage(p, ds, sh) ==
    /\ phase = "idle" /\ ver < MaxVer
    /\ ver' = ver + 1
    /\ src' = [src EXCEPT ![p] = [v |-> ver + 1, deps |-> ds, sh |-> sh]]
    /\ act' = [a |-> "edit", f |-> p, v |-> ver + 1, deps |-> ds, sh |-> sh]
    /\ UNCH_BUILD

EditLeaf(l) ==
    /\ phase = "idle" /\ ver < MaxVer
    /\ ver' = ver + 1
    /\ src' = [src EXCEPT ![l] = [v |-> ver + 1, deps |-> {}, sh |-> {}]]
    /\ act' = [a |-> "edit", f |-> l, v |-> ver + 1, deps |-> {}, sh |-> {}]
    /\ UNCH_BUILD

Delete(f) ==
    /\ phase = "idle" /\ Exists(src, f) /\ ver < MaxVer
    /\ ver' = ver + 1
    /\ src' = [src EXCEPT ![f] = None]
    /\ act' = [a |-> "delete", f |-> f]
    /\ UNCH_BUILD

Configure ==
    /\ phase = "idle" /\ cfg < MaxCfg
    /\ cfg' = cfg + 1
    /\ act' = [a |-> "configure", v |-> cfg + 1]
    /\ UNCHANGED <<src, ver, pub, graph, marker, phase, todo, running, done, avail, base,
                   result, nbuild, gcfg, bcfg>>

\* A new build; what an interrupted build or one with other settings left behind
\* is discarded first.
Scratch == marker \/ gcfg # cfg
Begin ==
    /\ phase = "idle" /\ nbuild < MaxBuilds
    /\ nbuild' = nbuild + 1
    /\ LET g == IF Scratch THEN NoGraph ELSE graph
           p == IF Scratch THEN Nothing ELSE pub
       IN
       /\ graph' = g
       /\ gcfg' = cfg
       /\ IF Affected(g) = {}
          THEN /\ pub' = p
               /\ result' = "ok"
               /\ base' = src
               /\ bcfg' = cfg
               /\ marker' = Scratch
               /\ UNCHANGED <<phase, todo, running, done, avail>>
          ELSE /\ pub' = [o \in Out |-> IF o \in Dirty(g) THEN Absent ELSE p[o]]
               /\ marker' = TRUE
               /\ phase' = "build"
               /\ todo' = {f \in Affected(g) : Exists(src, f)}
               /\ running' = {} /\ done' = {} /\ avail' = {}
               /\ result' = "running"
               /\ UNCHANGED <<base, bcfg>>
    /\ act' = [a |-> "begin"]
    /\ UNCHANGED <<src, ver, cfg>>

\* Killed while removing outdated outputs: any part of them may be gone
CrashCleaning(some) ==
    /\ phase = "idle" /\ nbuild < MaxBuilds /\ ~marker
    /\ \/ Affected(graph) # {} /\ some \subseteq Dirty(graph)
       \/ gcfg # cfg
    /\ nbuild' = nbuild + 1
    /\ marker' = TRUE
    /\ pub' = [o \in Out |-> IF o \in some THEN Absent ELSE pub[o]]
    /\ result' = "crash"
    /\ act' = [a |-> "crashcleaning"]
    /\ UNCHANGED <<src, ver, graph, phase, todo, running, done, avail, base, cfg, gcfg, bcfg>>

Ready(f) ==
    /\ f \in todo
    /\ Deps(src, f) \cap ((todo \ {f}) \cup running) = {}
    /\ f \notin Deps(src, f)
    /\ \A r \in running : Outs(src, f) \cap Outs(src, r) \subseteq avail

Submit(f) ==
    /\ phase = "build" /\ Ready(f)
    /\ todo' = todo \ {f}
    /\ running' = running \cup {f}
    /\ act' = [a |-> "submit", f |-> f]
    /\ UNCHANGED <<src, ver, pub, graph, marker, phase, done, avail, base, result, nbuild,
                   cfg, gcfg, bcfg>>

Complete(f) ==
    /\ phase = "build" /\ f \in running
    /\ running' = running \ {f}
    /\ done' = done \cup {f}
    /\ avail' = avail \cup Outs(src, f)
    /\ pub' = [o \in Out |->
                 IF o = Own(f)
                 THEN {<<f, src[f].v>>} \cup UNION {pub[Own(d)] : d \in Deps(src, f)}
                      \cup With(f, cfg)
                 ELSE IF o \in Outs(src, f) /\ pub[o] = Absent
                 THEN {<<o[2], src[o[2]].v>>}
                 ELSE pub[o]]
    /\ act' = [a |-> "complete", f |-> f]
    /\ UNCHANGED <<src, ver, graph, marker, phase, todo, base, result, nbuild,
                   cfg, gcfg, bcfg>>

Stop(r) ==
    /\ phase' = "idle" /\ result' = r
    /\ todo' = {} /\ running' = {} /\ done' = {} /\ avail' = {}

Finish ==
    /\ phase = "build" /\ todo = {} /\ running = {} /\ ~Dangling(src)
    /\ graph' = [f \in File |->
                   IF ~Exists(src, f) THEN NoGraph[f]
                   ELSE IF f \in done
                   THEN [v |-> src[f].v, deps |-> Deps(src, f), outs |-> Outs(src, f)]
                   ELSE graph[f]]
    /\ marker' = FALSE
    /\ base' = src
    /\ bcfg' = cfg
    /\ Stop("ok")
    /\ act' = [a |-> "finish"]
    /\ UNCHANGED <<src, ver, pub, nbuild, cfg, gcfg>>

\* a reference to something that does not exist makes the build fail, at some point
FailDangling ==
    /\ phase = "build" /\ Dangling(src)
    /\ Stop("error")
    /\ act' = [a |-> "fail", why |-> "dangling"]
    /\ UNCHANGED <<src, ver, pub, graph, marker, base, nbuild, cfg, gcfg, bcfg>>

FailCycle ==
    /\ phase = "build" /\ running = {} /\ todo # {} /\ \A f \in todo : ~Ready(f)
    /\ Stop("error")
    /\ act' = [a |-> "fail", why |-> "cycle"]
    /\ UNCHANGED <<src, ver, pub, graph, marker, base, nbuild, cfg, gcfg, bcfg>>

\* killed: what running workers were writing may be lost or garbage
Garbage == {<<"garbage", 0>>}
Crash(torn) ==
    /\ phase = "build"
    /\ torn \subseteq UNION {Outs(src, f) \ avail : f \in running}
    /\ pub' = [o \in Out |-> IF o \in torn THEN Garbage ELSE pub[o]]
    /\ Stop("crash")
    /\ act' = [a |-> "crash", done |-> done]
    /\ UNCHANGED <<src, ver, graph, marker, base, nbuild, cfg, gcfg, bcfg>>

Editing ==
    \/ \E p \in Page : \E ds \in SUBSET File : \E sh \in SUBSET Leaf : EditPage(p, ds, sh)
    \/ \E l \in Leaf : EditLeaf(l)
    \/ \E f \in File : Delete(f)
    \/ Configure
Building ==
    \/ \E f \in File : Submit(f) \/ Complete(f)
    \/ Finish \/ FailDangling \/ FailCycle
Killing ==
    \/ \E some \in SUBSET Out : CrashCleaning(some)
    \/ \E torn \in SUBSET Out : Crash(torn)

Next == Editing \/ Begin \/ Building \/ Killing
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Building)

-----------------------------------------------------------------------------
(* Properties *)

\* B01, B02, B04: after success exactly the right things are published
Correct == (phase = "idle" /\ result = "ok") => pub = Published(base, bcfg)

\* B03
OrderOk == \A f \in running : Deps(src, f) \cap (todo \cup running) = {}
NoConflict == \A f, g \in running : f # g => Outs(src, f) \cap Outs(src, g) \subseteq avail
\* files are only built when they or something they depend on changed
Needed == phase = "build" =>
    \A f \in todo \cup running \cup done : f \in Up(graph, Changed(graph), Changed(graph))

\* B05: an output changes only if something it is computed from changed
Untouched ==
    [][\A o \in Out :
         (pub'[o] # pub[o] /\ ~Scratch /\ ~Dangling(src) /\ ~Cyclic(src))
         => Producers(graph, o) \cap Affected(graph) # {} \/ Producers(graph, o) = {}]_vars

\* B06
Truthful == (phase = "idle" /\ result = "ok") =>
    \A f \in File :
        /\ Known(graph, f) <=> Exists(base, f)
        /\ Exists(base, f) =>
             /\ graph[f].v = base[f].v
             /\ graph[f].deps = Deps(base, f)
             /\ graph[f].outs = Outs(base, f)
             /\ \A o \in graph[f].outs : pub[o] # Absent

\* B07, B08
SuccessMeansValid == (phase = "idle" /\ result = "ok") => Valid(base)
FailureMeansInvalid == [][result' = "error" /\ result # "error" => ~Valid(src)]_vars
NeverStuck == phase = "build" =>
    \/ \E f \in File : Ready(f) \/ f \in running
    \/ todo = {} /\ (running = {})
    \/ \A f \in todo : ~Ready(f)
Terminates == (phase = "build") ~> (phase = "idle")
\* B08: whatever is left behind, either it is marked or it is what the records say
MarkerHonest == (phase = "idle" /\ ~marker) => pub = Published(base, bcfg) /\ gcfg = bcfg
\* B09: no build mixes what was produced with different settings
OneSetting == \A o, q \in Out : \A x \in pub[o] : \A y \in pub[q] :
    (x[1] = "cfg" /\ y[1] = "cfg") => x[2] = y[2]

\* states that differ in how they were reached only
View == <<src, ver, pub, graph, marker, phase, todo, running, done, avail, base, result, nbuild,
          cfg, gcfg, bcfg>>
=============================================================================
