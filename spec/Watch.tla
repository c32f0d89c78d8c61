------------------------------- MODULE Watch -------------------------------
(* The development watcher: file system notifications arrive late and in      *)
(* order, are collected, and once it has been quiet for the debounce interval  *)
(* a rebuild consumes them; meanwhile the sources keep changing.               *)
(*                                                                            *)
(* Pages refer to files; sources are valid iff nothing existing refers to      *)
(* something that does not exist.  `known` is what the published site was      *)
(* computed from.  Files in Inside are in a folder that can be dropped at      *)
(* once, in which case there need not be notifications for the files.          *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Page, Leaf, Inside, MaxOps, Debounce

File == Page \cup Leaf
None == [v |-> 0, refs |-> {}]

VARIABLES
    cur,        \* the sources: File -> [v, refs], v = 0 if it does not exist
    known,      \* what the published site was computed from
    queue,      \* notifications not yet delivered
    pend,       \* files with notifications that were not consumed
    pendDir,    \* the folder was reported deleted
    unb,        \* the last rebuild failed and nothing was reported since
    quiet,      \* time since the last notification, up to Debounce
    phase,      \* "idle" | "rebuild"
    taken, takenPend, takenDir,  \* what the rebuild consumes
    start,      \* sources when the rebuild started
    since,      \* something was reported since the rebuild started
    dirty,      \* the last rebuild failed: everything is rebuilt
    nops

vars == <<cur, known, queue, pend, pendDir, unb, quiet, phase, taken, takenPend, takenDir,
          start, since, dirty, nops>>

Exists(s, f) == s[f].v > 0
Valid(s) == \A f \in File : Exists(s, f) => \A g \in s[f].refs : Exists(s, g)

Init ==
    /\ cur = [f \in File |-> None] /\ known = cur /\ start = cur
    /\ queue = <<>> /\ pend = {} /\ pendDir = FALSE /\ unb = FALSE /\ quiet = 0
    /\ phase = "idle" /\ taken = {} /\ takenPend = {} /\ takenDir = FALSE
    /\ since = FALSE /\ dirty = FALSE /\ nops = 0

-----------------------------------------------------------------------------
(* Edits; what is reported for them *)

WatcherUnchanged == UNCHANGED <<known, pend, pendDir, unb, quiet, phase, taken, takenPend,
                                takenDir, start, since, dirty>>

Edit(new, events) ==
    /\ nops < MaxOps
    /\ nops' = nops + 1
    /\ cur' = new
    /\ queue' = queue \o events
    /\ WatcherUnchanged

Ev(k, f) == [k |-> k, f |-> f, g |-> f]

Write(f, refs) ==
    LET c == [v |-> nops + 1, refs |-> refs] IN
    Edit([cur EXCEPT ![f] = c],
         IF Exists(cur, f) THEN <<Ev("modified", f)>> ELSE <<Ev("created", f), Ev("modified", f)>>)

\* written elsewhere and moved there
Replace(f, refs) ==
    Edit([cur EXCEPT ![f] = [v |-> nops + 1, refs |-> refs]], <<[k |-> "movedin", f |-> f, g |-> f]>>)

Delete(f) == Exists(cur, f) /\ Edit([cur EXCEPT ![f] = None], <<Ev("deleted", f)>>)

\* same kind of files only
Move(f, g) ==
    /\ f # g /\ Exists(cur, f) /\ (f \in Page <=> g \in Page)
    /\ Edit([cur EXCEPT ![f] = None, ![g] = cur[f]],
            <<[k |-> "moved", f |-> f, g |-> g]>>)

\* a notification without a change
Touch(f) == Exists(cur, f) /\ Edit(cur, <<Ev("modified", f)>>)

DropFolder(reported) ==
    /\ \E f \in Inside : Exists(cur, f)
    /\ Edit([f \in File |-> IF f \in Inside THEN None ELSE cur[f]],
            reported \o <<[k |-> "dirdeleted", f |-> "none", g |-> "none"]>>)

-----------------------------------------------------------------------------
(* The watcher *)

Deliver ==
    /\ queue # <<>>
    /\ LET e == Head(queue) IN
       /\ pend' = IF e.k = "dirdeleted" THEN pend ELSE pend \cup {e.f, e.g}
       /\ pendDir' = (pendDir \/ e.k = "dirdeleted")
    /\ queue' = Tail(queue)
    /\ unb' = FALSE /\ quiet' = 0
    /\ since' = TRUE
    /\ UNCHANGED <<cur, known, phase, taken, takenPend, takenDir, start, dirty, nops>>

Tick ==
    /\ quiet < Debounce
    /\ quiet' = quiet + 1
    /\ UNCHANGED <<cur, known, queue, pend, pendDir, unb, phase, taken, takenPend, takenDir,
                   start, since, dirty, nops>>

CanStart == phase = "idle" /\ (pend # {} \/ pendDir) /\ quiet = Debounce /\ ~unb

RebuildStart ==
    /\ CanStart
    /\ phase' = "rebuild"
    /\ takenPend' = pend /\ takenDir' = pendDir
    /\ taken' = IF dirty THEN File
                ELSE pend \cup (IF pendDir THEN {f \in Inside : Exists(known, f)} ELSE {})
    /\ start' = cur
    /\ since' = FALSE
    /\ pend' = {} /\ pendDir' = FALSE
    /\ UNCHANGED <<cur, known, queue, unb, quiet, dirty, nops>>

\* Files which were touched are read at some point during the rebuild; others are
\* read as well if they depend on those.
Views == {[f \in File |-> IF x[f] = 1 /\ f \notin taken THEN known[f]
                         ELSE IF x[f] = 3 THEN cur[f] ELSE start[f]] : x \in [File -> 1..3]}
Racing == \E f \in File : start[f] # cur[f] \/ (f \notin taken /\ known[f] # cur[f])

RebuildOk ==
    /\ phase = "rebuild"
    /\ \E w \in Views : Valid(w) /\ known' = w
    /\ phase' = "idle" /\ dirty' = FALSE
    /\ taken' = {} /\ takenPend' = {} /\ takenDir' = FALSE /\ start' = [f \in File |-> None]
    /\ UNCHANGED <<cur, queue, pend, pendDir, unb, quiet, since, nops>>

RebuildFailed ==
    /\ phase = "rebuild"
    /\ Racing \/ \E w \in Views : ~Valid(w)
    /\ phase' = "idle" /\ dirty' = TRUE
    /\ unb' = ~since
    /\ pend' = pend \cup takenPend /\ pendDir' = (pendDir \/ takenDir)
    /\ taken' = {} /\ takenPend' = {} /\ takenDir' = FALSE /\ start' = [f \in File |-> None]
    /\ UNCHANGED <<cur, known, queue, quiet, since, nops>>

Edits ==
    \/ \E p \in Page, refs \in SUBSET Leaf : Write(p, refs)
    \/ \E f \in Leaf : Write(f, {})
    \/ \E f \in File : Replace(f, cur[f].refs) \/ Delete(f) \/ Touch(f)
    \/ \E f, g \in File : Move(f, g)
    \/ DropFolder(<<>>)
Watcher == Deliver \/ Tick \/ RebuildStart \/ RebuildOk \/ RebuildFailed

Next == Edits \/ Watcher
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Deliver) /\ WF_vars(Tick) /\ WF_vars(RebuildStart)
                 /\ WF_vars(RebuildOk \/ RebuildFailed) /\ SF_vars(RebuildOk)

-----------------------------------------------------------------------------
(* Properties *)

Idle == queue = <<>> /\ phase = "idle"
\* D01: nothing is ever lost
Converged == (Idle /\ pend = {} /\ ~pendDir) => known = cur
NotGivenUp == (Idle /\ Valid(cur) /\ known # cur) => (~unb /\ (pend # {} \/ pendDir))
Eventually == <>[](Valid(cur) => known = cur)

\* D02
Debounced == [][phase' = "rebuild" /\ phase = "idle" => quiet = Debounce]_vars
NoSpin == [][phase' = "rebuild" /\ phase = "idle" => ~unb]_vars
Consumes == [][phase = "rebuild" /\ phase' = "idle" /\ ~dirty' => pend' = pend /\ pendDir' = pendDir]_vars
=============================================================================
