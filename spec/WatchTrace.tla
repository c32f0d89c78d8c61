----------------------------- MODULE WatchTrace -----------------------------
(* Validates recorded schedules of the real watcher: whether a check may or    *)
(* must start a rebuild, and what is published when everything is quiet.        *)
EXTENDS Watch, Json, SequencesExt

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l
tvars == <<vars, l>>
R == Trace[l]

State(r) == [f \in File |-> [v |-> r[f].v, refs |-> Range(r[f].refs)]]

TReset ==
    /\ R.t = "reset"
    /\ cur' = [f \in File |-> None] /\ known' = cur' /\ start' = cur'
    /\ queue' = <<>> /\ pend' = {} /\ pendDir' = FALSE /\ unb' = FALSE /\ quiet' = 0
    /\ phase' = "idle" /\ taken' = {} /\ takenPend' = {} /\ takenDir' = FALSE
    /\ since' = FALSE /\ dirty' = FALSE /\ nops' = 0

TOp ==
    /\ R.t = "op"
    /\ cur' = State(R.cur)
    /\ queue' = queue \o R.events
    /\ nops' = 0
    /\ WatcherUnchanged

TDeliver == R.t = "deliver" /\ Deliver /\ ~R.raised
TTick == R.t = "tick" /\ (Tick \/ (quiet = Debounce /\ UNCHANGED vars))
TCheck ==
    /\ R.t = "check" /\ ~R.raised
    /\ \/ RebuildStart
       \/ ~CanStart /\ ~R.started /\ UNCHANGED vars
TChecked ==
    /\ R.t = "checked"
    /\ \/ RebuildOk \/ RebuildFailed
       \/ phase = "idle" /\ UNCHANGED vars
\* everything was delivered, time passed, and checks were made
TSync ==
    /\ R.t = "sync"
    /\ Idle
    /\ R.valid = Valid(cur)
    /\ Valid(cur) => (known = cur /\ R.same)
    /\ UNCHANGED vars

TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TOp \/ TDeliver \/ TTick \/ TCheck \/ TChecked \/ TSync)
TSpec == TInit /\ [][TNext]_tvars
AllRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
