-------------------------- MODULE ImageTargetsTrace --------------------------
(* Judges recorded requests of real workers. trace.ndjson: a log per line, a    *)
(* sequence of events [e, w, op, t, n, c, made, is]:                            *)
(*   "begin" (w, op, t, n: the number it is going to be given, 0 if it dies),   *)
(*   "end" (w, n; made: whether images were made; is: which <<t, c>> the files   *)
(*   published under the number can be), "die" (w), "change" (c), "forget" (n).     *)
(* A log is accepted if it is a behaviour of ImageTargets, whatever happened     *)
(* in between the events.                                                        *)
EXTENDS ImageTargets, Json, SequencesExt
VARIABLES log, k, want
Logs == ndJsonDeserialize("trace.ndjson")
vars == <<tvars, log, k, want>>
Most == CHOOSE n \in Numbers : \A m \in Numbers : m <= n
Here == Logs[log].events
TInit ==
    /\ log \in 1..Len(Logs) /\ k = 1
    /\ now = Logs[log].now
    /\ slot = [n \in Numbers |-> Free]
    /\ act = [w \in Workers |-> Idle]
    /\ want = [w \in Workers |-> 0]
Event(e) == k <= Len(Here) /\ Here[k].e = e /\ k' = k + 1 /\ log' = log
X == Here[k]
Same == UNCHANGED <<log, k, want>>
TBegin == Event("begin") /\ Begin(X.w, X.op, X.t) /\ want' = [want EXCEPT ![X.w] = X.n]
\* only towards the number the worker was given
Towards(w) == IF want[w] = 0 THEN act'[w].n \in ToSet(Logs[log].ns) \cup {0, Most} ELSE act'[w].n \in {0, want[w]}
TStep(w) == (Look(w) \/ Reserve(w) \/ Make(w)) /\ Towards(w) /\ Same
TEnd ==
    /\ Event("end") /\ End(X.w) /\ act[X.w].n = X.n /\ want' = want
    /\ X.made = (act[X.w].at = "made")
    /\ act[X.w].op = "build" => <<act[X.w].t, now>> \in ToSet(X.is)
TDie == Event("die") /\ Die(X.w) /\ want' = want
TChange == Event("change") /\ Change(X.c) /\ want' = want
TForget == Event("forget") /\ Forget(X.n) /\ want' = want
TNext == TBegin \/ (\E w \in Workers : TStep(w)) \/ TEnd \/ TDie \/ TChange \/ TForget
TSpec == TInit /\ [][TNext]_vars
Report == /\ k > Len(Here) => PrintT(<<"ACCEPTED", log>>)
          /\ (TLCGet(log) < k => TLCSet(log, k))
\* how far the logs are explained
Far == PrintT(<<"FAR", [i \in 1..Len(Logs) |-> TLCGet(i)]>>)
ASSUME \A i \in 1..Len(Logs) : TLCSet(i, 0)
=============================================================================
