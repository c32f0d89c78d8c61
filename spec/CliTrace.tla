------------------------------ MODULE CliTrace ------------------------------
(* Recorded histories of command lines, judged by Cli: lines of a user's step, *)
(* or of what was typed with what followed: end, f (the projects afterwards),   *)
(* s (what was served), users (are the user's files as they were?).            *)
EXTENDS Cli, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, errs
R == Trace[l]
Rec(d) == [cfg |-> d.cfg, site |-> d.site, gen |-> d.gen, out |-> d.out, k |-> d.k, link |-> d.link]
After == [d \in Folder |-> Rec(R.f[d])]
Words == [i \in 1..Len(R.argv) |-> R.argv[i]]
Serve == [at |-> {R.s.at[i] : i \in 1..Len(R.s.at)}, port |-> R.s.port, k |-> R.s.k, late |-> R.s.late]
O == [argv |-> Words, in |-> R.in, edit |-> R.edit]
Out == Outcomes(O)
Deviations ==
    IF ~R.users THEN {"user-files"}
    ELSE IF \E r \in Out : r.end = R.end /\ r.f = After /\ r.s = Serve THEN {}
    ELSE (IF \E r \in Out : r.end = R.end THEN {} ELSE {"end-" \o R.end})
         \cup (IF \E r \in Out : r.f = After THEN {} ELSE {"effect"})
         \cup (IF \E r \in Out : r.s = Serve THEN {} ELSE {"served"})
TInit == l = 1 /\ errs = {} /\ f = [d \in Folder |-> None]
TNext ==
    /\ l <= Len(Trace) /\ errs = {} /\ l' = l + 1
    /\ IF "reset" \in DOMAIN R THEN f' = [d \in Folder |-> None] /\ errs' = {}
       ELSE IF "user" \in DOMAIN R THEN f' = Done(R) /\ errs' = {}
       ELSE f' = After /\ errs' = Deviations
TSpec == TInit /\ [][TNext]_<<l, errs, f>>
Accepted == errs = {}
=============================================================================
