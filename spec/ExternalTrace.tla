--------------------------- MODULE ExternalTrace ---------------------------
(* Validates recorded builds with external files.                              *)
EXTENDS External, Json, SequencesExt
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
R == Trace[l]
M(r) == [p \in Path |-> r[p]]
TReset == R.t = "reset" /\ decl' = [p \in Path |-> 0] /\ file' = [p \in Path |-> 0]
          /\ server' = [p \in Path |-> 0] /\ known' = {} /\ result' = "none"
TEdit == R.t = "edit" /\ decl' = M(R.decl) /\ file' = M(R.file) /\ server' = M(R.server)
         /\ UNCHANGED <<known, result>>
TBuild ==
    /\ R.t = "build"
    /\ BuildOk \/ BuildFails
    /\ result' = R.result
    /\ file' = M(R.file)
    \* asked for exactly what is wrong, and nothing else was touched
    /\ Range(R.asked) \subseteq Wrong
    /\ R.result = "ok" => Range(R.asked) = Wrong
    /\ \A p \in Path : file'[p] = file[p] => p \notin Range(R.touched)
    /\ ~R.temp /\ R.rest
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TEdit \/ TBuild)
TSpec == TInit /\ [][TNext]_<<vars, l>>
AllRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
