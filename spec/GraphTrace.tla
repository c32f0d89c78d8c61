----------------------------- MODULE GraphTrace -----------------------------
(* Validates a recorded history of calls on one graph object: each line holds *)
(* the call, its outcome and everything observable through the query API.     *)
EXTENDS Graph, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, g, why

Init == l = 1 /\ g = Empty /\ why = "ok"

Rec == Trace[l]
\* bag counts logged from both ends
Seen(tbl, a, b) == tbl[a][b]

Check(h, r) ==
    LET O == r.obs N == Range(O.nodes) IN
    IF N # Nodes(h) THEN "files"
    ELSE IF \E a \in N : O.sig[a] # h[a].sig THEN "signature"
    ELSE IF \E a, b \in N : O.cc[a][b] # O.pc[b][a] THEN "asymmetric"
    ELSE IF \E a, b \in N : (O.cc[a][b] > 0) # (b \in h[a].ch) THEN "edges"
    ELSE IF \E q \in Range(r.q) :
               \/ q.direct # Direct(h, q.a, q.b)
               \/ q.nested # Nested(h, q.a, q.b) THEN "query"
    ELSE IF r.eq # "equal" THEN "roundtrip"
    ELSE "ok"

Step ==
    /\ l <= Len(Trace) /\ why = "ok"
    /\ IF Rec.op.op = "new"
       THEN /\ g' = Empty
            /\ why' = Check(Empty, Rec)
       ELSE LET R == Apply(g, Rec.op) IN
            /\ g' = R.g
            /\ why' = IF R.res # Rec.res THEN "outcome" ELSE Check(R.g, Rec)
    /\ l' = l + 1

Spec == Init /\ [][Step]_<<l, g, why>>
Accepted == why = "ok"
AllRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
