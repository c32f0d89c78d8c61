------------------------------ MODULE GraphEq ------------------------------
(* Recorded equality comparisons: two graphs compare equal exactly when they  *)
(* are the same graph.                                                        *)
EXTENDS Graph, Json
Pairs == ndJsonDeserialize("pairs.ndjson")
VARIABLES l, why
GraphOf(s) == [n \in {s[i].n : i \in 1..Len(s)} |->
                 LET i == CHOOSE j \in 1..Len(s) : s[j].n = n
                 IN [sig |-> s[i].sig, ch |-> Range(s[i].ch)]]
Init == l = 1 /\ why = "ok"
Next == /\ l <= Len(Pairs) /\ why = "ok"
        /\ LET P == Pairs[l]
               want == IF Same(GraphOf(P.a), GraphOf(P.b)) THEN "T" ELSE "F"
           IN why' = IF Range(P.same) = {want} THEN "ok" ELSE "equality"
        /\ l' = l + 1
Good == why = "ok"
=============================================================================
