------------------------------ MODULE GraphMC ------------------------------
(* Exhaustive exploration of the graph operations over a few names, and the   *)
(* list of all (graph, operation) pairs replayed into the implementation.     *)
EXTENDS Graph, Json, SequencesExt

CONSTANTS Name, MaxCh, CaseName

VARIABLE g

ArgSeqs(N, k) == UNION {[1..i -> N] : i \in 0..k}

Ops(N, k) ==
    [op : {"add"}, a : N, sig : {1}, ch : ArgSeqs(N, k)]
    \cup [op : {"remove"}, a : N, cp : BOOLEAN, cc : BOOLEAN]
    \cup [op : {"set"}, a : N, ch : ArgSeqs(N, k), prevent : BOOLEAN]

Init == g = Empty
Next == \E op \in Ops(Name, MaxCh) : g' = Apply(g, op).g
Spec == Init /\ [][Next]_g

\* --- design properties -----------------------------------------------------
Closed == \A a \in Nodes(g) : g[a].ch \subseteq Nodes(g)

\* "preventing cycles" really prevents them: an accepted guarded change and an
\* accepted addition never turn an acyclic graph cyclic
NoNewCycle ==
    [][\A op \in Ops(Name, MaxCh) :
          (/\ ~HasCycle(g)
           /\ op.op \in {"add", "remove"} \/ (op.op = "set" /\ op.prevent))
          => ~HasCycle(Apply(g, op).g)]_g

RejectKeeps ==
    \A op \in Ops(Name, MaxCh) : Apply(g, op).res = "ValueError" => Apply(g, op).g = g

Duality ==
    \A a, b \in Nodes(g) : a # b =>
        /\ (Direct(g, a, b) = "parent") = (Direct(g, b, a) = "child")
        /\ (Nested(g, a, b) = "parent") = (Nested(g, b, a) = "child")
        /\ (Nested(g, a, b) = "cyclic") = (Nested(g, b, a) = "cyclic")
        /\ Direct(g, a, b) \in {"parent", "cyclic"} => Nested(g, a, b) \in {"parent", "cyclic"}

\* --- enumeration of test cases ----------------------------------------------
Graphs(N) == UNION {[M -> [sig : {1}, ch : SUBSET M]] : M \in SUBSET N}
Cases ==
    {[pre |-> h, op |-> op, res |-> Apply(h, op).res, post |-> Apply(h, op).g] :
        h \in Graphs(CaseName), op \in Ops(CaseName, MaxCh)}
WriteCases == ndJsonSerialize("cases.ndjson", SetToSeq(Cases))

\* --- queries on every graph -------------------------------------------------
QueryCases(N) ==
    {[pre |-> h, direct |-> [a \in N |-> [b \in N |-> Direct(h, a, b)]],
                 nested |-> [a \in N |-> [b \in N |-> Nested(h, a, b)]]] :
        h \in Graphs(N)}
WriteQueries == ndJsonSerialize("queries.ndjson", SetToSeq(QueryCases(Name)))
=============================================================================
