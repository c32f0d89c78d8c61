------------------------------- MODULE Graph -------------------------------
(* The file dependency graph: files with a signature and directed edges       *)
(* ("a depends on b": b is a child of a, a is a parent of b).                 *)
(* A graph is a function from its files to [sig, ch]; ch is the set of        *)
(* children.  Parents are never stored: they are defined from the children,   *)
(* so any implementation that stores both must keep them symmetric.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Empty == [x \in {} |-> [sig |-> 0, ch |-> {}]]

Nodes(g) == DOMAIN g
Children(g, a) == g[a].ch
Parents(g, a) == {x \in DOMAIN g : a \in g[x].ch}

\* files reachable from a by at least one edge
RECURSIVE Closure(_, _)
Closure(g, S) ==
    LET T == S \cup UNION {g[x].ch : x \in S}
    IN IF T = S THEN S ELSE Closure(g, T)
Reach(g, a) == Closure(g, g[a].ch)

Direct(g, a, b) ==
    IF a = b \/ a \notin Nodes(g) \/ b \notin Nodes(g) THEN "ValueError"
    ELSE CASE b \in g[a].ch /\ a \in g[b].ch -> "cyclic"
           [] a \in g[b].ch -> "child"
           [] b \in g[a].ch -> "parent"
           [] OTHER -> "unrelated"

Nested(g, a, b) ==
    IF a = b \/ a \notin Nodes(g) \/ b \notin Nodes(g) THEN "ValueError"
    ELSE CASE b \in Reach(g, a) /\ a \in Reach(g, b) -> "cyclic"
           [] a \in Reach(g, b) -> "child"
           [] b \in Reach(g, a) -> "parent"
           [] OTHER -> "unrelated"

HasCycle(g) == \E a \in Nodes(g) : a \in Reach(g, a)

----------------------------------------------------------------------------
(* Operations: each returns [res |-> "ok" or "ValueError", g |-> new graph]   *)
Reject(g) == [res |-> "ValueError", g |-> g]
Accept(g) == [res |-> "ok", g |-> g]

AddFile(g, a, sig, ch) ==
    IF a \in Nodes(g) \/ ~(Range(ch) \subseteq Nodes(g)) THEN Reject(g)
    ELSE Accept([x \in Nodes(g) \cup {a} |->
                    IF x = a THEN [sig |-> sig, ch |-> Range(ch)] ELSE g[x]])

RemoveFile(g, a, clearParents, clearChildren) ==
    IF \/ a \notin Nodes(g)
       \/ Parents(g, a) # {} /\ ~clearParents
       \/ Children(g, a) # {} /\ ~clearChildren
    THEN Reject(g)
    ELSE Accept([x \in Nodes(g) \ {a} |-> [g[x] EXCEPT !.ch = @ \ {a}]])

SetChildren(g, a, ch, preventCycles) ==
    IF \/ a \notin Nodes(g)
       \/ ~(Range(ch) \subseteq Nodes(g))
       \/ preventCycles /\ \E c \in Range(ch) : c = a \/ a \in Reach(g, c)
    THEN Reject(g)
    ELSE Accept([g EXCEPT ![a].ch = Range(ch)])

Apply(g, op) ==
    CASE op.op = "add" -> AddFile(g, op.a, op.sig, op.ch)
      [] op.op = "remove" -> RemoveFile(g, op.a, op.cp, op.cc)
      [] op.op = "set" -> SetChildren(g, op.a, op.ch, op.prevent)
      [] op.op = "reload" -> Accept(g)

(* Two graphs are the same iff their files, signatures and edges are.         *)
Same(g, h) == g = h
=============================================================================
