------------------------------ MODULE External ------------------------------
(* Files that are declared with a digest and downloaded by builds.             *)
(* Contents are small numbers; 0 means that there is no file.  A server gives   *)
(* some content for a path or none.                                            *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Path, Content       \* Content: a set of numbers > 0

VARIABLES
    decl,     \* Path -> Content \cup {0}: declared digest
    file,     \* Path -> Content \cup {0}
    server,   \* Path -> Content \cup {0}: 0 = not available
    known,    \* paths the tool manages, to be removed once they are not declared
    result    \* of the last build

vars == <<decl, file, server, known, result>>

Init ==
    /\ decl = [p \in Path |-> 0] /\ file = [p \in Path |-> 0]
    /\ server \in [Path -> {0}] /\ known = {} /\ result = "none"

Declare(p, c) == decl' = [decl EXCEPT ![p] = c] /\ UNCHANGED <<file, server, known, result>>
\* writing, deleting, or touching a file
Local(p, c) == file' = [file EXCEPT ![p] = c] /\ UNCHANGED <<decl, server, known, result>>
Serve(p, c) == server' = [server EXCEPT ![p] = c] /\ UNCHANGED <<decl, file, known, result>>

Declared == {p \in Path : decl[p] # 0}
Wrong == {p \in Declared : file[p] # decl[p]}
Bad == {p \in Wrong : server[p] # decl[p]}
Gone == {p \in known : p \notin Declared}

Removed(f, ps) == [p \in Path |-> IF p \in ps THEN 0 ELSE f[p]]
Installed(f, ps) == [p \in Path |-> IF p \in ps THEN decl[p] ELSE f[p]]

BuildOk ==
    /\ Bad = {}
    /\ file' = Installed(Removed(file, Gone), Wrong)
    /\ known' = Declared
    /\ result' = "ok"
    /\ UNCHANGED <<decl, server>>

\* What else is done in a build that fails is up to the implementation, but what was
\* done is known afterwards.
BuildFails ==
    /\ Bad # {}
    /\ \E rm \in SUBSET Gone, inst \in SUBSET (Wrong \ Bad) :
         /\ file' = Installed(Removed(file, rm), inst)
         /\ \E ok \in SUBSET (Declared \ Bad) :
              /\ inst \subseteq ok
              /\ known' = (known \ rm) \cup ok
    /\ result' = "failed"
    /\ UNCHANGED <<decl, server>>

Next ==
    \/ \E p \in Path, c \in Content \cup {0} : Declare(p, c) \/ Local(p, c) \/ Serve(p, c)
    \/ BuildOk \/ BuildFails
Spec == Init /\ [][Next]_vars

\* E01
Correct == [][result' = "ok" /\ (BuildOk \/ BuildFails) =>
                \A p \in Path : decl[p] # 0 => file'[p] = decl[p]]_vars
NotReplaced == [][(BuildOk \/ BuildFails) =>
                \A p \in Path : decl[p] # 0 /\ file'[p] # file[p] => file'[p] = decl[p]]_vars
\* E02
Forgotten == [][BuildOk => \A p \in known : decl[p] = 0 => file'[p] = 0 /\ p \notin known']_vars
OnlyManaged == [][(BuildOk \/ BuildFails) => \A p \in Path : decl[p] = 0 /\ p \notin known => file'[p] = file[p]]_vars
=============================================================================
