------------------------------- MODULE Serve -------------------------------
(* The web server over the published folder. Paths are sequences of names;     *)
(* tree maps the published files to their contents (numbers; 0: no such file).  *)
(* A request names segments (among them "", "." and "..") and whether the path   *)
(* ends with a slash; a client may revalidate what it got before.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Path, Content,
          Root            \* the names of the folders around the published folder, innermost last
VARIABLES tree, cache     \* cache: what the client has of each path, 0: nothing
vars == <<tree, cache>>

Files == {p \in Path : tree[p] # 0}
IsDir(p) == p = <<>> \/ \E q \in Files : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
IsFile(p) == p \in Files

\* segments to a location relative to the published folder: up levels above it, then down
RECURSIVE Resolve(_, _, _)
Resolve(segs, up, down) ==
    IF segs = <<>> THEN [up |-> up, down |-> down]
    ELSE LET s == Head(segs) IN
         IF s \in {"", "."} THEN Resolve(Tail(segs), up, down)
         ELSE IF s # ".." THEN Resolve(Tail(segs), up, Append(down, s))
         ELSE IF down = <<>> THEN Resolve(Tail(segs), up + 1, <<>>)
         ELSE Resolve(Tail(segs), up, SubSeq(down, 1, Len(down) - 1))

\* Leaving the folder and entering it again by name
Reenters(r) == r.up > 0 /\ r.up <= Len(Root) /\ Len(r.down) >= r.up
               /\ SubSeq(r.down, 1, r.up) = SubSeq(Root, Len(Root) - r.up + 1, Len(Root))

Index(p) == Append(p, "index.html")
NotFound == [k |-> "missing", p |-> <<"404.html">>]
\* the answers that are right: a file (k "file"), a redirect to the same path with a slash
\* at the end, or nothing (where the page 404.html may be shown)
Inside(p, slash) ==
    IF IsFile(p) THEN {[k |-> "file", p |-> p]} \cup (IF slash THEN {NotFound} ELSE {})
    ELSE IF ~IsDir(p) \/ ~IsFile(Index(p)) THEN {NotFound}
    ELSE IF slash THEN {[k |-> "file", p |-> Index(p)]}
    ELSE {[k |-> "slash", p |-> p]}
Answers(segs, slash) ==
    LET r == Resolve(segs, 0, <<>>)
        s == slash \/ segs = <<>> \/ segs[Len(segs)] = ""
        in == SubSeq(r.down, r.up + 1, Len(r.down))
    IN  IF r.up = 0 THEN Inside(r.down, s)
        ELSE IF Reenters(r) THEN {NotFound} \cup Inside(in, s)
        ELSE {NotFound}

Init == tree = [p \in Path |-> 0] /\ cache = [p \in Path |-> 0]
\* a path cannot be a file and a folder
CanPut(p) == \A q \in Files : ~(Len(q) < Len(p) /\ SubSeq(p, 1, Len(q)) = q) /\ ~(Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p)
Put(p, c) == (c # 0 => CanPut(p)) /\ tree' = [tree EXCEPT ![p] = c] /\ UNCHANGED cache
Get(segs, slash, a) ==
    /\ a \in Answers(segs, slash)
    /\ cache' = IF a.k = "file" THEN [cache EXCEPT ![a.p] = tree[a.p]] ELSE cache
    /\ UNCHANGED tree
Segs == {"", ".", "..", "d", "index.html", "www", "secret"}
Requests == UNION {[1..n -> Segs] : n \in 0..3}
Next ==
    \/ \E p \in Path, c \in Content \cup {0} : Put(p, c)
    \/ \E s \in Requests, b \in BOOLEAN : \E a \in Answers(s, b) : Get(s, b, a)
Spec == Init /\ [][Next]_vars

\* S01
Contained == \A s \in Requests, b \in BOOLEAN : \A a \in Answers(s, b) : a.k = "file" => a.p \in Files
Available == \A p \in Files : Inside(p, FALSE) = {[k |-> "file", p |-> p]}
Answered == \A s \in Requests, b \in BOOLEAN : Answers(s, b) # {}
\* dots, empty segments and detours do not matter
Detours == \A s \in Requests \ {<<>>}, b \in BOOLEAN :
              /\ Answers(<<"">> \o s, b) = Answers(s, b)
              /\ Answers(<<"d", "..">> \o s, b) = Answers(s, b)
Fresh == \A p \in Path : cache[p] \in Content \cup {0}
=============================================================================
