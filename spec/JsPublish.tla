----------------------------- MODULE JsPublish -----------------------------
(* What publishing a script may do to it: static imports and re-exports of     *)
(* local modules get a resolved, versioned specifier, lines marked as type     *)
(* hints become a comment, comments are written as block comments, and nothing *)
(* else changes.                                                               *)
EXTENDS JsLex
Word(k, w) == k.t = "id" /\ k.v = S(w)
Punct(k, p) == k.t = "p" /\ k.v = S(p)
Sig(k) == k.t \notin {"nl", "c"}

---- \* type hints
Marker == S("@@type-hint")
\* line number of each token
LineOf(toks) == FoldLeft(LAMBDA a, k : Append(a, IF a = <<>> THEN <<1, k.t = "nl">>
                                                ELSE <<(IF a[Len(a)][2] THEN 1 ELSE 0) + a[Len(a)][1], k.t = "nl">>),
                         <<>>, toks)
Hinted(toks, lines) == {lines[i][1] : i \in {i \in 1..Len(toks) : toks[i].t = "c" /\ Trim(toks[i].v, WS \cup NL) = Marker}}
\* every marked line replaced by one comment
Unhint(toks) ==
    LET lines == LineOf(toks)
        H == Hinted(toks, lines)
        Start(i) == i = 1 \/ lines[i - 1][1] # lines[i][1]
    IN  IF H = {} THEN toks
        ELSE FoldLeft(LAMBDA a, i :
               IF lines[i][1] \notin H \/ toks[i].t = "nl" THEN Append(a, toks[i])
               ELSE IF Start(i) THEN Append(a, [t |-> "c", v |-> <<>>, x |-> S("hint"), gap |-> FALSE])
               ELSE a,
             <<>>, [i \in 1..Len(toks) |-> i])

\* what a leading slash means may depend on a line which is commented out
SlashAfterHint(it) ==
    \E i \in 1..Len(it) : it[i].x = S("hint") /\
      \E j \in (i + 1)..Len(it) : /\ it[j].t = "re" \/ (it[j].t = "p" /\ it[j].v = S("/"))
                                 /\ \A k \in (i + 1)..(j - 1) : ~Sig(it[k])

---- \* imports: positions (in toks) of the specifiers
Name(k) == k.t \in {"id", "str"}
At(sig, i) == IF i <= Len(sig) THEN sig[i].k ELSE [t |-> "end", v |-> <<>>, x |-> <<>>, gap |-> FALSE]
\* each of these gives the index after what it describes, 0 if it's not there
RECURSIVE Names(_, _)
Names(sig, i) ==   \* after the opening bracket or a comma
    IF Punct(At(sig, i), "}") THEN i + 1
    ELSE IF ~Name(At(sig, i)) THEN 0
    ELSE LET j == IF Word(At(sig, i + 1), "as") /\ Name(At(sig, i + 2)) THEN i + 3 ELSE i + 1
         IN  IF Punct(At(sig, j), "}") THEN j + 1
             ELSE IF Punct(At(sig, j), ",") THEN Names(sig, j + 1) ELSE 0
Namespace(sig, i) ==   \* after the asterisk
    IF Word(At(sig, i), "as") THEN IF Name(At(sig, i + 1)) THEN i + 2 ELSE 0 ELSE 0
From(sig, i) == IF i # 0 /\ Word(At(sig, i), "from") /\ At(sig, i + 1).t = "str" THEN i + 1 ELSE 0
Clause(sig, i) ==
    IF Punct(At(sig, i), "*") THEN Namespace(sig, i + 1)
    ELSE IF Punct(At(sig, i), "{") THEN Names(sig, i + 1) ELSE 0
\* index of the specifier of the import or export at i; 0 if it has none, -1 if it's malformed
Specifier(sig, i) ==
    LET k == At(sig, i + 1) IN
    IF i > 1 /\ Punct(At(sig, i - 1), ".") THEN IF k.t = "str" THEN -1 ELSE 0
    ELSE IF Word(sig[i].k, "import")
    THEN CASE Punct(k, "(") \/ Punct(k, ".") -> 0
           [] k.t = "str" -> i + 1
           [] k.t = "id" -> LET f == IF Punct(At(sig, i + 2), ",") THEN From(sig, Clause(sig, i + 3)) ELSE From(sig, i + 2)
                            IN IF f = 0 THEN -1 ELSE f
           [] OTHER -> LET f == From(sig, Clause(sig, i + 1)) IN IF f = 0 THEN -1 ELSE f
    ELSE IF Word(sig[i].k, "export")
    THEN CASE Punct(k, "*") -> LET f == IF Word(At(sig, i + 2), "from") THEN From(sig, i + 2) ELSE From(sig, Namespace(sig, i + 2))
                               IN IF f = 0 THEN -1 ELSE f
           [] Punct(k, "{") -> LET n == Names(sig, i + 2) IN IF n = 0 THEN -1 ELSE From(sig, n)
           [] OTHER -> 0
    ELSE 0
SigOf(toks) == SelectSeq([i \in 1..Len(toks) |-> [at |-> i, k |-> toks[i]]], LAMBDA e : Sig(e.k))
Specifiers(toks) ==
    LET sig == SigOf(toks)
        r == {Specifier(sig, i) : i \in {i \in 1..Len(sig) : Word(sig[i].k, "import") \/ Word(sig[i].k, "export")}}
    IN  [bad |-> -1 \in r, at |-> {sig[j].at : j \in r \ {0, -1}}]

Local(v) == /\ ~StartsWith(v, S("//"))
            /\ \E p \in {S("/"), S("./"), S("../")} : StartsWith(v, p)
            /\ ~Has(v, C("?")) /\ ~Has(v, C("#"))
\* dir: the segments of the folder of the importing script below the public folder
Resolve(v, dir) ==
    IF v[1] = C("/") THEN v
    ELSE S("/") \o Join(FoldLeft(LAMBDA a, seg : IF seg = S(".") THEN a
                                                 ELSE IF seg = S("..") THEN IF a = <<>> THEN a ELSE Front(a)
                                                 ELSE Append(a, seg),
                                 dir, SplitAt(v, C("/"))), S("/"))

---- \* the relation
Inserted(k) == k.t = "c" /\ StartsWith(k.v, S("PREPROCESSOR: ignore-import"))
\* a comment's text must not end the comment it is written into
Commented(v) == IF ~\E i \in 1..(Len(v) - 1) : v[i] = 42 /\ v[i + 1] = 47 THEN v
                ELSE FoldLeft(LAMBDA a, c : IF c = 47 /\ a # <<>> /\ Last(a) = 42 THEN a \o <<92, 47>> ELSE Append(a, c), <<>>, v)
ToUnits(t) == FoldLeft(LAMBDA a, c : a \o Units(c), <<>>, t)
\* the tokens the published script must have; query[p]: the version parameters of module p
Expected(toks, specs, dir, query) ==
    [i \in 1..Len(toks) |->
        CASE toks[i].t = "c" -> [toks[i] EXCEPT !.v = Commented(@)]
          [] i \in specs /\ Local(toks[i].v) ->
                LET p == Resolve(toks[i].v, dir) IN [toks[i] EXCEPT !.v = ToUnits(p \o query[p])]
          [] OTHER -> toks[i]]
SameToken(a, b) == a.t = b.t /\ ((a.t = "c" /\ a.x = S("hint")) \/ (a.v = b.v /\ a.x = b.x))
PunctAt(s, i) == i >= 1 /\ i <= Len(s) /\ s[i].t = "p"
\* punctuators stay apart or together (gap only matters between two of them)
SameGaps(a, b) == \A i \in 2..Len(a) : PunctAt(a, i) /\ PunctAt(a, i - 1) => a[i].gap = b[i].gap
FirstDiff(a, b) == CHOOSE i \in 1..(Len(a) + 1) :
                     /\ \A j \in 1..(i - 1) : j <= Len(b) /\ SameToken(a[j], b[j])
                     /\ (i <= Len(a) => (i > Len(b) \/ ~SameToken(a[i], b[i])))
=============================================================================
