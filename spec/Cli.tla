-------------------------------- MODULE Cli --------------------------------
(* What the commands do, as seen by someone who types them: the words of a     *)
(* command line, the project it is about, how it ends, and what is then        *)
(* different. There are several folders; commands are typed in folder A.       *)
(* A word is <<text>>, or <<option, value>> when written as option=value.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Folder, Hosts, Addresses, Ports
Commands == {"init", "build", "clean", "run", "dev"}
Flags(c) == {"--help"} \cup
    CASE c = "build" -> {"--dev", "--symlinks", "--no-symlinks"}
      [] c = "clean" -> {"--placeholders", "--no-placeholders"}
      [] c = "dev" -> {"--watch"}
      [] OTHER -> {}
Valued(c) == {"--folder"} \cup
    CASE c = "init" -> {"--host"} [] c = "run" -> {"--host", "--port"}
      [] c = "dev" -> {"--host", "--port", "--debounce"} [] OTHER -> {}
Several(c) == IF c = "build" THEN {"--delay-files"} ELSE {}
Options == UNION {Flags(c) \cup Valued(c) \cup Several(c) : c \in Commands}
Numbers == Ports \cup {"20", "100", "4000"}
Numeric == {"--port", "--debounce"}
IsOption(w) == Len(w) = 2 \/ w[1] \in Options \cup {"--bogus"}

Defaults(c) ==
    [c |-> c, flags |-> {}, val |-> [o \in {"--folder", "--host", "--port", "--debounce"} |->
        CASE o = "--folder" -> "A" [] o = "--host" -> IF c = "init" THEN "none" ELSE "localhost"
          [] o = "--port" -> "8888" [] OTHER -> "100"]]
Usage == [c |-> "usage"]
Valid(o, v) == o \in Numeric => v \in Numbers
RECURSIVE Options_(_, _, _)
Options_(ws, i, p) ==
    IF i > Len(ws) THEN p
    ELSE LET w == ws[i] IN
      IF Len(w) = 2 THEN
          IF w[1] \in Valued(p.c) THEN (IF Valid(w[1], w[2]) THEN Options_(ws, i + 1, [p EXCEPT !.val[w[1]] = w[2]]) ELSE Usage)
          ELSE IF w[1] \in Several(p.c) THEN Options_(ws, i + 1, p) ELSE Usage
      ELSE IF w[1] = "--help" THEN [c |-> "help"]
      ELSE IF w[1] \in Flags(p.c) THEN Options_(ws, i + 1, [p EXCEPT !.flags = @ \cup {w[1]}])
      ELSE IF i < Len(ws) /\ ~IsOption(ws[i + 1]) /\ w[1] \in Valued(p.c) THEN
          IF Valid(w[1], ws[i + 1][1]) THEN Options_(ws, i + 2, [p EXCEPT !.val[w[1]] = ws[i + 1][1]]) ELSE Usage
      ELSE IF i < Len(ws) /\ ~IsOption(ws[i + 1]) /\ w[1] \in Several(p.c) THEN
          LET n == CHOOSE n \in i + 1..Len(ws) : (n = Len(ws) \/ IsOption(ws[n + 1])) /\ \A k \in i + 1..n : ~IsOption(ws[k])
          IN  Options_(ws, n + 1, p)
      ELSE Usage
Parse(ws) ==
    IF ws = <<>> THEN Usage
    ELSE IF ws[1] = <<"--help">> THEN [c |-> "help"]
    ELSE IF ws[1][1] \in Commands /\ Len(ws[1]) = 1 THEN Options_(ws, 2, Defaults(ws[1][1])) ELSE Usage

VARIABLES
    f      \* Folder -> [cfg: "none" or the configured host ("null": none given), site: are there sources?,
           \*            gen: "none", "gen" (a generated placeholder), "edited" (changed since),
           \*            "kept" (as generated, but its origin was forgotten by cleaning),
           \*            out: is it built?, k: "none" or the mode of the published constants, link: "none", "link", "copy"]
None == [cfg |-> "none", site |-> FALSE, gen |-> "none", out |-> FALSE, k |-> "none", link |-> "none"]

\* ---- the answer to a prompt: the first line that is one
Answers == [y |-> TRUE, Y |-> TRUE, n |-> FALSE, N |-> FALSE]
RECURSIVE Answer(_)
Answer(ls) == IF ls = <<>> THEN "eof" ELSE IF ls[1] \in DOMAIN Answers THEN ls[1] ELSE Answer(Tail(ls))
Prompts(x, p) == x.gen = "gen" /\ p.flags \cap {"--placeholders", "--no-placeholders"} = {}
RemovesGenerated(x, p, in) == "--placeholders" \in p.flags
    \/ (Prompts(x, p) /\ Answer(in) # "eof" /\ Answers[Answer(in)])

\* ---- effects: on the project in question, and what is served
\* a file that is published already stays as it is
Built(x, dev, links) ==
    {[x EXCEPT !.out = TRUE, !.k = IF x.site THEN (IF dev THEN "dev" ELSE "prod") ELSE "none",
               !.gen = IF x.site /\ @ = "none" THEN "gen" ELSE @, !.link = l] :
        l \in IF ~x.site THEN {"none"} ELSE ({x.link} \cup links) \ {"none"}}
Links(p) == IF "--symlinks" \in p.flags THEN {"link"} ELSE IF "--no-symlinks" \in p.flags THEN {"copy"} ELSE {"link", "copy"}
Initialised(x, host) == IF x.cfg = "none" THEN [x EXCEPT !.cfg = IF host = "none" THEN "null" ELSE host] ELSE x
Cleaned(x, all) ==
    {[x EXCEPT !.out = FALSE, !.k = "none", !.link = "none", !.gen = g] :
        g \in CASE x.gen = "gen" -> {IF all THEN "none" ELSE "kept"}
               [] x.gen = "kept" /\ all -> {"none", "kept"}
               [] OTHER -> {x.gen}}
\* serving: the addresses that answer, the port, the mode of the constants, and a
\* source that is edited meanwhile: "old", "new" or, for a while at least, "old" and then "new"
NotServing == [at |-> {}, port |-> "none", k |-> "none", late |-> "none"]
Listening(p) == IF p.val["--host"] = "localhost" THEN {"127.0.0.1"} ELSE {p.val["--host"]}
Lates(p, edit) ==
    IF ~edit THEN {"none"} ELSE IF p.c # "dev" \/ "--watch" \notin p.flags THEN {"old"}
    ELSE IF p.val["--debounce"] = "4000" THEN {"old-new"} ELSE {"new", "old-new"}
Served(p, x, late) == [at |-> Listening(p), port |-> p.val["--port"], k |-> x.k, late |-> late]
\* o: [argv: words, in: lines typed, edit: is a source edited while the server runs?]
Outcomes(o) ==
    LET p == Parse(o.argv)
        Same(end) == {[end |-> end, f |-> f, s |-> NotServing]} IN
    IF p.c = "usage" THEN Same("error")
    ELSE IF p.c = "help" THEN Same("ok")
    ELSE LET d == p.val["--folder"]
             x == f[d]
             To(ys) == {[end |-> "ok", f |-> [f EXCEPT ![d] = y], s |-> NotServing] : y \in ys} IN
      CASE p.c = "init" -> To({Initialised(x, p.val["--host"])})
        [] x.cfg = "none" -> Same("error")
        [] p.c = "build" -> To(Built(x, "--dev" \in p.flags, Links(p)))
        [] p.c = "clean" -> IF Prompts(x, p) /\ Answer(o.in) = "eof" THEN Same("error")
                            ELSE To(Cleaned(x, RemovesGenerated(x, p, o.in)))
        [] p.c = "run" -> IF x.out THEN {[end |-> "ok", f |-> f, s |-> Served(p, x, e)] : e \in Lates(p, o.edit)} ELSE Same("error")
        [] p.c = "dev" -> {[end |-> "ok", f |-> [f EXCEPT ![d] = y], s |-> Served(p, y, e)] :
                               y \in Built(x, TRUE, {"link", "copy"}), e \in Lates(p, o.edit)}

\* the user's own steps: [user: "write" or "touch", d]
CanDo(u) == IF u.user = "write" THEN f[u.d].cfg # "none" /\ ~f[u.d].site ELSE f[u.d].gen \in {"gen", "kept"}
Done(u) == IF u.user = "write" THEN [f EXCEPT ![u.d].site = TRUE] ELSE [f EXCEPT ![u.d].gen = "edited"]
=============================================================================
