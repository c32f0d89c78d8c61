------------------------------ MODULE Project ------------------------------
(* The life of a project: initialising, editing, building in both modes,       *)
(* builds that fail or are killed, cleaning. Image lists have a script next to  *)
(* them ("holder"), which is the user's, was generated, or was generated and     *)
(* then edited by the user. One source file holds the script constants.         *)
(*                                                                            *)
(* An operation is a record o; o.end is how it ended. What an operation may do  *)
(* to the holders is HolderOk(o, h): the new holders h are a choice of the       *)
(* implementation; everything else is determined.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS List,        \* the image lists
          Version      \* valid contents of image lists; 0: no list, Bad: not satisfiable
Bad == 99
VARIABLES
    cfg,      \* settings: [is: "none", "ok", "old"; gen: generate holders?; k: which constants]
    src,      \* is there a source folder?
    index,    \* the start page: "none", "init", "user"
    list,     \* List -> {0, Bad} \cup Version
    holder,   \* List -> {"none", "gen", "edited", "user"}
    managed,  \* List -> {"yes", "no", "maybe"}: known as generated
    ksrc,     \* is there a constants source file?
    broken,   \* is there a file that cannot be built?
    imports,  \* what the importing script imports: "k" and image lists
    out,      \* "none", "partial", "ok": state of the output folder
    pub,      \* what is published: [k: <<>> or <<mode, constants>>, img: List -> version]
    cleaned,  \* no build since the output was removed?
    last      \* the last operation
state == <<cfg, src, index, list, holder, managed, ksrc, broken, imports, out, pub, cleaned>>
vars == <<state, last>>

Nothing == [k |-> <<>>, img |-> [l \in List |-> 0]]
Empty ==
    /\ cfg = [is |-> "none", gen |-> FALSE, k |-> 0] /\ src = FALSE /\ index = "none"
    /\ list = [l \in List |-> 0] /\ holder = [l \in List |-> "none"]
    /\ managed = [l \in List |-> "no"] /\ ksrc = FALSE /\ broken = FALSE /\ imports = {}
    /\ out = "none" /\ pub = Nothing /\ cleaned = TRUE
    /\ last = [op |-> "none", end |-> "ok"]

Satisfiable(l) == list[l] \in Version
Published(i) == IF i = "k" THEN ksrc ELSE Satisfiable(i)
Dangling == \E i \in imports : ~Published(i)
Buildable == cfg.is = "ok" /\ src

\* ---- what an operation may do to the generated scripts
ToGenerate == {l \in List : Satisfiable(l) /\ cfg.gen /\ holder[l] = "none"}
Generated(g) == [l \in List |-> IF l \in g THEN "gen" ELSE holder[l]]
MustRemove == {l \in List : managed[l] = "yes" /\ holder[l] = "gen"}
MayRemove == {l \in List : holder[l] = "gen"}
Removed(r) == [l \in List |-> IF l \in r THEN "none" ELSE holder[l]]
HolderOk(o, h) ==
    CASE o.op = "build" /\ o.end = "ok" -> h = Generated(ToGenerate)
      [] o.op = "build" /\ o.end \in {"fail", "crash"} -> \E g \in SUBSET ToGenerate : h = Generated(g)
      [] o.op = "clean" /\ o.end = "ok" /\ o.ph ->
            \E r \in SUBSET MayRemove : MustRemove \subseteq r /\ h = Removed(r)
      [] o.op = "holder" -> h = [holder EXCEPT ![o.l] = IF o.w = "write" /\ @ \in {"gen", "edited"} THEN "edited"
                                                        ELSE IF o.w = "write" THEN "user" ELSE "none"]
      [] OTHER -> h = holder

\* ---- how an operation may end
EndOk(o) ==
    CASE o.op = "build" -> IF ~Buildable THEN o.end = "exit"
                           ELSE IF broken THEN o.end \in {"fail", "crash"}
                           ELSE IF Dangling THEN o.end \in {"ok", "fail", "crash"} ELSE o.end \in {"ok", "crash"}
      [] o.op = "clean" -> o.end = IF cfg.is = "none" THEN "exit" ELSE "ok"
      [] OTHER -> o.end = "ok"

Step(o, h) ==
    /\ last' = o
    /\ holder' = h
    /\ managed' = [l \in List |->
          CASE o.op = "build" /\ o.end # "exit" ->
                 IF holder[l] = "none" /\ h[l] = "gen" THEN (IF o.end = "crash" THEN "maybe" ELSE "yes")
                 ELSE IF o.end = "ok" /\ list[l] = 0 THEN "no" ELSE managed[l]
            [] (o.op = "clean" /\ o.end = "ok") \/ o.op = "wipe" -> "no"
            [] OTHER -> IF h[l] = "none" THEN "no" ELSE managed[l]]
    /\ cfg' = CASE o.op = "config" -> [is |-> o.is, gen |-> o.gen, k |-> o.k]
                [] o.op = "init" /\ cfg.is = "none" -> [is |-> "ok", gen |-> TRUE, k |-> 0]
                [] OTHER -> cfg
    /\ src' = CASE o.op = "list" -> src \/ o.v # 0
                [] o.op \in {"holder", "index"} -> src \/ o.w \in {"write", "user"}
                [] o.op \in {"ksrc", "broken"} -> src \/ o.on
                [] OTHER -> src \/ o.op \in {"init", "imports"}
    /\ index' = CASE o.op = "init" /\ index = "none" -> "init"
                  [] o.op = "index" -> o.w
                  [] OTHER -> index
    /\ list' = IF o.op = "list" THEN [list EXCEPT ![o.l] = o.v] ELSE list
    /\ ksrc' = IF o.op = "ksrc" THEN o.on ELSE ksrc
    /\ broken' = IF o.op = "broken" THEN o.on ELSE broken
    /\ imports' = IF o.op = "imports" THEN o.all ELSE imports
    /\ out' = CASE o.op = "build" /\ o.end = "ok" -> "ok"
                [] o.op = "build" /\ o.end \in {"fail", "crash"} -> "partial"
                [] (o.op = "clean" /\ o.end = "ok") \/ o.op = "wipe" -> "none"
                [] OTHER -> out
    /\ cleaned' = CASE o.op = "build" /\ o.end # "exit" -> FALSE
                    [] (o.op = "clean" /\ o.end = "ok") \/ o.op = "wipe" -> TRUE
                    [] OTHER -> cleaned
    /\ pub' = CASE o.op = "build" /\ o.end = "ok" ->
                      [k |-> IF ksrc THEN <<IF o.dev THEN "dev" ELSE "prod", cfg.k>> ELSE <<>>,
                       img |-> [l \in List |-> IF Satisfiable(l) THEN list[l] ELSE 0]]
                [] (o.op = "clean" /\ o.end = "ok") \/ o.op = "wipe"
                   \/ (o.op = "build" /\ o.end \in {"fail", "crash"}) -> Nothing
                [] OTHER -> pub

Edits ==
    [op : {"list"}, l : List, v : {0, Bad} \cup Version, end : {"ok"}]
    \cup [op : {"holder"}, l : List, w : {"write", "delete"}, end : {"ok"}]
    \cup [op : {"ksrc", "broken"}, on : BOOLEAN, end : {"ok"}]
    \cup [op : {"imports"}, all : SUBSET (List \cup {"k"}), end : {"ok"}]
    \cup [op : {"index"}, w : {"user", "none"}, end : {"ok"}]
    \cup [op : {"config"}, is : {"ok", "old", "none"}, gen : BOOLEAN, k : {1, 2}, end : {"ok"}]
    \cup [op : {"wipe"}, end : {"ok"}]
Tools ==
    [op : {"build"}, dev : BOOLEAN, end : {"ok", "fail", "crash", "exit"}]
    \cup [op : {"clean"}, ph : BOOLEAN, end : {"ok", "exit"}]
    \cup [op : {"init"}, end : {"ok"}]
Op == Edits \cup Tools
Do(o) == EndOk(o) /\ \E h \in [List -> {"none", "gen", "edited", "user"}] : HolderOk(o, h) /\ Step(o, h)
Next == \E o \in Op : Do(o)
Spec == Empty /\ [][Next]_vars

\* ---- properties
Ended(op, end) == last'.op = op /\ last'.end = end
Tool == last'.op \in {"build", "clean", "init"}
\* P01: only cleaning removes holders; no tool changes one; after a build there is
\* one wherever one is to be generated, and none was made elsewhere
NeverOverwritten == [][Tool => \A l \in List : holder[l] # "none" => holder'[l] \in {holder[l], "none"}]_vars
OnlyCleanRemoves == [][Tool /\ ~Ended("clean", "ok") => \A l \in List : holder[l] # "none" => holder'[l] = holder[l]]_vars
HolderIff == [][Ended("build", "ok") => \A l \in List : holder'[l] = "none" <=> (holder[l] = "none" /\ ~(Satisfiable(l) /\ cfg.gen))]_vars
\* K01
ConstantsOfMode == [][Ended("build", "ok") => pub'.k = IF ksrc THEN <<IF last'.dev THEN "dev" ELSE "prod", cfg.k>> ELSE <<>>]_vars
\* L01
UserKept == [][Tool => \A l \in List : holder[l] \in {"user", "edited"} => holder'[l] = holder[l]]_vars
OnlyIfAsked == [][Ended("clean", "ok") /\ ~last'.ph => holder' = holder]_vars
\* ... also when the build that generated it failed
Complete == [][Ended("clean", "ok") /\ last'.ph => \A l \in List : managed[l] = "yes" => holder'[l] # "gen"]_vars
CleanForgets == [][Ended("clean", "ok") => out' = "none" /\ pub' = Nothing]_vars
\* L02
InitKeeps == [][last'.op = "init" => (cfg.is # "none" => cfg' = cfg) /\ (index # "none" => index' = index) /\ list' = list /\ holder' = holder]_vars
InitTwice == [][last.op = "init" /\ last'.op = "init" => state' = state]_vars
InitBuilds == [][last.op = "init" /\ last'.op = "build" /\ cfg.is = "ok" /\ ~broken /\ ~Dangling => last'.end \in {"ok", "crash"}]_vars
TypeOK == /\ \A l \in List : holder[l] = "none" => managed[l] = "no"
          /\ out # "ok" => pub = Nothing
=============================================================================
