------------------------------- MODULE CliSim -------------------------------
(* Random histories of command lines.                                          *)
EXTENDS Cli, Json
CONSTANTS Steps, Serving   \* how many of ten commands serve
VARIABLES hist, over
N0 == 0 * Len(hist)
Roll(n) == RandomElement(1..(n + N0))
Some(s) == RandomElement({x \in s : Len(hist) >= 0})
\* an option with its value, in one of the ways to write it
Put(o, v) == IF Roll(2) = 1 THEN <<<<o, v>>>> ELSE <<<<o>>, <<v>>>>
Maybe(n, ws) == IF Roll(n) = 1 THEN ws ELSE <<>>
Projects == {d \in Folder : f[d].cfg # "none"}
\* mostly where the command makes sense
Sensible(c) ==
    LET built == {d \in Projects : f[d].out}
        prompting == {d \in built : f[d].gen = "gen"}
    IN  CASE c = "run" /\ built # {} -> built [] c = "clean" /\ prompting # {} -> prompting
          [] c # "init" /\ Projects # {} -> Projects [] OTHER -> Folder
FolderPart(c) == LET d == IF Roll(6) = 1 THEN Some(Folder) ELSE Some(Sensible(c)) IN IF d = "A" /\ Roll(3) # 1 THEN <<>> ELSE Put("--folder", d)
Delay == IF Roll(2) = 1 THEN <<<<"--delay-files">>, <<"a.txt">>>> ELSE <<<<"--delay-files">>, <<"a.txt">>, <<"b.txt">>>>
Parts(c) ==
    CASE c = "init" -> <<FolderPart(c), Maybe(2, Put("--host", Some(Hosts)))>>
      [] c = "build" -> <<FolderPart(c), Maybe(2, <<<<"--dev">>>>), Maybe(12, Delay),
                          LET k == Roll(3) IN IF k = 1 THEN <<>> ELSE IF k = 2 THEN <<<<"--symlinks">>>> ELSE <<<<"--no-symlinks">>>>>>
      [] c = "clean" -> <<FolderPart(c), LET k == Roll(4) IN IF k <= 2 THEN <<>> ELSE IF k = 3 THEN <<<<"--placeholders">>>> ELSE <<<<"--no-placeholders">>>>>>
      [] c = "run" -> <<FolderPart(c), Put("--port", Some(Ports)), Maybe(2, Put("--host", Some(Addresses)))>>
      [] OTHER -> <<FolderPart(c), Put("--port", Some(Ports)), Maybe(2, Put("--host", Some(Addresses))),
                    Maybe(2, <<<<"--watch">>>>), Maybe(3, Put("--debounce", Some({"20", "100", "4000"})))>>
Junk(c) == Some({<<<<"--bogus">>>>, <<<<"extra">>>>, <<<<"--folder">>>>, <<<<"--help">>>>, <<<<"--watch", "yes">>>>, <<<<"--dev", "1">>>>})
            \o (IF c = "run" /\ Roll(2) = 1 THEN <<<<"--port">>, <<"eighty">>>> ELSE <<>>)
RECURSIVE Shuffled(_, _)
Shuffled(ps, used) ==
    IF Cardinality(used) = Len(ps) THEN <<>>
    ELSE LET i == RandomElement({j \in 1..Len(ps) : j \notin used /\ Len(hist) >= 0})
         IN  ps[i] \o Shuffled(ps, used \cup {i})
LinesOf == LET k == Roll(7) IN
    CASE k = 1 -> <<"y">> [] k = 2 -> <<"n">> [] k = 3 -> <<"Y">> [] k = 4 -> <<"N">> [] k = 5 -> <<"what", "", "yes", "y">>
      [] k = 6 -> <<"no", "n">> [] OTHER -> <<"hm">>
Command ==
    LET k == Roll(10)
        c == IF Projects = {} /\ Roll(4) # 1 THEN "init"
             ELSE IF k <= Serving THEN (IF Roll(2) = 1 THEN "run" ELSE "dev")
             ELSE LET j == Roll(10) IN IF j = 1 THEN "init" ELSE IF j <= 4 THEN "clean" ELSE "build"
        base == Shuffled(Parts(c), {})
        all == <<<<c>>>> \o base \o Maybe(9, Junk(c))
    IN  [argv |-> LET z == Roll(60) IN IF z = 1 THEN base \o <<<<c>>>> ELSE IF z = 2 THEN <<>> ELSE IF z = 3 THEN <<<<"--help">>>> ELSE all,
         in |-> IF c = "clean" THEN LinesOf ELSE <<>>,
         edit |-> c \in {"run", "dev"} /\ Roll(3) # 1]
\* servers answer the right port and not the default one
Sane(o) == LET p == Parse(o.argv) IN p.c \in {"run", "dev"} => p.val["--port"] \in Ports
Users == {u \in [user : {"write"}, d : Folder] : CanDo(u)} \cup {u \in [user : {"touch"}, d : Folder] : CanDo(u) /\ Roll(3) = 1}
Choice == LET us == Users IN IF us # {} /\ Roll(2) = 1 THEN Some(us) ELSE Command
SInit == f = [d \in Folder |-> None] /\ hist = <<>> /\ over = FALSE
SNext ==
    IF Len(hist) = Steps THEN ~over /\ over' = TRUE /\ UNCHANGED <<f, hist>>
    ELSE \E o \in {Choice} :
        /\ over' = FALSE
        /\ IF "user" \in DOMAIN o THEN f' = Done(o) /\ hist' = Append(hist, o)
           ELSE IF ~Sane(o) THEN UNCHANGED f /\ hist' = Append(hist, [argv |-> <<>>, in |-> <<>>, edit |-> FALSE])
           ELSE \* one of the outcomes; the implementation has its own
                LET e == [o EXCEPT !.edit = @ /\ \E r \in Outcomes(o) : \E d \in Folder : Parse(o.argv).c \in {"run", "dev"}
                                                 /\ Parse(o.argv).val["--folder"] = d /\ r.s # NotServing /\ f[d].site]
                IN  f' = (CHOOSE r \in Outcomes(e) : TRUE).f /\ hist' = Append(hist, e)
SSpec == SInit /\ [][SNext]_<<f, hist, over>>
Emit == over => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
