----------------------------- MODULE ProjectSim -----------------------------
(* Random operation sequences, from random beginnings.                         *)
EXTENDS Project, Json, SequencesExt
CONSTANTS Steps, Focus   \* the property to emphasise
VARIABLES hist, over
N0 == 0 * Len(hist)
Roll(n) == RandomElement(1..(n + N0))
Flip == RandomElement({b \in BOOLEAN : Len(hist) >= 0})
AnyList == RandomElement({l \in List : Len(hist) >= 0})
AnyVersion == RandomElement({v \in Version : Len(hist) >= 0})
AnyImports == RandomElement({s \in SUBSET {i \in List \cup {"k"} : Published(i) \/ Roll(12) = 1} : Len(hist) >= 0})
EditOf(k) ==
    CASE k <= 5 -> [op |-> "list", l |-> AnyList, v |-> AnyVersion, end |-> "ok"]
      [] k = 6 -> [op |-> "list", l |-> AnyList, v |-> IF Flip THEN 0 ELSE Bad, end |-> "ok"]
      [] k \in 7..8 -> [op |-> "holder", l |-> AnyList, w |-> "write", end |-> "ok"]
      [] k \in 9..10 -> [op |-> "holder", l |-> AnyList, w |-> "delete", end |-> "ok"]
      [] k \in 11..12 -> [op |-> "ksrc", on |-> TRUE, end |-> "ok"]
      [] k = 13 -> [op |-> "ksrc", on |-> FALSE, end |-> "ok"]
      [] k = 14 -> [op |-> "broken", on |-> TRUE, end |-> "ok"]
      [] k \in 15..17 -> [op |-> "imports", all |-> AnyImports, end |-> "ok"]
      [] k = 18 -> [op |-> "index", w |-> IF Flip THEN "user" ELSE "none", end |-> "ok"]
      [] k \in 19..22 -> [op |-> "config", is |-> "ok", gen |-> Roll(3) # 1, k |-> Roll(2), end |-> "ok"]
      [] k = 23 -> [op |-> "config", is |-> IF Flip THEN "old" ELSE "none", gen |-> FALSE, k |-> 1, end |-> "ok"]
      [] OTHER -> IF Roll(3) = 1 THEN [op |-> "wipe", end |-> "ok"]
                  ELSE [op |-> "list", l |-> AnyList, v |-> AnyVersion, end |-> "ok"]
Repair ==
    IF cfg.is # "ok" /\ Roll(4) # 1 THEN <<[op |-> "config", is |-> "ok", gen |-> Roll(4) # 1, k |-> Roll(2), end |-> "ok"]>>
    ELSE IF broken /\ Roll(3) # 1 THEN <<[op |-> "broken", on |-> FALSE, end |-> "ok"]>>
    ELSE IF Dangling /\ Roll(6) # 1 THEN <<[op |-> "imports", all |-> {i \in imports : Published(i)}, end |-> "ok"]>>
    ELSE <<>>
BuildEnd == IF ~Buildable THEN "exit" ELSE IF Roll(8) = 1 THEN "crash" ELSE IF broken \/ Dangling THEN "fail" ELSE "ok"
Build == [op |-> "build", dev |-> Flip, end |-> BuildEnd]
CleanOp == [op |-> "clean", ph |-> Roll(3) # 1, end |-> IF cfg.is = "none" THEN "exit" ELSE "ok"]
InitOp == [op |-> "init", end |-> "ok"]
AnyTool ==
    LET k == Roll(12) IN
    IF k = 1 \/ (k <= 5 /\ Focus = "L02") THEN InitOp
    ELSE IF k = 6 \/ (k \in 7..9 /\ Focus = "L01") THEN CleanOp ELSE Build
Emphasised == CASE Focus = "P01" -> 1..10 [] Focus = "K01" -> {11, 12, 13, 15, 16, 17, 19, 20, 21, 22}
                [] Focus = "L01" -> {1, 2, 3, 7, 8, 9, 14, 19} [] OTHER -> {2, 11, 18, 19, 23}
AnyEdit == EditOf(IF Flip THEN RandomElement({k \in Emphasised : Len(hist) >= 0}) ELSE Roll(24))
Choice ==
    LET r == Repair IN
    IF Roll(5) <= 3 THEN AnyEdit ELSE IF r # <<>> THEN r[1] ELSE AnyTool
SInit == Empty /\ hist = <<>> /\ over = FALSE
SNext ==
    IF Len(hist) = Steps THEN ~over /\ over' = TRUE /\ UNCHANGED <<vars, hist>>
    ELSE \E o \in {Choice} :
        /\ hist' = Append(hist, o) /\ over' = FALSE
        \* one choice; the implementation makes its own
        /\ LET hs == {h \in [List -> {"none", "gen", "edited", "user"}] : HolderOk(o, h)} IN Step(o, CHOOSE h \in hs : TRUE)
SSpec == SInit /\ [][SNext]_<<vars, hist, over>>
Emit == over => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
