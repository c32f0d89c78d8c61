------------------------------ MODULE BuildSim ------------------------------
(* Random behaviours of Build, written out for replay into the real code.      *)
EXTENDS Build, Json

CONSTANTS Rounds, Crashes
ASSUME Crashes \in 0..100

VARIABLES hist, quota, round

svars == <<vars, hist, quota, round>>

Odds(n, m) == RandomElement(1..m) <= n
Existing == {f \in File : Exists(src, f)}
\* mostly references to what exists and does not refer back
Good(f) == {g \in Existing \ {f} : f \notin Closure(src, g)}
Pick(S) == IF S = {} THEN {} ELSE RandomElement(SUBSET S)

RandomEdit ==
    \E f \in {RandomElement(File)} :
    \E kind \in {RandomElement(1..10)} :
    IF cfg < MaxCfg /\ Odds(1, 6) THEN Configure
    ELSE IF Exists(src, f) /\ kind <= 2 THEN Delete(f)
    ELSE IF f \in Leaf THEN EditLeaf(f)
    ELSE IF Exists(src, f) /\ kind <= 4 THEN EditPage(f, src[f].deps, src[f].sh)
    ELSE \E ds \in {IF Odds(1, 20) THEN Pick(File \ {f}) ELSE Pick(Good(f))} :
         \E sh \in {IF Odds(1, 20) THEN Pick(Leaf) ELSE Pick(Existing \cap Leaf)} :
         EditPage(f, ds, sh)

\* edits away references to nothing and cycles
Repair ==
    IF Dangling(src)
    THEN \E f \in {CHOOSE f \in Existing : \E d \in Deps(src, f) : ~Exists(src, d)} :
            EditPage(f, src[f].deps \cap Existing, src[f].sh \cap Existing)
    ELSE \E f \in {CHOOSE f \in Existing : \E d \in Deps(src, f) : f \in Closure(src, d)} :
            EditPage(f, {}, src[f].sh)

Note(st) == hist' = Append(hist, st)
Entry ==
    IF phase' = "build" THEN [act |-> act', result |-> result', phase |-> phase']
    ELSE [act |-> act', result |-> result', phase |-> phase', pub |-> {<<o, pub'[o]>> : o \in {x \in Out : pub'[x] # Absent}},
          graph |-> {<<f, graph'[f].deps, graph'[f].outs>> : f \in {x \in File : graph'[x].v > 0}}]

SInit == Init /\ hist = <<>> /\ quota = Cardinality(File) + 2 /\ round = 0

SEdit ==
    /\ phase = "idle" /\ quota > 0
    /\ RandomEdit
    /\ quota' = quota - 1 /\ round' = round
    /\ Note([act |-> act'])

SRepair ==
    /\ phase = "idle" /\ quota = 0 /\ ~Valid(src)
    /\ \E x \in {Odds(3, 4)} : x
    /\ Repair
    /\ Note([act |-> act'])
    /\ UNCHANGED <<quota, round>>

SBegin ==
    /\ phase = "idle" /\ quota = 0 /\ round < Rounds
    /\ \/ Valid(src)
       \/ \E x \in {Odds(1, 4)} : x
    /\ \/ Begin
       \/ (\E x \in {Odds(Crashes, 100)} : x) /\ CrashCleaning({})
    /\ round' = round + 1
    /\ quota' = RandomElement(0..3)
    /\ Note(Entry)

SBuild ==
    /\ phase = "build"
    /\ \/ \E f \in File : Submit(f) \/ Complete(f)
       \/ Finish \/ FailCycle
       \/ (todo = {} /\ running = {} /\ FailDangling)
       \/ (todo \cup running # {} /\ \E x \in {Odds(Crashes, 100)} : x) /\ Crash({})
    /\ Note(Entry)
    /\ UNCHANGED <<quota, round>>

SDone == round = Rounds /\ phase = "idle" /\ quota = 0
Stutter == SDone /\ UNCHANGED svars

SNext == SEdit \/ SRepair \/ SBegin \/ SBuild
SSpec == SInit /\ [][SNext]_svars

\* evaluated on every state of every behaviour
Emit == ~SDone \/ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
Small == Correct /\ OrderOk /\ NoConflict /\ Needed /\ Truthful /\ SuccessMeansValid
=============================================================================
