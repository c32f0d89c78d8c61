------------------------------ MODULE WatchSim ------------------------------
(* Random schedules of edits, notifications, time and checks, written out for  *)
(* replay into the real watcher.                                               *)
EXTENDS Watch, Json, SequencesExt

VARIABLES hist
svars == <<vars, hist>>

Odds(n, m) == RandomElement(1..m) <= n
Existing == {f \in File : Exists(cur, f)}
Note(e) == hist' = Append(hist, e)
NoRefs == {}

Refs == IF Odds(1, 6) THEN RandomElement(SUBSET Leaf) ELSE RandomElement(SUBSET (Existing \cap Leaf))

RandomOp ==
    \E kind \in {RandomElement(1..12)} :
    \E f \in {RandomElement(File)} :
    \E rf \in {IF f \in Page THEN Refs ELSE {}} :
    IF kind <= 6 \/ Existing = {} THEN
        Write(f, rf) /\ Note([a |-> "write", f |-> f, refs |-> rf])
    ELSE IF kind = 7 THEN Replace(f, rf) /\ Note([a |-> "replace", f |-> f, refs |-> rf])
    ELSE \E e \in {RandomElement(Existing)} :
      IF kind <= 9 THEN Delete(e) /\ Note([a |-> "delete", f |-> e])
      ELSE IF kind = 10 THEN Touch(e) /\ Note([a |-> "touch", f |-> e])
      ELSE IF kind = 11 /\ Existing \cap Inside # {} /\ Odds(1, 2) THEN
        \E all \in {Odds(1, 2)} :
        LET gone == Existing \cap Inside
            rep == IF all THEN [i \in 1..Cardinality(gone) |-> Ev("deleted", SetToSeq(gone)[i])] ELSE <<>> IN
        DropFolder(rep) /\ Note([a |-> "drop", reported |-> all])
      ELSE LET same == {g \in File : g # e /\ (g \in Page <=> e \in Page)} IN
        IF same = {} THEN Touch(e) /\ Note([a |-> "touch", f |-> e])
        ELSE \E g \in {RandomElement(same)} : Move(e, g) /\ Note([a |-> "move", f |-> e, g |-> g])

SInit == Init /\ hist = <<>>

SOp == RandomOp
SDeliver == Deliver /\ Note([a |-> "deliver"])
STick == quiet < Debounce /\ Tick /\ Note([a |-> "tick"])
SCheck == RebuildStart /\ Note([a |-> "check"])
SNull == phase = "idle" /\ ~CanStart /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].a # "checked")
         /\ hist' = hist \o <<[a |-> "check"], [a |-> "checked"]>> /\ UNCHANGED vars
SEnd == (RebuildOk \/ RebuildFailed) /\ Note([a |-> "checked"])

\* one kind of step at a time, so that deliveries and checks are not drowned
SNext ==
    \E k \in {RandomElement(1..(20 + 0 * nops))} :
    IF phase = "rebuild" THEN
        IF k <= 4 /\ nops < MaxOps THEN SOp
        ELSE IF k <= 9 /\ queue # <<>> THEN SDeliver
        ELSE SEnd
    ELSE IF k <= 5 /\ nops < MaxOps THEN SOp
    ELSE IF k <= 11 /\ queue # <<>> THEN SDeliver
    ELSE IF k <= 13 /\ ENABLED SNull THEN SNull
    ELSE IF CanStart THEN SCheck
    ELSE IF quiet < Debounce THEN STick
    ELSE IF queue # <<>> THEN SDeliver
    ELSE IF nops < MaxOps THEN SOp
    ELSE FALSE
SSpec == SInit /\ [][SNext]_svars
Done == nops = MaxOps /\ phase = "idle" /\ queue = <<>> /\ quiet = Debounce /\ ~CanStart
Emit == ~Done \/ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
