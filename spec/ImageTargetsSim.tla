--------------------------- MODULE ImageTargetsSim ---------------------------
(* Behaviours of ImageTargets to be followed by real workers: what every step   *)
(* of a worker becomes is that the worker is let go on for so many operations   *)
(* on files and locks.                                                          *)
EXTENDS ImageTargets, Json
CONSTANT MaxSteps
VARIABLES hist
Pace == {1, 2, 3, 5, 8, 13, 21, 34, 55}
SInit == Init /\ hist = <<[e |-> "start", w |-> 0, op |-> "", t |-> 0, c |-> now, g |-> 0]>>
Note(e, w, op, t, c, g) == hist' = Append(hist, [e |-> e, w |-> w, op |-> op, t |-> t, c |-> c, g |-> g])
Ops == {[op |-> op, t |-> t] : op \in {"scan", "build"}, t \in Targets}
Act ==
    /\ Len(hist) < MaxSteps
    /\ \/ \E w \in Workers : \E x \in {RandomElement(Ops)} : Begin(w, x.op, x.t) /\ Note("begin", w, x.op, x.t, 0, 0)
       \/ \E w \in Workers : \E g \in {RandomElement(Pace)} : (Look(w) \/ Reserve(w) \/ Make(w)) /\ Note("go", w, "", 0, 0, g)
       \/ \E w \in Workers : End(w) /\ Note("end", w, "", 0, 0, 0)
       \/ \E w \in Workers : RandomElement(1..(8 + 0 * Len(hist))) = 1 /\ Die(w) /\ Note("die", w, "", 0, 0, RandomElement(Pace))
       \/ \E c \in {RandomElement({v \in Versions : v < 3 + Len(hist)}), RandomElement({v \in Versions : v < 4 /\ v < 3 + Len(hist)})} : Change(c) /\ Note("change", 0, "", 0, c, 0)
       \/ \E n \in Numbers : RandomElement(1..(9 + 0 * Len(hist))) = 1 /\ Forget(n) /\ Note("forget", 0, "", 0, 0, RandomElement(1..(4 + 0 * Len(hist))))
       \/ RandomElement(1..(12 + 0 * Len(hist))) = 1 /\ Quiet /\ UNCHANGED tvars /\ Note("uncounted", 0, "", 0, 0, 0)
SNext == Act \/ (Len(hist) = MaxSteps /\ UNCHANGED tvars /\ Note("over", 0, "", 0, 0, 0))
SSpec == SInit /\ [][SNext]_<<tvars, hist>>
Emit == Len(hist) = MaxSteps + 1 => PrintT(<<"TEXT", ToJson(hist)>>)
=============================================================================
