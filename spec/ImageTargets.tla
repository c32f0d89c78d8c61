---------------------------- MODULE ImageTargets ----------------------------
(* The numbers of the variants of an image. A variant is what a target asks for *)
(* (size, crop) of the image at a version (contents of the image, how images    *)
(* are exported). Workers request the number of a target: "scan" before a page  *)
(* using it is built, "build" when it is, which makes the variant if there is   *)
(* none yet. Looking for the number and reserving a new one are two steps in    *)
(* between which other workers make steps; a worker can die before any step.    *)
(* The build of a page neither overlaps with another request of the same target *)
(* (Build.tla: files with common outputs are built one after another, after     *)
(* everything was scanned).                                                     *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Workers, Targets, Versions, Numbers
VARIABLES now, slot, act
tvars == <<now, slot, act>>
Free == [t |-> 0, c |-> 0]
Idle == [op |-> "idle", t |-> 0, n |-> 0, at |-> "", had |-> {}]
Done(t) == {n \in Numbers : slot[n] = [t |-> t, c |-> now]}      \* made for that target
Kept(t) == {n \in Numbers : slot[n] = [t |-> t, c |-> 0]}        \* reserved for it
Quiet == \A w \in Workers : act[w].op = "idle"
TypeOK ==
    /\ now \in Versions
    /\ slot \in [Numbers -> [t : Targets \cup {0}, c : Versions \cup {0}]]
    /\ \A w \in Workers : act[w].n \in Numbers \cup {0}
Init == now \in Versions /\ slot = [n \in Numbers |-> Free] /\ act = [w \in Workers |-> Idle]
Apart(op, t) == \A w \in Workers : act[w].op # "idle" /\ act[w].t = t => op = "scan" /\ act[w].op = "scan"
Begin(w, op, t) ==
    /\ act[w].op = "idle" /\ Apart(op, t)
    /\ act' = [act EXCEPT ![w] = [op |-> op, t |-> t, n |-> 0, at |-> "look", had |-> Done(t)]]
    /\ UNCHANGED <<now, slot>>
Look(w) ==
    LET t == act[w].t
        found == IF Done(t) # {} THEN Done(t) ELSE Kept(t)
    IN  /\ act[w].at = "look"
        /\ IF found = {} THEN act' = [act EXCEPT ![w].at = "none"]
           ELSE \E n \in found : act' = [act EXCEPT ![w].at = "got", ![w].n = n]
        /\ UNCHANGED <<now, slot>>
Reserve(w) ==
    LET t == act[w].t IN
    /\ act[w].at = "none"
    /\ IF Kept(t) # {} THEN \E n \in Kept(t) : act' = [act EXCEPT ![w].at = "got", ![w].n = n] /\ UNCHANGED slot
       ELSE \E n \in Numbers : slot[n] = Free /\ act' = [act EXCEPT ![w].at = "got", ![w].n = n] /\ slot' = [slot EXCEPT ![n] = [t |-> t, c |-> 0]]
    /\ UNCHANGED now
Make(w) ==
    /\ act[w].at = "got" /\ act[w].op = "build" /\ slot[act[w].n].c = 0
    /\ slot' = [slot EXCEPT ![act[w].n].c = now]
    /\ act' = [act EXCEPT ![w].at = "made"]
    /\ UNCHANGED now
End(w) ==
    /\ act[w].at = "made" \/ (act[w].at = "got" /\ (act[w].op = "scan" \/ slot[act[w].n].c # 0))
    /\ act' = [act EXCEPT ![w] = Idle]
    /\ UNCHANGED <<now, slot>>
Die(w) == act[w].op # "idle" /\ act' = [act EXCEPT ![w] = Idle] /\ UNCHANGED <<now, slot>>
Change(c) == Quiet /\ c # now /\ now' = c /\ UNCHANGED <<slot, act>>
\* a variant nothing uses any more is removed
Forget(n) == Quiet /\ slot[n] # Free /\ slot' = [slot EXCEPT ![n] = Free] /\ UNCHANGED <<now, act>>
Step(w) == Look(w) \/ Reserve(w) \/ Make(w) \/ End(w)
Next ==
    \/ \E w \in Workers : (\E op \in {"scan", "build"}, t \in Targets : Begin(w, op, t)) \/ Step(w) \/ Die(w)
    \/ \E c \in Versions : Change(c)
    \/ \E n \in Numbers : Forget(n)
Spec == Init /\ [][Next]_tvars /\ \A w \in Workers : WF_tvars(Step(w))
-----------------------------------------------------------------------------
\* a number stands for one target only
Unique == \A v, w \in Workers : act[v].n # 0 /\ act[v].n = act[w].n => act[v].t = act[w].t
Mine == \A w \in Workers : act[w].n # 0 => slot[act[w].n].t = act[w].t
\* what has been made is found again, and it is what was asked for
Found == \A w \in Workers : act[w].n # 0 /\ act[w].had # {} => act[w].n \in act[w].had /\ act[w].at # "made"
Right == \A w \in Workers : act[w].n # 0 => slot[act[w].n].c \in {0, now}
\* what has been made stays
Stable == [][\A n \in Numbers : slot[n].c # 0 => slot'[n] \in {slot[n], Free}]_tvars
\* requests at the same time agree on the number
Agree == \A v, w \in Workers : act[v].n # 0 /\ act[w].n # 0 /\ act[v].t = act[w].t => act[v].n = act[w].n
Answered == \A w \in Workers : act[w].op # "idle" ~> act[w].op = "idle"
=============================================================================
