---------------------------- MODULE ExternalSim ----------------------------
(* Random sequences of declarations, local edits, server changes and builds.   *)
EXTENDS External, Json
CONSTANT Steps
VARIABLE hist
Roll(n) == RandomElement(1..(n + 0 * Len(hist)))
RContent == RandomElement({c \in Content : Len(hist) >= 0})
RPath == RandomElement({p \in Path : Len(hist) >= 0})
Do(e) == hist' = Append(hist, e)
SInit == Init /\ hist = <<>>
SNext ==
    /\ Len(hist) < Steps
    /\ \E k \in {Roll(20)} : \E p \in {RPath} : \E c \in {RContent} :
       IF k <= 4 THEN Declare(p, c) /\ Do([a |-> "declare", p |-> p, c |-> c])
       ELSE IF k <= 6 THEN Declare(p, 0) /\ Do([a |-> "declare", p |-> p, c |-> 0])
       ELSE IF k <= 8 THEN Local(p, c) /\ Do([a |-> "local", p |-> p, c |-> c])
       ELSE IF k = 9 THEN Local(p, 0) /\ Do([a |-> "local", p |-> p, c |-> 0])
       ELSE IF k = 10 THEN Local(p, file[p]) /\ Do([a |-> "local", p |-> p, c |-> file[p]])
       ELSE IF k = 11 THEN Serve(p, c) /\ Do([a |-> "serve", p |-> p, c |-> c])
       ELSE IF k = 12 THEN Serve(p, 0) /\ Do([a |-> "serve", p |-> p, c |-> 0])
       ELSE IF Bad # {} /\ k <= 17
            THEN \E q \in {RandomElement(Bad)} : Serve(q, decl[q]) /\ Do([a |-> "serve", p |-> q, c |-> decl[q]])
       ELSE (BuildOk \/ BuildFails) /\ Do([a |-> "build"])
SSpec == SInit /\ [][SNext]_<<vars, hist>>
Emit == Len(hist) < Steps \/ PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
