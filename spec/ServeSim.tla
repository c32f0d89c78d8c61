------------------------------ MODULE ServeSim ------------------------------
(* Random changes of the published folder and random requests.                 *)
EXTENDS Serve, Json, SequencesExt
CONSTANT Steps
VARIABLES hist, over
\* further names to ask for
Odd == {"x", "secret", "www", "www2", "out", "nul", "long", "back", "enc", "src"}
SimPath == {<<"index.html">>, <<"404.html">>, <<"a.js">>, <<"a.images.js">>, <<"sp.css">>, <<"uni.txt">>, <<"noext">>,
            <<"d">>, <<"d", "index.html">>, <<"d", "b.css">>, <<"d", "e", "img.webp">>, <<"d", "d", "p.svg">>,
            <<"e", "c.html">>, <<"www", "index.html">>}
SimRoot == <<"out", "www">>
N0 == 0 * Len(hist)
Roll(n) == RandomElement(1..(n + N0))
AnyOf(S) == RandomElement({x \in S : Len(hist) >= 0})
Flip == AnyOf(BOOLEAN)
Spot(s) == IF Len(s) = 0 THEN 0 ELSE Roll(Len(s) + 1) - 1
Insert(s, i, x) == SubSeq(s, 1, i) \o x \o SubSeq(s, i + 1, Len(s))
Base == CASE Roll(12) <= 8 -> AnyOf(Path)
          [] Roll(2) = 1 -> <<AnyOf(Odd)>>
          [] OTHER -> <<>>
Mutate(s) ==
    LET k == Roll(14) IN
    CASE k <= 4 -> s
      [] k \in 5..6 -> IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
      [] k = 7 -> Insert(s, Spot(s), <<AnyOf({"", "."})>>)
      [] k = 8 -> Insert(s, Spot(s), <<AnyOf(Odd \cup {"d"}), "..">>)
      [] k = 9 -> Insert(s, Spot(s), <<"..">>)
      [] k = 10 -> <<"..", "www">> \o s
      [] k = 11 -> <<"..">> \o s
      [] k = 12 -> <<"..", AnyOf(Odd)>> \o s
      [] k = 13 -> Append(s, AnyOf(Odd \cup {"index.html"}))
      [] OTHER -> <<"..", "..", "src", "public">> \o s
AnyRequest == [op |-> "get", segs |-> Mutate(IF Roll(3) = 1 THEN Mutate(Base) ELSE Base), slash |-> Roll(4) = 1,
               cond |-> Flip, head |-> Roll(6) = 1]
Known == {p \in Path : cache[p] # 0}
AgainRequest == [op |-> "get", segs |-> AnyOf(Known), slash |-> FALSE, cond |-> TRUE, head |-> FALSE]
SInit == Init /\ hist = <<>> /\ over = FALSE
SNext ==
    IF Len(hist) = Steps THEN ~over /\ over' = TRUE /\ UNCHANGED <<vars, hist>>
    ELSE /\ over' = FALSE
         /\ \E k \in {Roll(10)} :
            IF k <= 3 \/ Len(hist) < 6
            THEN \E p \in {AnyOf(Path)} : \E c \in {IF Roll(4) = 1 \/ ~CanPut(p) THEN 0 ELSE AnyOf(Content)} :
                 Put(p, c) /\ hist' = Append(hist, [op |-> "put", p |-> p, c |-> c])
            ELSE \E r \in {IF k = 4 /\ Known # {} THEN AgainRequest ELSE AnyRequest} :
                 /\ hist' = Append(hist, r)
                 /\ \E a \in {AnyOf(Answers(r.segs, r.slash))} : Get(r.segs, r.slash, a)
SSpec == SInit /\ [][SNext]_<<vars, hist, over>>
Emit == over => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
