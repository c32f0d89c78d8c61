------------------------------ MODULE Pipeline ------------------------------
(* The pipelines tokens of pages, stylesheets and scripts go through.         *)
(* Manipulators are offered every token, in order, until one claims it.  The  *)
(* claimant alone is given that token and those after it, until it answers    *)
(* with what to put in their place, which is then offered to all of them.     *)
(*                                                                            *)
(* Tokens are numbers: kind t % 3, level t \div 3.  A manipulator claims some *)
(* kinds (of positive level) and answers after some number of tokens, with    *)
(* tokens made from those it was given, of a lower level; or it finds that it *)
(* has no use for them, and puts back what it was given.                      *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxTokens, MaxManip

Kind(t) == t % 3
Level(t) == t \div 3
Lower(t, dk) == (IF Level(t) = 0 THEN 0 ELSE 3 * (Level(t) - 1)) + ((Kind(t) + dk) % 3)

VARIABLES
    conf,       \* the manipulators: [claims, len, repl, shy]
    input,      \* tokens still to come
    pending,    \* tokens to be handled before those
    mark,       \* the claimant, 0 if none
    given,      \* what it was given so far
    skip,       \* manipulators which pass on the next token they are offered
    out,        \* what came out
    log,        \* <<manipulator, token>> in the order they were given
    fed, step
vars == <<conf, input, pending, mark, given, skip, out, log, fed, step>>

Answer(m, g) ==
    [i \in 1..Len(conf[m].repl) |-> LET r == conf[m].repl[i] IN Lower(g[(r[1] % Len(g)) + 1], r[2])]
Declines(m, g) == conf[m].shy # 9 /\ Kind(g[Len(g)]) = conf[m].shy
Claims(m, t) == Kind(t) \in conf[m].claims /\ Level(t) > 0 /\ m \notin skip

Init ==
    /\ conf = <<>> /\ input = <<>> /\ pending = <<>> /\ mark = 0 /\ given = <<>>
    /\ skip = {} /\ out = <<>> /\ log = <<>> /\ fed = <<>> /\ step = "setup"

AddManip ==
    /\ step = "setup" /\ Len(conf) < MaxManip
    /\ \E c \in {RandomElement(SUBSET (0..2))} :
       \E n \in {RandomElement(1..3)} :
       \E k \in {RandomElement(0..3)} :
       \E r \in {[i \in 1..k |-> <<RandomElement(0..2), RandomElement({0, 0, 1, 2, Len(conf) % 3})>>]} :
       \E s \in {RandomElement({9, 0, 1, 2})} :
       conf' = Append(conf, [claims |-> c, len |-> n, repl |-> r, shy |-> s])
    /\ UNCHANGED <<input, pending, mark, given, skip, out, log, fed, step>>
Start == /\ step = "setup" /\ Len(conf) = MaxManip /\ step' = "run"
         /\ \E n \in {RandomElement(1..MaxTokens)} :
              \E ts \in {[i \in 1..n |-> RandomElement(0..8)]} : input' = ts
         /\ UNCHANGED <<conf, pending, mark, given, skip, out, log, fed>>

Feed ==
    /\ step = "run" /\ pending = <<>> /\ input # <<>>
    /\ pending' = <<Head(input)>> /\ fed' = Append(fed, Head(input)) /\ input' = Tail(input)
    /\ UNCHANGED <<conf, mark, given, skip, out, log, step>>

\* the next token when nobody claimed what precedes it
Offer ==
    /\ step = "run" /\ pending # <<>> /\ mark = 0
    /\ LET t == Head(pending)
           who == {m \in 1..Len(conf) : Claims(m, t)}
           first == CHOOSE m \in who : \A x \in who : m <= x
           asked == IF who = {} THEN 1..Len(conf) ELSE 1..first
       IN
       /\ IF who = {}
          THEN /\ out' = Append(out, t) /\ pending' = Tail(pending) /\ mark' = 0
          ELSE /\ mark' = first /\ UNCHANGED <<out, pending>>
       /\ skip' = skip \ asked
    /\ UNCHANGED <<conf, input, given, log, fed, step>>

Give ==
    /\ step = "run" /\ pending # <<>> /\ mark # 0
    /\ LET t == Head(pending)
           g == Append(given, t)
           rest == Tail(pending)
       IN
       /\ log' = Append(log, <<mark, t>>)
       /\ IF Len(g) < conf[mark].len
          THEN /\ given' = g /\ pending' = rest /\ UNCHANGED <<mark, skip>>
          ELSE /\ given' = <<>> /\ mark' = 0
               /\ IF Declines(mark, g)
                  THEN pending' = g \o rest /\ skip' = skip \cup {mark}
                  ELSE pending' = Answer(mark, g) \o rest /\ UNCHANGED skip
    /\ UNCHANGED <<conf, input, out, fed, step>>

Next == AddManip \/ Start \/ Feed \/ Offer \/ Give
Spec == Init /\ [][Next]_vars

Done == step = "run" /\ input = <<>> /\ pending = <<>>
Emit == ~Done \/ PrintT(<<"PIPE", ToJson(<<conf, fed, out, log>>)>>)

\* without claims everything passes, in order
NobodyClaims == (step = "run" /\ log = <<>>) =>
    out \o (IF pending = <<>> \/ mark # 0 THEN <<>> ELSE pending) = fed \/ mark # 0
\* the order of the tokens which come out although nobody ever touched their kind
Untouched(k) == \A m \in 1..Len(conf) : k \notin conf[m].claims
OnlyOne == mark = 0 => given = <<>>
Bounded == Len(out) + Len(pending) < 200
=============================================================================
