----------------------------- MODULE TextInput -----------------------------
(* What tokenizers read their input through: a text with its line breaks and  *)
(* surrogates normalised, from which characters are read and peeked at.       *)
EXTENDS Naturals, Integers, Sequences, TLC, Json

CONSTANTS MaxText,      \* length of the texts
          MaxOps,
          Sizes,        \* numbers of characters asked for (0: everything left)
          Normalise     \* FALSE: the raw reader underneath

\* "r" "n" "f" are line breaks, "s" a surrogate, "a", "b" ordinary
Symbols == IF Normalise THEN {"r", "n", "f", "s", "a"} ELSE {"r", "a", "b"}

RECURSIVE Norm(_)
Norm(t) ==
    IF t = <<>> THEN <<>>
    ELSE IF Len(t) >= 2 /\ t[1] = "r" /\ t[2] = "n" THEN <<"n">> \o Norm(SubSeq(t, 3, Len(t)))
    ELSE <<CASE t[1] \in {"r", "n", "f"} -> "n" [] t[1] = "s" -> "u" [] OTHER -> t[1]>>
         \o Norm(Tail(t))

VARIABLES text,     \* the input
          pos,      \* how much of the normalised text was read
          ops       \* what was asked for and has to be answered
vars == <<text, pos, ops>>

Meaning == IF Normalise THEN Norm(text) ELSE text
Min(a, b) == IF a < b THEN a ELSE b
Upcoming(n) == LET left == Len(Meaning) - pos IN
    SubSeq(Meaning, pos + 1, pos + IF n = 0 THEN left ELSE Min(n, left))

Init == /\ text \in UNION {[1..k -> Symbols] : k \in 0..MaxText}
        /\ pos = 0 /\ ops = <<>>
Read(n) == /\ ops' = Append(ops, <<"read", n, Upcoming(n)>>)
           /\ pos' = pos + Len(Upcoming(n)) /\ UNCHANGED text
Peek(n) == /\ ops' = Append(ops, <<"peek", n, Upcoming(n)>>)
           /\ UNCHANGED <<text, pos>>
Next == Len(ops) < MaxOps /\ \E n \in Sizes : Read(n) \/ Peek(n)
Spec == Init /\ [][Next]_vars

\* what was read is the text, each character once
RECURSIVE Cat(_, _)
Cat(i, acc) == IF i > Len(ops) THEN acc
               ELSE Cat(i + 1, IF ops[i][1] = "read" THEN acc \o ops[i][3] ELSE acc)
EachOnce == Cat(1, <<>>) = SubSeq(Meaning, 1, pos)
\* a peek is what the next read of as much returns
PeekIsNext == \A i \in 1..(Len(ops) - 1) :
    (ops[i][1] = "peek" /\ ops[i+1][1] = "read" /\ ops[i][2] = ops[i+1][2]) => ops[i][3] = ops[i+1][3]
\* the end is reported exactly when everything was read
EndIsEnd == (ops # <<>> /\ ops[Len(ops)][3] = <<>>) => pos = Len(Meaning)

Emit == Len(ops) < MaxOps \/ PrintT(<<"READS", ToJson(<<text, ops>>)>>)

\* random long ones
RInit == text = <<>> /\ pos = 0 /\ ops = <<>>
Type == /\ pos = 0 /\ ops = <<>> /\ Len(text) < MaxText
        /\ \E c \in {RandomElement(Symbols)} : text' = Append(text, c)
        /\ UNCHANGED <<pos, ops>>
Ask == /\ Len(text) = MaxText /\ Len(ops) < MaxOps
       /\ \E n \in {RandomElement(Sizes \ (IF Len(ops) < MaxOps - 3 THEN {0} ELSE {}))} :
          \E k \in {RandomElement(1..2)} : IF k = 1 THEN Read(n) ELSE Peek(n)
RNext == Type \/ Ask
RSpec == RInit /\ [][RNext]_vars
=============================================================================
