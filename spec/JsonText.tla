------------------------------ MODULE JsonText ------------------------------
(* The value a JSON text denotes. Values: [j: "s", v: text], [j: "n", v: the   *)
(* number as written], [j: "l", v: the literal], [j: "a", v: sequence of       *)
(* values], [j: "o", v: sequence of <<key, value>>]; [j: "bad"] if the text     *)
(* denotes none.                                                               *)
EXTENDS Chars
JWs == {9, 10, 13, 32}
RECURSIVE JSkip(_, _)
JSkip(t, p) == IF p <= Len(t) /\ t[p] \in JWs THEN JSkip(t, p + 1) ELSE p
JBad == [v |-> [j |-> "bad", v |-> <<>>], p |-> 0]
JIs(t, p, c) == p <= Len(t) /\ t[p] = C(c)
Escapes == <<<<C("\""), 34>>, <<C("\\"), 92>>, <<C("/"), 47>>, <<C("b"), 8>>, <<C("f"), 12>>, <<C("n"), 10>>, <<C("r"), 13>>, <<C("t"), 9>>>>
\* from behind the opening quote
RECURSIVE JString(_, _, _)
JString(t, p, o) ==
    IF p > Len(t) \/ t[p] < 32 THEN JBad
    ELSE IF t[p] = 34 THEN [v |-> [j |-> "s", v |-> o], p |-> p + 1]
    ELSE IF t[p] # 92 THEN JString(t, p + 1, Append(o, t[p]))
    ELSE IF p = Len(t) THEN JBad
    ELSE IF t[p + 1] = C("u") THEN
        IF p + 5 <= Len(t) /\ (\A i \in 2..5 : Hex(t[p + i])) THEN JString(t, p + 6, Append(o, HexValue(SubSeq(t, p + 2, p + 5)))) ELSE JBad
    ELSE IF \E i \in 1..Len(Escapes) : Escapes[i][1] = t[p + 1]
    THEN JString(t, p + 2, Append(o, Escapes[CHOOSE i \in 1..Len(Escapes) : Escapes[i][1] = t[p + 1]][2]))
    ELSE JBad
RECURSIVE JWord(_, _)
JWord(t, p) == IF p <= Len(t) /\ (Digit(t[p]) \/ Letter(t[p]) \/ t[p] \in {43, 45, 46}) THEN JWord(t, p + 1) ELSE p
Number(w) ==
    LET m == IF w # <<>> /\ w[1] = 45 THEN Tail(w) ELSE w
        d == Index(m, 46)
        i == IF d = 0 THEN m ELSE SubSeq(m, 1, d - 1)
        f == IF d = 0 THEN <<48>> ELSE SubSeq(m, d + 1, Len(m))
    IN  i # <<>> /\ f # <<>> /\ (\A x \in 1..Len(i) : Digit(i[x])) /\ (\A x \in 1..Len(f) : Digit(f[x])) /\ (i[1] = 48 => Len(i) = 1)
RECURSIVE JValue(_, _), JItems(_, _, _), JMembers(_, _, _)
JValue(t, p0) ==
    LET p == JSkip(t, p0) IN
    IF p > Len(t) THEN JBad
    ELSE IF JIs(t, p, "\"") THEN JString(t, p + 1, <<>>)
    ELSE IF JIs(t, p, "[") THEN
        LET q == JSkip(t, p + 1) IN IF JIs(t, q, "]") THEN [v |-> [j |-> "a", v |-> <<>>], p |-> q + 1] ELSE JItems(t, q, <<>>)
    ELSE IF JIs(t, p, "{") THEN
        LET q == JSkip(t, p + 1) IN IF JIs(t, q, "}") THEN [v |-> [j |-> "o", v |-> <<>>], p |-> q + 1] ELSE JMembers(t, q, <<>>)
    ELSE LET e == JWord(t, p)
             w == SubSeq(t, p, e - 1)
         IN  IF w \in {S("true"), S("false"), S("null")} THEN [v |-> [j |-> "l", v |-> w], p |-> e]
             ELSE IF Number(w) THEN [v |-> [j |-> "n", v |-> w], p |-> e]
             ELSE JBad
JItems(t, p, o) ==
    LET x == JValue(t, p)
        q == IF x.p = 0 THEN 0 ELSE JSkip(t, x.p)
    IN  IF q = 0 THEN JBad
        ELSE IF JIs(t, q, "]") THEN [v |-> [j |-> "a", v |-> Append(o, x.v)], p |-> q + 1]
        ELSE IF JIs(t, q, ",") THEN JItems(t, q + 1, Append(o, x.v))
        ELSE JBad
JMembers(t, p0, o) ==
    LET p == JSkip(t, p0)
        k == IF JIs(t, p, "\"") THEN JString(t, p + 1, <<>>) ELSE JBad
        c == IF k.p = 0 THEN 0 ELSE JSkip(t, k.p)
        x == IF c = 0 \/ ~JIs(t, c, ":") THEN JBad ELSE JValue(t, c + 1)
        q == IF x.p = 0 THEN 0 ELSE JSkip(t, x.p)
        more == SelectSeq(o, LAMBDA m : m[1] # k.v.v) \o <<<<k.v.v, x.v>>>>
    IN  IF q = 0 THEN JBad
        ELSE IF JIs(t, q, "}") THEN [v |-> [j |-> "o", v |-> more], p |-> q + 1]
        ELSE IF JIs(t, q, ",") THEN JMembers(t, q + 1, more)
        ELSE JBad
JParse(t) == LET x == JValue(t, 1) IN IF x.p > 0 /\ JSkip(t, x.p) > Len(t) THEN x.v ELSE JBad.v
JMember(o, key) == LET at == {i \in 1..Len(o.v) : o.v[i][1] = key} IN IF o.j # "o" \/ at = {} THEN JBad.v ELSE o.v[CHOOSE i \in at : TRUE][2]
=============================================================================
