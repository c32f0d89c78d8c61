------------------------------- MODULE JsLex -------------------------------
(* The lexical grammar of (module) scripts, as a machine reading one code      *)
(* point at a time. Lex(text) is                                               *)
(*   toks: a sequence of tokens [t, v, x, gap]; t is                           *)
(*     "nl" line terminator, "c" comment, "id" word, "num" number,             *)
(*     "str" string (v: its value, in UTF-16 units), "re" regular expression   *)
(*     (v: body, x: flags), "tpl" part of a template, "p" punctuator;          *)
(*     gap: not adjacent to the previous significant token                     *)
(*   err: "" if the text is in the supported part of the language              *)
EXTENDS Chars
WS == {9, 11, 12, 32, 160, 5760, 8239, 8287, 12288, 65279} \cup 8192..8202
NL == {10, 8232, 8233}
IdStart(c) == Letter(c) \/ c \in {36, 95} \/ (c >= 128 /\ c \notin WS \cup NL)
IdPart(c) == IdStart(c) \/ Digit(c)

\* words after which an operand, not an operator, follows
OperandWords == {S("await"), S("case"), S("default"), S("delete"), S("do"), S("else"), S("extends"), S("in"),
                 S("instanceof"), S("new"), S("of"), S("return"), S("throw"), S("typeof"), S("void"), S("yield")}
ConditionWords == {S("for"), S("if"), S("while"), S("with")}

LexInit == [m |-> "top", b |-> <<>>, h |-> <<>>, q |-> 0, ret |-> "", body |-> <<>>,
            subs |-> <<>>, conds |-> <<>>, toks |-> <<>>, gap |-> FALSE,
            op |-> FALSE, pt |-> "", pv |-> <<>>, err |-> ""]
Err(s, e) == [s EXCEPT !.m = "err", !.err = e]

\* ---- can an expression end with the token (so that a slash divides)?
EndsExpr(s, t, v) ==
    CASE t = "id" -> (s.pt = "p" /\ s.pv = S(".")) \/ v \notin OperandWords
      [] t = "tpl" -> v[Len(v)] = 96
      [] t \in {"num", "str", "re"} -> TRUE
      [] v = S(")") -> s.conds = <<>> \/ ~Last(s.conds)
      [] v = S("]") -> TRUE
      [] v \in {S("+"), S("-")} -> ~s.gap /\ s.pt = "p" /\ s.pv = v /\ ~s.op
      [] OTHER -> FALSE
Emit(s, t, v, x) ==
    [s EXCEPT !.m = "top", !.b = <<>>,
              !.toks = Append(@, [t |-> t, v |-> v, x |-> x, gap |-> s.gap]),
              !.gap = FALSE, !.op = EndsExpr(s, t, v), !.pt = t, !.pv = v,
              !.conds = IF t # "p" THEN @
                        ELSE IF v = S("(") THEN Append(@, s.pt = "id" /\ s.pv \in ConditionWords)
                        ELSE IF v = S(")") /\ @ # <<>> THEN Front(@) ELSE @]
Blank(s, t, v) == [s EXCEPT !.m = "top", !.b = <<>>, !.gap = TRUE,
                            !.toks = Append(@, [t |-> t, v |-> v, x |-> <<>>, gap |-> FALSE])]

Top(s, c) ==
    CASE c = EOF -> IF s.subs # <<>> THEN Err(s, "template") ELSE s
      [] c \in WS -> [s EXCEPT !.gap = TRUE]
      [] c \in NL -> Blank(s, "nl", <<>>)
      [] c \in {34, 39} -> [s EXCEPT !.m = "str", !.q = c]
      [] c = 96 -> [s EXCEPT !.m = "tpl", !.b = <<c>>]
      [] c = 47 -> [s EXCEPT !.m = "slash"]
      [] IdStart(c) -> [s EXCEPT !.m = "id", !.b = <<c>>]
      [] c = 92 -> [s EXCEPT !.m = "idesc"]
      [] Digit(c) -> [s EXCEPT !.m = "num", !.b = <<c>>]
      [] c = 125 /\ s.subs # <<>> /\ Last(s.subs) = 0 -> [s EXCEPT !.m = "tpl", !.b = <<c>>]
      [] c \in {123, 125} /\ s.subs # <<>> /\ ~(c = 125 /\ Last(s.subs) = 0) ->
            Emit([s EXCEPT !.subs[Len(s.subs)] = IF c = 123 THEN @ + 1 ELSE @ - 1], "p", <<c>>, <<>>)
      [] OTHER -> Emit(s, "p", <<c>>, <<>>)

Re(s, c) ==
    IF c = EOF \/ c \in NL THEN Err(s, "regex")
    ELSE LET a == [s EXCEPT !.b = Append(@, c)] IN
         CASE s.m = "reesc" -> [a EXCEPT !.m = "re"]
           [] s.m = "clsesc" -> [a EXCEPT !.m = "cls"]
           [] s.m = "cls" -> [a EXCEPT !.m = IF c = 92 THEN "clsesc" ELSE IF c = 93 THEN "re" ELSE "cls"]
           [] c = 92 -> [a EXCEPT !.m = "reesc"]
           [] c = 91 -> [a EXCEPT !.m = "cls"]
           [] c = 47 -> [s EXCEPT !.m = "flags", !.body = s.b, !.b = <<>>]
           [] OTHER -> [a EXCEPT !.m = "re"]
Slash(s, c) ==
    CASE c = 47 -> [s EXCEPT !.m = "line"]
      [] c = 42 -> [s EXCEPT !.m = "block"]
      \* after a block or an object literal only a parser can tell
      [] s.pt = "p" /\ s.pv = S("}") -> Err(s, "ambiguous slash")
      [] s.op -> Top(Emit(s, "p", <<47>>, <<>>), c)
      [] OTHER -> Re([s EXCEPT !.m = "re"], c)

Str(s, c) ==
    CASE c \in {EOF, LF} -> Err(s, "string")
      [] c = s.q -> Emit(s, "str", s.b, <<>>)
      [] c = 92 -> [s EXCEPT !.m = "esc"]
      [] OTHER -> [s EXCEPT !.b = @ \o Units(c)]
Simple == [c \in {C("n"), C("t"), C("r"), C("b"), C("f"), C("v")} |->
             CASE c = C("n") -> 10 [] c = C("t") -> 9 [] c = C("r") -> 13
               [] c = C("b") -> 8 [] c = C("f") -> 12 [] c = C("v") -> 11]
Esc(s, c) ==
    CASE c = EOF -> Err(s, "string")
      [] c \in NL -> [s EXCEPT !.m = "str"]
      [] c \in DOMAIN Simple -> [s EXCEPT !.m = "str", !.b = Append(@, Simple[c])]
      [] c = C("0") -> [s EXCEPT !.m = "esc0", !.b = Append(@, 0)]
      [] Digit(c) -> Err(s, "octal")
      [] c = C("x") -> [s EXCEPT !.m = "hex", !.h = <<>>]
      [] c = C("u") -> [s EXCEPT !.m = "uni", !.h = <<>>, !.ret = "str"]
      [] OTHER -> [s EXCEPT !.m = "str", !.b = @ \o Units(c)]
HexEsc(s, c) ==
    IF c = EOF \/ ~Hex(c) THEN Err(s, "hex escape")
    ELSE IF Len(s.h) = 1 THEN [s EXCEPT !.m = "str", !.b = Append(@, HexValue(Append(s.h, c)))]
    ELSE [s EXCEPT !.h = Append(@, c)]
Uni(s, c) ==
    IF s.m = "uni" /\ s.h = <<>> /\ c = 123 THEN [s EXCEPT !.m = "unib"]
    ELSE IF s.m = "unib" /\ c = 125
         THEN IF s.h = <<>> \/ HexValue(s.h) > 1114111 THEN Err(s, "code point")
              ELSE [s EXCEPT !.m = s.ret, !.b = @ \o (IF s.ret = "str" THEN Units(HexValue(s.h)) ELSE <<HexValue(s.h)>>)]
    ELSE IF c = EOF \/ ~Hex(c) THEN Err(s, "unicode escape")
    ELSE IF s.m = "uni" /\ Len(s.h) = 3 THEN [s EXCEPT !.m = s.ret, !.b = Append(@, HexValue(Append(s.h, c)))]
    ELSE [s EXCEPT !.h = Append(@, c)]

EmitTpl(s) ==
    LET open == Last(s.b) # 96
        first == s.b[1] = 96
        e == Emit(s, "tpl", s.b, <<>>)
    IN  CASE first /\ open -> [e EXCEPT !.subs = Append(@, 0)]
          [] ~first /\ ~open -> [e EXCEPT !.subs = Front(@)]
          [] OTHER -> e
Tpl(s, c) ==
    IF c = EOF THEN Err(s, "template")
    ELSE LET a == [s EXCEPT !.b = Append(@, c)] IN
         CASE s.m = "tplesc" -> [a EXCEPT !.m = "tpl"]
           [] c = 92 -> [a EXCEPT !.m = "tplesc"]
           [] c = 96 -> EmitTpl(a)
           [] c = 36 -> [a EXCEPT !.m = "dollar"]
           [] s.m = "dollar" /\ c = 123 -> EmitTpl(a)
           [] OTHER -> [a EXCEPT !.m = "tpl"]

Step(s, c) ==
    CASE s.m = "top" -> Top(s, c)
      [] s.m = "id" ->
            IF c = 92 THEN [s EXCEPT !.m = "idesc"]
            ELSE IF c # EOF /\ (IdPart(c) \/ c \in {8204, 8205}) THEN [s EXCEPT !.b = Append(@, c)]
            ELSE Top(Emit(s, "id", s.b, <<>>), c)
      [] s.m = "idesc" -> IF c = C("u") THEN [s EXCEPT !.m = "uni", !.h = <<>>, !.ret = "id"] ELSE Err(s, "backslash")
      [] s.m = "num" ->
            LET based == Len(s.b) > 1 /\ Letter(s.b[2]) /\ s.b[1] = C("0") /\ Lower(s.b[2]) # C("e")
                decimal == ~\E i \in 1..Len(s.b) : Letter(s.b[i]) \/ s.b[i] = C(".")
            IN  CASE Digit(c) \/ c = C("_") \/ c = C("n") -> [s EXCEPT !.b = Append(@, c)]
                  [] c = C(".") /\ decimal -> [s EXCEPT !.b = Append(@, c)]
                  [] Lower(c) = C("e") /\ ~based -> [s EXCEPT !.b = Append(@, c)]
                  [] s.b = S("0") /\ Lower(c) \in {C("x"), C("o"), C("b")} -> [s EXCEPT !.b = Append(@, c)]
                  [] based /\ Hex(c) -> [s EXCEPT !.b = Append(@, c)]
                  [] c # EOF /\ (IdPart(c) \/ c = 92) -> Err(s, "number")
                  [] OTHER -> Top(Emit(s, "num", s.b, <<>>), c)
      [] s.m = "slash" -> Slash(s, c)
      [] s.m \in {"re", "reesc", "cls", "clsesc"} -> Re(s, c)
      [] s.m = "flags" ->
            IF c # EOF /\ IdPart(c) THEN [s EXCEPT !.b = Append(@, c)]
            ELSE IF c = 92 THEN Err(s, "flags")
            ELSE Top(Emit(s, "re", s.body, s.b), c)
      [] s.m = "str" -> Str(s, c)
      [] s.m = "esc" -> Esc(s, c)
      [] s.m = "esc0" -> IF Digit(c) THEN Err(s, "octal") ELSE Str([s EXCEPT !.m = "str"], c)
      [] s.m = "hex" -> HexEsc(s, c)
      [] s.m \in {"uni", "unib"} -> Uni(s, c)
      [] s.m \in {"tpl", "tplesc", "dollar"} -> Tpl(s, c)
      [] s.m = "line" ->
            IF c = EOF \/ c \in NL THEN Top(Blank(s, "c", s.b), c) ELSE [s EXCEPT !.b = Append(@, c)]
      [] s.m = "block" ->
            IF c = EOF THEN Err(s, "comment")
            ELSE IF c = 47 /\ s.b # <<>> /\ Last(s.b) = 42 THEN Blank(s, "c", Front(s.b))
            ELSE [s EXCEPT !.b = Append(@, c)]
      [] OTHER -> s
Lex(text) == FoldLeft(Step, LexInit, Append(text, EOF))
=============================================================================
