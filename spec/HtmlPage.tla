------------------------------ MODULE HtmlPage ------------------------------
(* What publishing a page means: templates are expanded, canonical addresses    *)
(* completed, references to scripts and stylesheets of the site versioned and   *)
(* inline code moved to files of its own.                                       *)
EXTENDS HtmlLex, JsonText
DOT == 46
SLASH == 47
\* ---------------------------------------------------------------- paths
Dir(p) == LET at == {i \in 1..Len(p) : p[i] = SLASH} IN IF at = {} THEN <<>> ELSE SubSeq(p, 1, (CHOOSE i \in at : \A j \in at : j <= i) - 1)
\* without . and .. where they can be resolved
Normal(p) ==
    LET parts == FoldLeft(LAMBDA a, s :
            IF s = <<>> \/ s = <<DOT>> THEN a
            ELSE IF s = <<DOT, DOT>> /\ a # <<>> /\ Last(a) # <<DOT, DOT>> THEN SubSeq(a, 1, Len(a) - 1)
            ELSE Append(a, s), <<>>, SplitAt(p, SLASH))
    IN  IF parts = <<>> THEN <<>> ELSE Join(parts, <<SLASH>>)
\* the file a template command in file from names
TemplateFile(path, from) ==
    IF path # <<>> /\ path[1] = SLASH THEN Normal(S("src/partials/") \o Tail(path)) ELSE Normal(Dir(from) \o <<SLASH>> \o path)
Public == S("src/public/")
\* ---------------------------------------------------------------- commands
\* what the comment says behind the word: <<the text>> or <<>> if it's no such command
Args(t, word) ==
    LET a == LTrim(t, Ws)
        b == IF a # <<>> /\ a[1] = C("[") THEN LTrim(Tail(a), Ws) ELSE <<>>
        c == IF StartsWith(b, word) THEN LTrim(SubSeq(b, Len(word) + 1, Len(b)), Ws) ELSE <<>>
        d == IF c # <<>> /\ c[1] = C(":") THEN Tail(c) ELSE <<>>
        e == Reverse(LTrim(Reverse(d), Ws))
    IN  IF d # <<>> /\ d[1] \in Ws /\ e # <<>> /\ Last(e) = C("]") THEN <<SubSeq(e, 1, Len(e) - 1)>> ELSE <<>>
\* the arguments of such a command: a sequence of values beginning with a string, <<>> if there are none
Command(t, word) ==
    LET a == Args(t, word)
        v == IF a = <<>> THEN JBad.v ELSE JParse(a[1])
    IN  IF v.j = "a" /\ v.v # <<>> /\ v.v[1].j = "s" THEN v.v ELSE <<>>
Stack(t) == Command(t, S("STACK"))
Template(t) == Command(t, S("TEMPLATE"))
OneLine(t) == ~Has(Trim(t, Ws), 10)
\* a reference to a variable among the arguments of a template
IsReference(v) == v.j = "o" /\ JMember(v, S("type")) = [j |-> "s", v |-> S("variable")] /\ JMember(v, S("name")).j = "s"
Known(vars, name) == \E i \in 1..Len(vars) : vars[i][1] = name
Var(vars, name) == vars[CHOOSE i \in 1..Len(vars) : vars[i][1] = name][2]
Set(vars, name, v) == SelectSeq(vars, LAMBDA x : x[1] # name) \o <<<<name, v>>>>
\* ---------------------------------------------------------------- addresses
Scheme(u) ==
    LET c == Index(u, C(":")) IN c > 1 /\ Letter(u[1]) /\ \A i \in 1..(c - 1) : Letter(u[i]) \/ Digit(u[i]) \/ u[i] \in {43, 45, 46}
\* the address of the page at path (with its leading slash)
Canonical(host, path, given) ==
    LET site == S("https://") \o host
        u == IF given = <<>> THEN <<>> ELSE given[1]
        cut == Until(u, 1, {35, 63})
        rest == SubSeq(u, cut, Len(u))
        head == SubSeq(u, 1, cut - 1)
        dir == head # <<>> /\ (Last(head) = SLASH \/ EndsWith(head, S("/.")) \/ EndsWith(head, S("/..")) \/ head = S(".") \/ head = S(".."))
        normal == Normal(Dir(path) \o <<SLASH>> \o head)
        n == SplitAt(normal, SLASH)
        above == Cardinality({i \in 1..Len(n) : n[i] = <<DOT, DOT>>})
        \* nothing is above the root
        joined == IF normal = <<>> \/ above = Len(n) THEN <<>> ELSE Join(SubSeq(n, above + 1, Len(n)), <<SLASH>>)
    IN  IF given = <<>> THEN site \o path
        ELSE IF Scheme(u) THEN u
        ELSE IF StartsWith(u, S("//")) THEN S("https:") \o u
        \* a query or fragment alone, as nothing at all, is of the root of the site
        ELSE IF StartsWith(u, S("/")) \/ head = <<>> THEN site \o u
        ELSE site \o <<SLASH>> \o joined \o (IF dir /\ joined # <<>> THEN <<SLASH>> ELSE <<>>) \o rest
CanonicalAttr(k) ==
    IF k.k # "open" THEN <<>>
    ELSE IF k.n = S("link") /\ Value(k, S("rel")) = S("canonical") THEN S("href")
    ELSE IF k.n = S("meta") /\ Value(k, S("property")) = S("og:url") THEN S("content")
    ELSE <<>>
\* ---------------------------------------------------------------- references
ReferenceAttr(k) ==
    IF k.k # "open" THEN <<>>
    ELSE IF k.n = S("link") /\ Value(k, S("rel")) \in {S("stylesheet"), S("preload")} THEN S("href")
    ELSE IF k.n = S("script") THEN S("src")
    ELSE <<>>
\* a path from the root of the site
Local(u) == Len(u) > 1 /\ u[1] = SLASH /\ u[2] # SLASH /\ ~Has(u, 35) /\ ~Has(u, 63)
\* ---------------------------------------------------------------- inline code
ScriptTypes == {<<>>, S("module"), S("text/javascript"), S("application/javascript"), S("text/ecmascript"), S("application/ecmascript"), S("application/x-javascript"), S("application/x-ecmascript"), S("text/x-ecmascript"), S("text/x-javascript")}
Inline(k) ==
    \/ k.k = "open" /\ k.n = S("style")
    \/ k.k = "open" /\ k.n = S("script") /\ ~HasAttr(k, S("src")) /\ LowerText(Trim(Value(k, S("type")), Ws)) \in ScriptTypes
\* ---------------------------------------------------------------- the page
Push == Tok("push", <<>>, {}, <<>>)
Pop == Tok("pop", <<>>, {}, <<>>)
Item(is, tok, text) == [is |-> is, tok |-> tok, text |-> text]
As(k) == Item("as is", k, <<>>)
\* env: [path: of the page, host, files: of the project (path :> text), query: of published files
\* (path :> text)]. st: [file, vars, below: what's below on the stack, o: items, deps, why: it fails]
RECURSIVE Walk(_, _, _)
Walk(q, st, env) ==
    IF st.why # "" THEN st
    ELSE IF q = <<>> THEN (IF st.below = <<>> THEN st ELSE [st EXCEPT !.why = "open: the stack isn't empty"])
    ELSE
    LET k == Head(q)
        rest == Tail(q)
        stack == IF k.k = "comment" THEN Stack(k.t) ELSE <<>>
        template == IF k.k = "comment" THEN Template(k.t) ELSE <<>>
        canonical == CanonicalAttr(k)
        ref == ReferenceAttr(k)
        Out(item) == [st EXCEPT !.o = Append(@, item)]
        Fails(why) == [st EXCEPT !.why = why]
    IN
    IF stack # <<>> THEN
        CASE ~OneLine(k.t) -> Fails("open: command on several lines")
          [] stack[1].v = S("push") /\ Len(stack) > 1 /\ stack[2].j = "s" ->
                Walk(rest, [st EXCEPT !.file = TemplateFile(stack[2].v, st.file), !.vars = <<>>, !.below = <<[file |-> st.file, vars |-> st.vars]>> \o @], env)
          [] stack[1].v = S("pop") ->
                IF st.below = <<>> THEN Fails("open: the stack is empty")
                ELSE Walk(rest, [st EXCEPT !.file = st.below[1].file, !.vars = st.below[1].vars, !.below = Tail(@)], env)
          [] stack[1].v = S("define") /\ Len(stack) = 3 /\ stack[2].j = "s" ->
                Walk(rest, [st EXCEPT !.vars = Set(@, stack[2].v, stack[3])], env)
          [] stack[1].v = S("retrieve") /\ Len(stack) = 2 /\ stack[2].j = "s" ->
                IF ~Known(st.vars, stack[2].v) THEN Fails("undefined variable")
                ELSE LET v == Var(st.vars, stack[2].v) IN
                     IF v.j = "l" THEN Fails("open: value")
                     ELSE IF v.j \notin {"s", "n"} THEN Fails("no text")
                     ELSE Walk(rest, Out(As(Text(v.v))), env)
          [] OTHER -> Walk(rest, st, env) \* not understood: nothing
    ELSE IF template # <<>> THEN
        LET file == TemplateFile(template[1].v, st.file)
            within == st.file = file \/ \E i \in 1..Len(st.below) : st.below[i].file = file
            args == IF Len(template) = 1 \/ template[2].j # "o" THEN <<>> ELSE template[2].v
            Given(v) == IF IsReference(v) /\ Known(st.vars, JMember(v, S("name")).v) THEN Var(st.vars, JMember(v, S("name")).v) ELSE v
            vars == E([i \in 1..Len(args) |-> <<args[i][1], Given(args[i][2])>>])
        IN
        IF Len(template) > 1 /\ template[2].j # "o" THEN Walk(rest, st, env) \* not understood: nothing
        ELSE IF within THEN Fails("template within itself")
        ELSE IF file \notin DOMAIN env.files THEN Fails("missing partial")
        ELSE Walk(Lex(env.files[file]) \o <<Pop>> \o rest,
                  [st EXCEPT !.file = file, !.vars = vars, !.below = <<[file |-> st.file, vars |-> st.vars]>> \o @, !.deps = @ \cup {IF StartsWith(file, Public) THEN SubSeq(file, Len(Public), Len(file)) ELSE file}], env)
    ELSE IF k.k = "pop" THEN
        (IF st.below = <<>> THEN Fails("open: the stack is empty")
         ELSE Walk(rest, [st EXCEPT !.file = st.below[1].file, !.vars = st.below[1].vars, !.below = Tail(@)], env))
    ELSE IF canonical # <<>> THEN
        LET given == IF HasAttr(k, canonical) THEN <<Value(k, canonical)>> ELSE <<>> IN
        Walk(rest, Out(As([k EXCEPT !.a = Without(k, canonical) \cup {<<canonical, Canonical(env.host, env.path, given)>>}])), env)
    ELSE IF Inline(k) THEN
        LET has == rest # <<>> /\ rest[1].k = "text"
            text == IF has THEN rest[1].t ELSE <<>>
        IN  Walk(IF has THEN SubSeq(rest, 3, Len(rest)) ELSE Tail(rest),
                 Out(Item(IF k.n = S("style") THEN "style" ELSE "script", k, text)), env)
    ELSE IF ref # <<>> /\ HasAttr(k, ref) /\ Local(Value(k, ref)) THEN
        LET u == Value(k, ref) IN
        IF u \notin DOMAIN env.query THEN Fails("missing file")
        ELSE Walk(rest, [Out(As([k EXCEPT !.a = Without(k, ref) \cup {<<ref, u \o env.query[u]>>}])) EXCEPT !.deps = @ \cup {u}], env)
    ELSE Walk(rest, Out(As(k)), env)
Expand(env) ==
    LET file == S("src/public") \o env.path IN
    Walk(Lex(env.files[file]), [file |-> file, vars |-> <<>>, below |-> <<>>, o |-> <<>>, deps |-> {}, why |-> ""], env)
\* ---------------------------------------------------------------- the encoding is stated
Utf8 == S("utf-8")
IsMeta(k) == k.k = "open" /\ k.n = S("meta")
States(k) == IsMeta(k) /\ (HasAttr(k, S("charset")) \/ (LowerText(Value(k, S("http-equiv"))) = S("content-type") /\ HasAttr(k, S("content"))))
Stated(k) ==
    IF ~States(k) THEN k
    ELSE IF HasAttr(k, S("charset")) THEN [k EXCEPT !.a = Without(k, S("charset")) \cup {<<S("charset"), Utf8>>}]
    ELSE [k EXCEPT !.a = Without(k, S("content")) \cup {<<S("content"), S("text/html; charset=utf-8")>>}]
WithEncoding(items) ==
    LET in == {i \in 1..Len(items) : items[i].tok.k = "close" /\ items[i].tok.n = S("head")}
        end == IF in = {} THEN Len(items) ELSE CHOOSE i \in in : \A j \in in : i <= j
        found == \E i \in 1..end : items[i].is = "as is" /\ States(items[i].tok)
        each == E([i \in 1..Len(items) |-> IF items[i].is = "as is" THEN [items[i] EXCEPT !.tok = Stated(@)] ELSE items[i]])
        At0 == {i \in 1..Len(items) : items[i].tok.k = "open" /\ items[i].tok.n = S("head")}
    IN  IF found \/ At0 = {} THEN each
        ELSE LET h == CHOOSE i \in At0 : \A j \in At0 : i <= j
             IN  SubSeq(each, 1, h) \o <<As(Open(S("meta"), {<<S("charset"), Utf8>>}))>> \o SubSeq(each, h + 1, Len(each))
JoinedItems(items) ==
    FoldLeft(LAMBDA a, x :
        IF x.is # "as is" \/ x.tok.k # "text" THEN Append(a, x)
        ELSE IF x.tok.t = <<>> THEN a
        ELSE IF a # <<>> /\ Last(a).is = "as is" /\ Last(a).tok.k = "text" THEN [a EXCEPT ![Len(a)].tok.t = @ \o x.tok.t]
        ELSE Append(a, x), <<>>, items)
\* what looks like a comment in an element of text is text
Flat(ks) ==
    FoldLeft(LAMBDA a, k :
        [o |-> Append(a.o, IF a.in /\ k.k = "comment" THEN Text(S("<!--") \o k.t \o S("-->")) ELSE k),
         in |-> IF k.k = "open" THEN k.n \in RcData ELSE IF k.k = "close" THEN FALSE ELSE a.in], [o |-> <<>>, in |-> FALSE], ks).o
FlatItems(items) ==
    LET ks == Flat(E([i \in 1..Len(items) |-> items[i].tok])) IN E([i \in 1..Len(items) |-> [items[i] EXCEPT !.tok = ks[i]]])
Published(text) == Joined(Flat(Lex(text)))
Wanted(st) == WithEncoding(JoinedItems(FlatItems(st.o)))
=============================================================================
