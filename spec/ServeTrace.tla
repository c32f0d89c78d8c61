----------------------------- MODULE ServeTrace -----------------------------
(* Recorded requests judged by Serve. An answer has: status; body: the number   *)
(* of the published content it carries, 0 for an empty one, or -1 for anything   *)
(* else; secret: does it carry content that is not published?; loc: redirected    *)
(* to the same path with a slash?; right: does the type go with the name of the    *)
(* file found?; cond: did the client say what it has?                            *)
EXTENDS Serve, Json, SequencesExt, Integers
SimPath == {<<"index.html">>, <<"404.html">>, <<"a.js">>, <<"a.images.js">>, <<"sp.css">>, <<"uni.txt">>, <<"noext">>,
            <<"d">>, <<"d", "index.html">>, <<"d", "b.css">>, <<"d", "e", "img.webp">>, <<"d", "d", "p.svg">>,
            <<"e", "c.html">>, <<"www", "index.html">>}
SimRoot == <<"out", "www">>
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
R == Trace[l]
Matches(a) ==
    CASE a.k = "file" ->
           \/ R.status = 200 /\ R.right /\ R.body = IF R.head THEN 0 ELSE tree[a.p]
           \/ R.cond /\ R.status = 304 /\ R.body = 0 /\ cache[a.p] = tree[a.p]
      [] a.k = "slash" -> R.status \in {301, 302, 307, 308} /\ R.loc
      [] OTHER -> R.status >= 400 /\ R.body \in {0, -1, IF IsFile(<<"404.html">>) THEN tree[<<"404.html">>] ELSE -1}
TReset == R.op = "reset" /\ tree' = [p \in Path |-> 0] /\ cache' = [p \in Path |-> 0]
TPut == R.op = "put" /\ Put(R.p, R.c)
TGet ==
    /\ R.op = "get"
    /\ ~R.secret
    /\ \E a \in Answers(R.segs, R.slash) :
         /\ Matches(a)
         /\ UNCHANGED tree
         /\ cache' = IF a.k = "file" /\ ~R.head THEN [cache EXCEPT ![a.p] = tree[a.p]] ELSE cache
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TReset \/ TPut \/ TGet)
TSpec == TInit /\ [][TNext]_<<vars, l>>
AllRead == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
