------------------------------- MODULE CliMC -------------------------------
(* All short histories of a choice of command lines, and what should be true.  *)
EXTENDS Cli
VARIABLES last
Lines == {<<>>, <<"x", "Y">>, <<"n">>}
Where == {<<>>, <<<<"--folder">>, <<"B">>>>, <<<<"--folder", "B">>>>}
Bodies == {<<<<"init">>>>, <<<<"init">>, <<"--host", "example.org">>>>, <<<<"build">>>>, <<<<"build">>, <<"--dev">>>>,
           <<<<"build">>, <<"--delay-files">>, <<"x">>, <<"y">>, <<"--no-symlinks">>>>, <<<<"build">>, <<"--symlinks">>>>,
           <<<<"clean">>>>, <<<<"clean">>, <<"--placeholders">>>>, <<<<"clean">>, <<"--no-placeholders">>>>,
           <<<<"run">>, <<"--port">>, <<"P1">>>>, <<<<"dev">>, <<"--port", "P1">>>>, <<<<"dev">>, <<"--host">>>>, <<<<"make">>>>,
           <<<<"build">>, <<"--help">>>>, <<<<"--help">>>>, <<>>}
MInit == f = [d \in Folder |-> None] /\ last = [do |-> [c |-> "user"]]
MNext ==
    \/ \E b \in Bodies, w \in Where, in \in Lines, e \in BOOLEAN :
         LET o == [argv |-> b \o w, in |-> in, edit |-> e]
             p == Parse(o.argv)
         IN  /\ e => p.c \in {"run", "dev"}
             /\ in # <<>> => p.c = "clean"
             /\ \E r \in Outcomes(o) : f' = r.f /\ last' = [do |-> p, o |-> o, end |-> r.end, s |-> r.s]
    \/ \E d \in Folder, z \in {"write", "touch"} :
         LET u == [user |-> z, d |-> d] IN CanDo(u) /\ f' = Done(u) /\ last' = [do |-> [c |-> "user"]]
MSpec == MInit /\ [][MNext]_<<f, last>>
View == f
Cmd == last'.do.c # "user"
Is(c) == Cmd /\ last'.do.c = c
\* a command line that is not one changes nothing, and neither does one that fails
FailuresAreClean == [][Cmd /\ last'.end = "error" => f' = f]_<<f, last>>
UsageIsAnError == [][Is("usage") => last'.end = "error"]_<<f, last>>
\* a command changes the project it names, and no other
Elsewhere == [][Cmd => \A d \in Folder : f'[d] # f[d] => last'.do.val["--folder"] = d]_<<f, last>>
\* what the user wrote survives every command
EditedStays == [][Cmd => \A d \in Folder : f[d].gen = "edited" => f'[d].gen = "edited"]_<<f, last>>
OnlyIfAgreed == [][Cmd => \A d \in Folder : f[d].gen \in {"gen", "kept"} /\ f'[d].gen = "none" =>
                      Is("clean") /\ "--no-placeholders" \notin last'.do.flags
                      /\ ("--placeholders" \in last'.do.flags \/ (f[d].gen = "gen" /\ Answer(last'.o.in) \in {"y", "Y"}))]_<<f, last>>
HostStays == [][Cmd => \A d \in Folder : f[d].cfg # "none" => f'[d].cfg = f[d].cfg]_<<f, last>>
DevIsDev == [][Is("dev") /\ last'.end = "ok" => LET d == last'.do.val["--folder"] IN f'[d].site => f'[d].k = "dev" /\ last'.s.k = "dev"]_<<f, last>>
ProdIsDefault == [][Is("build") /\ last'.end = "ok" /\ "--dev" \notin last'.do.flags => LET d == last'.do.val["--folder"] IN f'[d].k # "dev"]_<<f, last>>
RunOnlyServes == [][Is("run") => f' = f]_<<f, last>>
CleanIsClean == [][Is("clean") /\ last'.end = "ok" => LET d == last'.do.val["--folder"] IN f'[d].k = "none" /\ f'[d].link = "none"]_<<f, last>>
=============================================================================
