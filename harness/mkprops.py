import json
V="vanillaplusjs/"
H=V+"build/html/manips/"; C=V+"build/css/"; J=V+"build/js/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
hot=V+"build/hot_incremental_rebuild.py"; cold=V+"build/cold_incremental_rebuild.py"; graph=V+"build/graph.py"; dev=V+"runners/dev.py"
bld=V+"runners/build.py"
p("B01","Incremental builds publish what a clean build would publish",
 "After any history of file additions, edits, deletions, restorations and builds, a successful build leaves out/www with exactly the files, and exactly the contents, that building the same sources from scratch would leave there (up to the numbering of image variants). This holds for every order in which the parallel build workers finish, with and without symlinks, and with or without the artifacts folder retained.",
 ["histories","schedules","configurations"],
 "All edit/build histories over a project, all worker completion orders, symlink and copy mode, retained or missing artifacts.",
 "The tests run at most a handful of two-step histories on one project and one nondeterministic schedule; they never compare against a from-scratch build.",
 [hot,cold,graph,V+"build/handlers/copy.py",V+"build/handlers/hash.py"],
 [("change detection by signature",cold),("transitive rebuild over dependency and placeholder graphs",hot),("dirtying of outputs before rebuild",hot)],
 [("dependency/output/placeholder graphs","persisted between builds",hot)],["out/www after each successful build"])
p("B02","Published version parameters always identify the bytes that are served",
 "After every successful build, each cache-busting version that a published page, script or stylesheet attaches to a local URL it versions equals the digest of the file currently published at that URL, and the recorded digest of every published file equals the digest of its current bytes. This is transitive: changing a file changes the version of every published file that references it, directly or through other files.",
 ["histories","schedules","inputs"],
 "All reference graphs, edit histories and schedules.",
 "Tests check a few fixed hashes on single-edit histories; staleness depends on the reference graph, the edit history and the order in which files finish.",
 [hot,V+"build/handlers/hash.py",H+"link_hash.py",J+"manips/hash_imports.py",C+"manips/version_urls.py",H+"outline.py"],
 [("digest files written next to outputs",V+"build/handlers/hash.py"),("dependents rebuilt after their dependencies",hot)],
 [],["?v= parameters and .hash files in out/www"])
p("B03","Dependencies are built first and no output has two concurrent writers",
 "Under every order of worker completions, a file is only handed to a worker after every file it depends on that is part of the same build has finished, and two files that would write the same not-yet-available output are never in progress at the same time. Every file that needs rebuilding is built exactly once per build, and files that do not need rebuilding are not built.",
 ["schedules","histories","inputs"],
 "All dependency graphs, shared outputs and completion orders.",
 "Tests observe one arbitrary schedule per run and cannot see an ordering violation that happens to be harmless in that schedule.",
 [hot,V+"build/build_file.py"],
 [("readiness loop over dependencies and pending outputs",hot)],
 [("pending and finished work of a build","",hot)],["work submitted to and completed by the worker pool"])
p("B04","Outputs live exactly as long as a source still produces them",
 "When a source file is deleted, renamed or stops producing an output, the published output disappears with the next successful build unless another existing source still produces it, in which case it stays; folders emptied this way are removed. A build never deletes, truncates or rewrites a file in the source folder, apart from managed external files and temporary files it created itself.",
 ["histories","schedules"],
 "All histories of deletions, renames and edits over projects in which several sources share outputs.",
 "Tests delete one unshared file in isolation; lifetimes of shared outputs depend on the history and on which sharers are rebuilt.",
 [hot],
 [("output graph with several producers per output",hot),("deferred cleaning of expensive artifacts",hot),("empty folder removal",hot)],
 [],["out/ and artifacts/ after each successful build","src/ before and after"])
p("B05","Nothing to do means nothing done, and unaffected outputs are untouched",
 "A build of an unchanged project in the same mode writes, removes and rewrites nothing under out/www, artifacts or src. A build after an edit leaves every published file untouched on disk unless its source, or something its source depends on directly or indirectly, was changed.",
 ["histories","inputs"],
 "All projects and all edit histories.",
 "Tests do not watch file identities or modification times of unaffected outputs.",
 [hot,cold],[("signature comparison",cold),("rebuild set limited to transitive dependents",hot)],[],["inode and mtime of published files"])
p("B06","Persisted build bookkeeping describes the project truthfully",
 "After every successful build the stored bookkeeping lists exactly the existing source files with their current signatures, the direct dependencies each really has, and the outputs each really produces, and every listed output exists on disk. Edges are recorded consistently from both ends and reloading the bookkeeping loses nothing.",
 ["histories","schedules"],
 "All edit/build histories, including histories that share outputs, and all schedules.",
 "Tests do not inspect the stored graphs after multi-step histories.",
 [hot,graph],[("graph construction at the end of a build",hot)],[("dependency, output and placeholder graph files","",hot)],["out/dependency_graph.json","out/output_graph.json","out/placeholder_graph.json"])
p("B07","Dependency cycles are reported and never hang or corrupt a build",
 "For every dependency relation, a build terminates: it succeeds if the relation is acyclic, and if the files being built contain a cycle the build stops with a cyclic dependency error instead of hanging or publishing a success. After the cycle is edited away the next build succeeds with the same result as a clean build.",
 ["inputs","schedules","histories"],
 "All dependency relations, including cycles introduced by edits, and all schedules.",
 "Tests contain no cyclic project; termination is a property of every relation and schedule.",
 [hot,graph],[("stuck detection in the scheduler",hot),("cycle prevention when storing graphs",graph)],[],["outcome of a build"])
p("B08","A failed or killed build never poisons later builds",
 "If a build fails because of any source error, or is killed at any point, then once the sources are valid the next build succeeds without manual cleaning and publishes exactly what a from-scratch build would publish. This holds even if files were edited, deleted or restored between the interrupted build and the next one.",
 ["crash_points","fault_sequences","histories"],
 "All failure points, all kill points between file system operations of a build, and all edits before the retry.",
 "Tests never interrupt a build or continue after a failed one.",
 [hot,cold,bld,V+"build/handlers/copy.py",V+"build/handlers/hash.py"],
 [("outputs are reused only if known to be current",V+"build/build_file.py"),("graphs are stored after the build",hot)],[],["out/www after the retry"])
p("B09","A change of the settings reaches everything that depends on it",
 "After vanillaplusjs.json changes (host, script constants, image settings, icon settings), the next build - of whatever else changed, after whatever earlier builds, also failed or killed ones - publishes exactly what a build from scratch with the new settings would, and never a mixture of files produced with different settings; while the settings stay the same nothing is rebuilt because of them.",
 ["histories","crash_points"],
 "All sequences of edits, settings and builds.",
 "Tests build every project with one configuration only.",
 [hot,cold,bld,V+"build/incomplete_build.py"],
 [("outputs produced with other settings are discarded",V+"build/incomplete_build.py")],[],["out/www after each build"])

p("G01","Graph edits keep both directions of every edge and reject bad edits intact",
 "Under any sequence of adding files, removing files and replacing a file's dependencies, each dependency edge is visible from both of its ends with the same multiplicity and the set of files and dependencies is exactly what the accepted operations imply. An operation that names an unknown file, re-adds a known one, removes a connected file without permission, or would close a cycle when cycles are to be prevented is rejected with a ValueError and changes nothing.",
 ["histories","inputs"],
 "All operation sequences over small sets of files.",
 "Tests replay a few fixed sequences; the invariant ranges over every sequence, including rejected operations.",
 [graph],[("symmetric updates of parent and child lists",graph),("validation before mutation",graph)],[("adjacency lists","children and parents of each file",graph)],["neighbour queries after each operation"])
p("G02","Graph queries and persistence are faithful for every graph, cyclic ones included",
 "For every graph and every pair of files, the direct relation query answers from the edges between the two files and the nested query answers from reachability in each direction, reporting mutual reachability as cyclic. Storing and reloading a graph yields an equal graph, and graphs differing in any file, signature or edge compare unequal.",
 ["inputs","histories"],
 "All directed graphs over a small number of files, self-consistent signatures included.",
 "Tests query a few hand-made graphs; cycles longer than two and all pairs are not covered.",
 [graph],[("breadth-first reachability",graph),("store/load",graph),("structural equality",graph)],[],["query results","reloaded graph"])
p("D01","The dev watcher never loses a change",
 "For every order of file system notifications and rebuilds, including notifications that arrive while a rebuild runs, once notifications stop and the sources are valid a rebuild is performed whose changed, added and deleted files bring the published site to the current state of the sources. Creating, modifying, deleting, moving and replacing files are all covered, and a failed rebuild's changes are retried together with later ones.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of notifications, debounce expiry, rebuild start, rebuild success and rebuild failure.",
 "There are no tests of the watcher at all.",
 [dev],[("deleted/changed/created sets",dev),("restoring sets after a failure",dev)],[("pending change sets","",dev)],["arguments of each rebuild","published site after the rebuild"])
p("D02","The dev watcher debounces, does not spin on failure, and survives errors",
 "A rebuild starts only when there are pending changes and none arrived within the debounce interval, and a rebuild consumes the changes it was given. After a failed rebuild nothing is rebuilt until another change arrives, and no sequence of file events or failing builds makes the watcher itself raise.",
 ["schedules","fault_sequences","inputs"],
 "All event timings relative to the debounce interval, all rebuild outcomes.",
 "There are no tests of the watcher at all.",
 [dev],[("last change time and unbuildable flag",dev)],[],["when rebuilds start"])
p("P01","Generated placeholders never overwrite user files and follow their generator",
 "An image list in the source folder gets an adjacent generated script placeholder if and only if generation is enabled and no such script exists; an existing script at that place is never modified, whoever wrote it. The published script always holds the generated metadata and never the placeholder's text, and scripts that import it are republished, with a matching version, whenever the image list changes.",
 ["histories","configurations","schedules"],
 "All histories of adding, editing and deleting image lists, placeholders and importers, with generation on or off.",
 "Tests build one image list once.",
 [V+"build/handlers/image_glue.py",hot],[("placeholder graph",hot),("ignoring the placeholder's content",V+"build/handlers/image_glue.py")],[],["src/**/*.images.js","out/www/**/*.images.js"])
p("E01","External files are installed only with the declared digest",
 "A build leaves a file at an external file's path only if its digest is the declared one, and downloads exactly when the present file is missing or has another digest. A download that fails or has the wrong digest fails the build without replacing what was there and without leaving temporary files behind.",
 ["inputs","fault_sequences","histories"],
 "All combinations of present/missing/corrupt files, server answers (good, wrong content, error status) and declared digests.",
 "The only test needs the public network and covers the successful first download.",
 [cold],[("digest check before and after download",cold),("temporary file and rename",cold)],[("external file state","",cold)],["the external file","requests seen by the server"])
p("E02","External file bookkeeping follows the configuration",
 "Across builds in which external files are declared, redeclared with another digest, edited locally or no longer declared, each build restores every declared file, removes files that stopped being declared, and keeps working on later builds. A file whose signature and declaration are unchanged is neither downloaded nor rewritten.",
 ["histories","configurations"],
 "All histories of configuration changes, local edits and builds.",
 "No test changes the set of external files between builds.",
 [cold],[("stored state per external file",cold),("removal of undeclared files",cold)],[],["files on disk, requests, state file"])
p("K01","Published constants match the mode of the last build",
 "Whatever sequence of development and production builds, failed ones included, precedes it, a successful build publishes the constants file with exactly the shared values overridden by the values of its own mode, each as a script literal denoting the configured value. Everything that imports the constants carries the matching version, and without a constants source file nothing is published for it.",
 ["histories","inputs","configurations"],
 "All sequences of builds in both modes, with failures in between, and all constant values.",
 "Tests build each mode in a fresh folder with a few string values.",
 [hot,V+"build/handlers/js_constants.py",V+"build/build_context.py"],[("recorded mode",hot),("literal serialisation",V+"build/handlers/js_constants.py")],[("mode of the last build","",hot)],["published constants file and its importers"])
p("L01","Clean removes generated files and only those",
 "Cleaning removes the output and artifact folders completely, removes source placeholders if and only if asked to and only those that were generated by the tool and not edited or replaced since, and leaves every other file byte-for-byte as it was. Cleaning succeeds from any state a project can be in and the next build is equivalent to a first build.",
 ["histories","configurations"],
 "All project states reachable by edits, builds, failed builds and earlier cleans; both placeholder choices.",
 "Tests clean a freshly built project only.",
 [V+"runners/clean.py"],[("placeholder graph lookup",V+"runners/clean.py")],[],["project folder before and after"])
p("L02","Init creates what is missing and never overwrites",
 "Initialising any folder creates the missing parts of the project skeleton and configuration and leaves every existing file unchanged. Initialising twice changes nothing more, and an initialised project builds.",
 ["inputs","histories"],
 "All subsets of the skeleton already present, with arbitrary contents.",
 "Tests initialise an empty folder.",
 [V+"runners/init.py"],[("existence checks",V+"runners/init.py")],[],["project folder before and after"])
p("S01","The server serves exactly the published files",
 "The web server answers a request that names a published file (however its path is written: percent-encoded, with empty and dot segments, with a query) with the current contents of that file and a type fit for its name, also if the file is published as a symlink; one that names a published folder with an index.html, with that file at the path with the final slash and a redirect there without it; and every other request - above all those that lead outside the published folder - with an error that reveals nothing but the published 404.html. A client that revalidates is told that nothing changed only if what it has is current.",
 ["inputs","histories"],
 "All published trees, all requests, and all histories of publishing and requesting.",
 "Tests request a few pages.",
 [V+"http_server.py",V+"runners/run.py"],[("path lookup",V+"http_server.py"),("the folder served",V+"runners/run.py")],[],["responses"])
p("C01","CSS nesting commands expand to exactly the imported declarations",
 "An import command in a rule is replaced by all declarations of the named selector's rule, resolved recursively, from the same file, the default stylesheet or the named file, in order and nothing else changes in the stylesheet. The importing stylesheet depends on the file it imports from, and missing or circular imports are reported as errors rather than expanded wrongly. (What an import of a selector with several rules means is left open; it may be reported.)",
 ["inputs","programs"],
 "All small systems of stylesheets and import commands, including chains and imports across files.",
 "Tests expand a few fixed examples.",
 [C+"manips/nest.py"],[("selector lookup and recursive expansion",C+"manips/nest.py")],[],["published stylesheet"])
p("C02","Icon commands generate exactly the requested classes and files",
 "An icon command generates one class and one recoloured file per requested colour and size, plus button classes per size unless suppressed (with files for the colours the buttons use), and nothing else; each generated file is the source icon with the declared source colour replaced by the class's colour. Wildcards expand to all colours and sizes declared in the :root rule of the default stylesheet; colours which are declared nowhere give no classes.",
 ["inputs","configurations"],
 "All combinations of colours, sizes, wildcards and button options.",
 "Tests build two fixed examples.",
 [C+"manips/icons/manip.py",C+"manips/icons/settings.py",C+"manips/icons/parser.py"],[("settings from custom properties",C+"manips/icons/settings.py"),("class and file generation",C+"manips/icons/manip.py")],[],["published stylesheet and icon files"])
p("C03","Data images in stylesheets are published as files with the same bytes",
 "Every image data URL in a stylesheet is replaced by a versioned URL of a published file whose bytes are the ones the data URL denotes, whichever encoding it uses. Equal content or not, no two different images share a file and no other URL is changed.",
 ["inputs"],
 "All data URLs (percent-encoded, base64, with parameters) in any position.",
 "Tests use one utf8 svg example.",
 [C+"manips/outline_image_data.py"],[("decoding and naming of outlined images",C+"manips/outline_image_data.py")],[],["published image files"])
p("C04","Local URLs in stylesheets get a version, everything else is left alone",
 "Every local url() in a published stylesheet, quoted or not - a path from the root of the site - carries the version of the file it names and makes the stylesheet depend on that file. Relative, absolute, protocol-relative, data and already versioned URLs, and all other text, are left as they are, and a fragment is preserved.",
 ["inputs"],
 "All URL forms a stylesheet can contain.",
 "Tests use a single form.",
 [C+"manips/version_urls.py"],[("url classification and rewriting",C+"manips/version_urls.py")],[],["published stylesheet"])
p("C05","Stylesheets mean the same after publishing",
 "Apart from the commands and URLs it is documented to rewrite, publishing a stylesheet preserves its token sequence: identifiers, strings, numbers, dimensions, urls, punctuation and comments come out denoting the same values. Publishing the published stylesheet again changes nothing further.",
 ["inputs"],
 "All stylesheets over the supported CSS token syntax, escapes and numbers included.",
 "Tests compare a few hand-written stylesheets.",
 [C+"tokenizer.py",C+"serializer.py"],[("tokenizer",C+"tokenizer.py"),("serializer",C+"serializer.py")],[],["published stylesheet"])
p("J01","Scripts mean the same after publishing",
 "Apart from documented rewriting of imports, comments and type hints, publishing a script preserves its token sequence: names, numbers, punctuation, line structure, regular expressions and the values of string literals are unchanged. A slash is treated as a regular expression or a division exactly as the language requires in the supported syntax.",
 ["inputs","programs"],
 "All scripts over the supported token syntax.",
 "Tests compare a few hand-written scripts.",
 [J+"tokenizer.py",J+"serializer.py"],[("tokenizer",J+"tokenizer.py"),("serializer",J+"serializer.py")],[],["published script"])
p("J02","Exactly the local module imports are versioned",
 "Every static import or re-export of a local module, in any of its syntactic forms, has its specifier resolved and extended by the version of the imported file, and the importing file depends on it. Dynamic expressions, remote modules, comments and strings that merely look like imports are unchanged.",
 ["inputs","programs"],
 "All import and export forms with relative and absolute specifiers, and look-alikes.",
 "Tests cover a few import forms.",
 [J+"manips/hash_imports.py"],[("import statement recognition",J+"manips/hash_imports.py")],[],["published script","recorded dependencies"])
p("J03","Type-hint lines are commented out and nothing else is",
 "Exactly the lines marked by a type-hint comment are turned into comments, whatever surrounds them, and all other lines keep their meaning. The marked line cannot terminate the comment it is placed in.",
 ["inputs","programs"],
 "All arrangements of marked, unmarked, blank and comment lines.",
 "Tests have a few arrangements.",
 [J+"manips/type_hints.py",J+"yield_manipulator.py"],[("line buffering",J+"manips/type_hints.py")],[],["published script"])
p("H01","Templates expand recursively with properly scoped variables",
 "A template command is replaced by the expanded partial, recursively, and a variable reference by the value the variable last got in the same file: a partial sees the variables passed to it and those it defines itself, neither those of the file including it (unless forwarded with a variable reference as argument) nor those of partials it includes. Paths are below src/partials or relative to the file the command is in. Comments which are no commands stay as they are. Using an undefined variable or a missing partial fails the build, and the page depends on every partial it includes.",
 ["inputs","programs"],
 "All small systems of pages and partials with definitions, arguments and references.",
 "Tests expand three fixed pages.",
 [H+"template.py"],[("variable stack",H+"template.py")],[("stack of scopes","",H+"template.py")],["published page"])
p("H02","Published pages contain no inline code and lose none of it",
 "Every inline script (of a type that is executed) and stylesheet of a page is published as its own file holding the processed content and is replaced by a versioned reference at the same place with the original attributes kept. No two inline blocks of a site share a file, the published page contains no inline script or style, data blocks such as application/ld+json stay in the page as they are, and the source folder is left as it was.",
 ["inputs","programs"],
 "All arrangements of inline and external scripts and styles in any number of pages.",
 "Tests outline one block per page.",
 [H+"outline.py"],[("numbered generated files per page",H+"outline.py")],[],["published page and generated files"])
p("H03","Canonical URLs are absolute and correct",
 "A canonical link or og:url tag without a target gets the configured host's URL of the page itself, one with a local target gets the host's URL of that target (relative paths resolved against the page; an empty target, query or fragment alone is of the root of the site), and one that is already absolute is unchanged. Other links and metadata are unchanged.",
 ["inputs","configurations"],
 "All page locations, target forms and hosts.",
 "Tests use three pages.",
 [H+"link_rel_canonical.py"],[("url construction",H+"link_rel_canonical.py")],[],["published page"])
p("H04","Local scripts, stylesheets and preloads in pages are versioned",
 "Every script source, stylesheet link and preload link of a page that is a path from the root of the site (without query or fragment) carries the version of the file it names, with other attributes kept, and makes the page depend on that file. Remote references, already versioned ones and other elements are unchanged.",
 ["inputs"],
 "All element, attribute and URL forms.",
 "Tests use one element per page.",
 [H+"link_hash.py",H+"link_rel_stylesheet_hash.py"],[("element classification and rewriting",H+"link_hash.py")],[],["published page"])
p("H05","Image commands become markup that matches the exported files",
 "Each image command in a page is replaced by one picture element that offers every exported format and resolution, each URL naming a published file of exactly the stated size that shows that image, with the default format as fallback and the requested size and loading choice. Nothing else in the page changes. Building the page again finds the files and produces the same page, and the files it makes are those foreseen by scanning it.",
 ["inputs","configurations"],
 "All commands and image configurations.",
 "Tests build two fixed commands.",
 [H+"images/manip.py",H+"images/exporter.py"],[("markup generation",H+"images/manip.py")],[],["published page and image files"])
p("I01","Image variants get unique stable numbers, also under concurrency",
 "Requests for variants of the same image made by any number of concurrent workers never give two different variants the same number, and a completed variant of unchanged content and settings is found again under its number instead of being produced again. A variant of different image content, different settings or different export configuration is never reused.",
 ["schedules","histories","crash_points"],
 "All interleavings of lookups and reservations by several workers, and all later histories.",
 "Tests reserve one variant at a time.",
 [H+"images/metadata.py"],[("counter under an inter-process lock",H+"images/metadata.py"),("metadata and placeholder records",H+"images/metadata.py")],[("counter and records per image","",H+"images/metadata.py")],["artifacts folder"])
p("I02","The exported image candidate is the one the configuration prefers",
 "For every format and resolution, among the candidates applicable to that size the published one is preferred over every other under the configured preferences and size trade-off, independent of the order in which candidates are listed whenever the configuration leaves no tie. Only the chosen candidate remains on disk.",
 ["inputs","configurations"],
 "All candidate sets, sizes and preferences within bounds.",
 "Tests use the default configuration on two images.",
 [H+"images/settings.py",H+"images/exporter.py"],[("pairwise comparison",H+"images/settings.py")],[],["chosen candidate"])
p("I03","Crops stay inside the source, fill the target shape and honour the settings",
 "For every source size, target size and crop setting that is satisfiable, the cropped region lies inside the source after the mandatory crops, is as large as possible, has the target's aspect ratio up to rounding, and is positioned by the requested percentages. Exported sizes start at the requested size, grow by the configured step, each once, keep the aspect ratio up to rounding and never exceed the source or the configured maximum. Crops no image satisfies are refused.",
 ["inputs","configurations"],
 "All sizes and crop settings within bounds.",
 "Tests use a few sizes.",
 [H+"images/cover_fit.py",H+"images/resolutions.py"],[("cover fit",H+"images/cover_fit.py"),("resolution enumeration",H+"images/resolutions.py")],[],["crop rectangle and size list"])
p("I04","Image commands are parsed exactly",
 "Every well-formed image command in a page is carried out with the path, size, crop settings and loading choice it states, defaults filled in. A comment that is not of the form of an image command is left alone as a comment, as is a command whose image is missing, too small or outside src/public; a malformed command fails the page instead of being published as something else. Relative image paths are resolved against the file containing the command, and the page depends on the images its commands name, whether or not they can be carried out.",
 ["inputs"],
 "All commands within a grammar and all single-fault mutations of them.",
 "Tests use a few well-formed commands.",
 [H+"images/command.py"],[("command parser",H+"images/command.py")],[],["parsed command"])
p("I05","Image lists become scripts describing the exported files",
 "Each image list src/public/**/*.images.json whose entries are all satisfiable becomes a script of the same name (.images.js) whose default export maps every entry's name to the settings used (size, crop) and, for each format, the files exported for it: existing published files of exactly the stated format and size, showing that entry's image with its crop, in the variant the configuration prefers, none missing and none twice. A list with an entry that is not satisfiable (missing or too small image, outside src/public, unknown crop) is not published at all, but depends on its images.",
 ["inputs","configurations"],
 "All lists, images and configurations.",
 "Tests build one list.",
 ["vanillaplusjs/build/handlers/image_glue.py"],[("image lists","vanillaplusjs/build/handlers/image_glue.py")],[],["published script and image files"])
p("T01","Reading and peeking deliver the normalised text, each character once",
 "For every text and every sequence of reads and peeks, the concatenation of what is read is the text with line breaks and surrogates normalised, peeks return what the next read would return without consuming it, and the end of input is reported exactly when everything was consumed.",
 ["inputs","histories"],
 "All short texts over the relevant characters and all sequences of operations.",
 "There are no tests of the reader.",
 [V+"build/ioutil.py"],[("look-ahead buffer",V+"build/ioutil.py"),("normalisation",V+"build/ioutil.py")],[("buffered text and end flag","",V+"build/ioutil.py")],["results of reads and peeks"])
p("M01","Manipulator pipelines process every token once, in order",
 "For every token sequence and set of manipulators, tokens nobody claims pass through unchanged and in order, a claimed run is given to its claimant alone until it answers, its replacement is offered to the manipulators again in place, and tokens are neither lost, duplicated nor reordered. The html, css and js pipelines behave identically.",
 ["inputs","programs","histories"],
 "All short token sequences and small manipulators.",
 "Tests exercise the pipeline only through complete manipulators.",
 [V+"build/html/builder.py",C+"builder.py",J+"builder.py",J+"yield_manipulator.py"],[("mark protocol",J+"builder.py")],[("current claimant","",J+"builder.py")],["output tokens"])
p("A01","Typed commands do what they name, to the project they name, and nothing else",
 "A command line which is not a valid one fails and changes nothing. Otherwise exactly the folder it names (the current one by default) is changed, whichever way the folder and the options are written and in whatever order: init writes the given host once; build publishes for production unless --dev is given, with links or copies as asked; clean removes what was generated, and generated placeholders only with --placeholders or a y typed at the prompt, which is shown exactly if there is something to decide; run and dev serve the published site at the given host and port until interrupted and end well; dev publishes for development, and shows later edits exactly if --watch is given, no earlier than --debounce milliseconds after the edit. A command that fails changes nothing, and the user's files are never changed.",
 ["inputs","histories","configurations"],
 "All command lines and sequences of commands over several projects.",
 "Tests call the functions behind the commands, not the commands, and each on a new project.",
 ["vanillaplusjs/main.py","vanillaplusjs/runners"],[("command lines","vanillaplusjs/main.py"),("build options","vanillaplusjs/runners/build.py"),("clean prompt","vanillaplusjs/runners/clean.py"),("dev options","vanillaplusjs/runners/dev.py"),("run options","vanillaplusjs/runners/run.py"),("init options","vanillaplusjs/runners/init.py")],[],["exit status, files, and answers of the server"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
