NOTES = "Specifications in spec/ (TLA+, TLC). ./check <ID> quick|thorough runs one check; see DESIGN.md."
NA = {}
CHECKS = [
    ("B01", "TLA+ build engine model checked by TLC; behaviours TLC generates replayed into the real build; recorded rich histories validated by TLC (BuildTrace)",
     "Model exhaustive for 2 pages + 1 leaf (thorough: more); replay and histories are random samples of edits, completion orders and kill points. Worker pool simulated in-process; configuration unchanged, sources not edited during a build."),
    ("B02", "TLA+ build engine model checked by TLC; behaviours TLC generates replayed into the real build; recorded rich histories validated by TLC (BuildTrace)",
     "Model exhaustive for 2 pages + 1 leaf (thorough: more); replay and histories are random samples of edits, completion orders and kill points. Worker pool simulated in-process; configuration unchanged, sources not edited during a build."),
    ("B03", "TLA+ build engine model checked by TLC; behaviours TLC generates replayed into the real build; recorded rich histories validated by TLC (BuildTrace)",
     "Model exhaustive for 2 pages + 1 leaf (thorough: more); replay and histories are random samples of edits, completion orders and kill points. Worker pool simulated in-process; configuration unchanged, sources not edited during a build."),
    ("B04", "TLA+ build engine model checked by TLC; behaviours TLC generates replayed into the real build; recorded rich histories validated by TLC (BuildTrace)",
     "Model exhaustive for 2 pages + 1 leaf (thorough: more); replay and histories are random samples of edits, completion orders and kill points. Worker pool simulated in-process; configuration unchanged, sources not edited during a build."),
    ("B05", "TLA+ build engine model checked by TLC; behaviours TLC generates replayed into the real build; recorded rich histories validated by TLC (BuildTrace)",
     "Model exhaustive for 2 pages + 1 leaf (thorough: more); replay and histories are random samples of edits, completion orders and kill points. Worker pool simulated in-process; configuration unchanged, sources not edited during a build."),
    ("B06", "TLA+ build engine model checked by TLC; behaviours TLC generates replayed into the real build; recorded rich histories validated by TLC (BuildTrace)",
     "Model exhaustive for 2 pages + 1 leaf (thorough: more); replay and histories are random samples of edits, completion orders and kill points. Worker pool simulated in-process; configuration unchanged, sources not edited during a build."),
    ("B07", "TLA+ build engine model checked by TLC; behaviours TLC generates replayed into the real build; recorded rich histories validated by TLC (BuildTrace)",
     "Model exhaustive for 2 pages + 1 leaf (thorough: more); replay and histories are random samples of edits, completion orders and kill points. Worker pool simulated in-process; configuration unchanged, sources not edited during a build."),
    ("B08", "TLA+ build engine model checked by TLC; behaviours TLC generates replayed into the real build; recorded rich histories validated by TLC (BuildTrace)",
     "Model exhaustive for 2 pages + 1 leaf (thorough: more); replay and histories are random samples of edits, completion orders and kill points. Worker pool simulated in-process; configuration unchanged, sources not edited during a build."),
    ("G01", "TLA+ spec of the graph operations, TLC-exhaustive; every transition replayed; recorded histories validated by TLC",
     "Exhaustive over 3 files and argument lists of length 2; random histories up to 7 files. Trusts TLC and the projection through the public query API."),
    ("G02", "TLA+ spec of graph queries; TLC enumerates every small digraph with expected answers, replayed on built and reloaded graphs; equality and histories validated by TLC",
     "Exhaustive over all digraphs with up to 3 (thorough: 4) files; random up to 7."),
    ("D01", "TLA+ watcher model (Watch.tla) checked by TLC; TLC-generated schedules replayed into the real watcher on a virtual clock; recorded sessions validated by TLC (WatchTrace)",
     "Random schedules plus a few live dev --watch sessions with the real observer and HTTP server; the window before the observer starts is not covered."),
    ("D02", "TLA+ watcher model (Watch.tla) checked by TLC; TLC-generated schedules replayed into the real watcher on a virtual clock; recorded sessions validated by TLC (WatchTrace)",
     "Random schedules; debounce judged on a virtual clock."),
    ("E01", "TLA+ external-files model checked by TLC; TLC-generated histories replayed into the real updater with a stand-in downloader; recordings validated by TLC (ExternalTrace)",
     "Random histories over a few files and digests; download is replaced by a stand-in which serves, fails or serves wrong bytes."),
    ("E02", "TLA+ external-files model checked by TLC; TLC-generated histories replayed into the real updater with a stand-in downloader; recordings validated by TLC (ExternalTrace)",
     "Random histories over a few files and digests; download is replaced by a stand-in which serves, fails or serves wrong bytes."),
    ("B09", "TLA+ build engine with settings model checked by TLC; behaviours with changes of the settings replayed into the real build; recorded histories validated by TLC (BuildTrace)",
     "Settings changes interleaved with edits, crashes and builds; every build compared with one from scratch."),
    ("J01", "TLA+ specification of the lexical grammar of scripts (JsLex); texts TLC generates are published by the real code and every result judged by TLC against the specification (JsTrace)",
     "All short sequences of token fragments, random longer ones; the published text must be the same tokens, comments and line structure."),
    ("J02", "TLA+ specification of module imports (JsPublish): which imports are versioned, how; generated scripts published by the real code, judged by TLC",
     "All short sequences of import fragments, random longer ones; dependencies and versions judged too."),
    ("J03", "TLA+ specification of type hint comments (JsPublish); generated scripts published by the real code, judged by TLC",
     "All short sequences of hint fragments, random longer ones."),
    ("T01", "TLA+ specification of the normalising reader (TextInput); behaviours TLC generates replayed into the real readers",
     "Every short text over the interesting characters and every operation sequence TLC generates within the bounds; random longer ones."),
    ("M01", "TLA+ specification of the mark protocol (Pipeline); behaviours TLC generates replayed into the html, css and js pipelines",
     "Random behaviours of up to three manipulators and 14 tokens, plain and generator-based manipulators."),
    ("C01", "TLA+ specification of stylesheet imports (CssPublish) over a lexical specification (CssLex); systems of rules TLC generates are published by the real code and judged by TLC (CssTrace)",
     "Every short sequence of rule/command fragments, random longer ones; imports of selectors with several rules are left open."),
    ("C03", "TLA+ specification of data images (CssPublish); data URLs TLC generates published by the real code, files and stylesheets judged by TLC",
     "Every short sequence of data URL fragments, random longer ones."),
    ("C04", "TLA+ specification of stylesheet url versioning (CssPublish); generated stylesheets published by the real code, text and dependencies judged by TLC",
     "Every short sequence of url fragments, random longer ones."),
    ("C05", "TLA+ specification of the lexical grammar of stylesheets (CssLex); generated texts published by the real code, tokens judged by TLC",
     "Every sequence of two token fragments, random longer ones; NUL characters excluded."),
    ("C02", "TLA+ specification of icon commands (CssIcons): settings, commands, classes, recoloured files; cases TLC generates are published by the real code and judged by TLC (CssIconTrace)",
     "Random cases: default stylesheets, commands, buttons, icons; malformed commands and several :root rules are left open."),
    ("H01", "TLA+ specification of pages (HtmlPage over HtmlLex, JsonText): templates and variables; systems of pages and partials TLC generates are published by the real code and judged by TLC (HtmlTrace)",
     "Random pages of up to 5 (thorough 10) parts per body with partials nested up to four deep; multi-line STACK commands and partials of table parts are left open."),
    ("H02", "TLA+ specification of pages (HtmlPage): inline code moves to generated files; pages TLC generates published by the real code, pages and generated files judged by TLC",
     "Random pages of up to 6 (thorough 10) parts; what the code itself becomes is compared with publishing it as a file."),
    ("H03", "TLA+ specification of pages (HtmlPage): canonical addresses; pages TLC generates published by the real code and judged by TLC",
     "Random pages, 19 forms of address, 12 page paths."),
    ("H04", "TLA+ specification of pages (HtmlPage): versioned references; pages TLC generates published by the real code, text and dependencies judged by TLC",
     "Random pages, 15 forms of address, scripts, stylesheets, preloads and others."),
    ("H05", "TLA+ specification of pages with image commands (spec/Images.tla over HtmlPage.tla); generated pages, images and export settings are published by the real code, TLC judges each recorded publication",
     "what reaches the image library's encoder is recorded in its place"),
    ("I02", "TLA+ specification of the preferred export (spec/Images.tla); generated export settings and candidate sizes are published by the real code, TLC judges which candidates remain",
     "encoder replaced by one that writes files of prescribed sizes"),
    ("I03", "TLA+ specification of sizes and crops (spec/Images.tla); generated images, sizes and crops are published by the real code, TLC judges size and source region of every exported image",
     "source regions are observed where the image library crops and resizes"),
    ("I04", "TLA+ specification of image commands (spec/Images.tla, JsonText.tla); generated well-formed and faulty commands are published by the real code, TLC judges the page",
     "commands within pages of the generator"),
    ("I05", "TLA+ specification of image lists (spec/Images.tla, ImageListTrace.tla); generated lists are published by the real code, TLC parses and judges the script and the files",
     "lists of up to six images"),
    ("I01", "TLA+ specification of requests for numbers of image variants (spec/ImageTargets.tla), checked exhaustively; its behaviours drive real worker processes operation by operation (files and locks) and the recorded requests are checked to be behaviours of it",
     "three workers at a time, workers may die at any operation, 14 combinations of contents and export settings"),
    ("P01", "TLA+ specification of a project's life (spec/Project.tla): initialising, editing, building, failing and killed builds, cleaning; checked with TLC, its random behaviours drive the real tools and every recorded operation is judged by TLC (spec/ProjectTrace.tla)",
     "two image lists, operation sequences of up to 40 steps"),
    ("K01", "TLA+ specification of a project's life (spec/Project.tla) with the lexical grammar of scripts (spec/JsLex.tla): recorded builds in both modes are judged by TLC, which reads the published constants",
     "operation sequences of up to 40 steps; random constants of every kind"),
    ("L01", "TLA+ specification of a project's life (spec/Project.tla), its random behaviours drive the real tools and every recorded operation is judged by TLC (spec/ProjectTrace.tla)",
     "operation sequences of up to 40 steps"),
    ("L02", "TLA+ specification of a project's life (spec/Project.tla): every subset of the skeleton, and random behaviours, initialised and built by the real tools and judged by TLC (spec/ProjectTrace.tla)",
     "operation sequences of up to 40 steps"),
    ("S01", "TLA+ specification of the web server (spec/Serve.tla), model checked by TLC; random histories of publishing and requesting from TLC are replayed against the real server over loopback and its answers judged by TLC (spec/ServeTrace.tla)",
     "histories of up to 80 steps; requests of up to 5 segments"),
    ("A01", "TLA+ spec of command lines (Cli.tla) checked by TLC over all short histories; histories TLC generates typed into real processes; recordings validated by TLC (CliTrace)",
     "Random histories of 7 to 10 commands over three folders; real processes, loopback only; only small sites; option abbreviations and contradictory options not covered."),
]
