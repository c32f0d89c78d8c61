"""C02: icon commands in stylesheets against spec/CssIcons.tla."""
import json
import os
import shutil

import common
import textcheck

DEFAULT = "/css/main.css"
SAMPLE = "/css/sample.css"
ICONS = {"/img/icons/x.svg": "x", "/img/icons/y-1.svg": "y", "/img/icons/X.svg": "x"}


def text(points):
    return "".join(map(chr, points))


def buttons(cfg):
    """The "icons" part of vanillaplusjs.json for the configured buttons of the specification."""
    keys = ("active_color", "hover_color", "disabled_color")
    named = lambda cs: {k: c for k, c in zip(keys, cs) if c != "-"}
    icons = {}
    if cfg["d"]:
        icons["default_button"] = None if cfg["d"] == ["null"] else named(cfg["d"])
    if cfg["by"]:
        icons["button_by_identifier"] = {b[0]: named(b[1:]) for b in cfg["by"]}
    return icons


def outcome(pub, path, data, files):
    """Publishes the sheet in a project with the given files -> record or exception."""
    for f, d in files.items():
        pub.P.write("src/public" + f, d.encode("utf-8"))
    shutil.rmtree(pub.P.abs("out"), ignore_errors=True)
    c = pub.context()
    res = pub.publish(c, "src/public" + path, data.encode("utf-8"))
    if isinstance(res, Exception):
        return res
    with open(pub.P.abs("out/www" + path), "rb") as fp:
        out = fp.read().decode("utf-8")
    gen, own = [], set()
    for p in sorted(set(res[1].produced)):
        pub_path = p[len("out/www") :]
        if pub_path.startswith("/img/") and not p.endswith(".hash"):
            own.add("out/www" + pub_path + ".hash")
            with open(pub.P.abs(p), "rb") as fp:
                gen.append({"p": textcheck.points(pub_path), "s": textcheck.points(textcheck.query(pub, pub_path)), "b": list(fp.read())})
    others = lambda names: textcheck.public([x for x in names if x not in own])
    return {
        "o": textcheck.points(out),
        "deps": others(res[0].dependencies),
        "kids": others(res[1].children),
        "gen": gen,
        "same": set(res[1].produced) == set(res[0].produces),
    }


def publish(ctx, n, cases):
    os.environ["PYTHONUTF8"] = "1"
    pub = textcheck.Publisher(ctx, f"icons{n}")
    out = []
    for i, case in cases:
        pub.P.config["icons"] = buttons(case["cfg"])
        pub.P.write_config()
        main, sheet = text(case["m"]), text(case["i"])
        path = DEFAULT if case["inmain"] else SAMPLE
        if case["inmain"]:
            sheet = main + "\n" + sheet
        files = {m: "<svg>" + text(case[k]) + "</svg>" for m, k in ICONS.items()}
        files[DEFAULT] = main
        rec = {
            "h": textcheck.points(path),
            "i": textcheck.points(sheet),
            "m": textcheck.points(main),
            "cfg": case["cfg"],
            "svgs": [{"p": textcheck.points(m), "s": textcheck.points(files[m])} for m in ICONS],
        }
        res = outcome(pub, path, sheet, files)
        if isinstance(res, Exception):
            rec["err"] = f"{type(res).__name__}: {res}"[:200]
        else:
            rec.update(res)
            again = outcome(pub, path, text(rec["o"]), files)
            rec["again"] = isinstance(again, Exception) or again["o"] == rec["o"]
        out.append((i, rec))
    return out


def check_C02(ctx):
    for size, num in ctx.n([(2, 900), (6, 900)], [(1, 6000), (3, 10000), (6, 10000), (15, 3000)]):
        cfg = 'CONSTANTS Kind = "icons"\n Size = %d\n Sampled = TRUE\nSPECIFICATION GSpec\nINVARIANT Emit\n' % size
        cases = textcheck.documents(ctx.tlc_ok("CssIconGen", cfg, simulate=f"num={num}", depth=3, workers=1, timeout=1500).out)
        chunks = [[(i, c) for i, c in enumerate(cases) if i % 8 == w] for w in range(8)]
        records = [None] * len(cases)
        for part in common.parallel(lambda x: publish(ctx, *x), list(enumerate(chunks))):
            for i, rec in part:
                records[i] = rec
        slim = [{k: v for k, v in r.items() if k != "err"} for r in records]
        verdicts = textcheck.judge(ctx, "CssIconTrace", {"default": textcheck.points(DEFAULT)}, slim)
        ctx.count("stylesheets", len(cases))
        ctx.count("published", sum("o" in r for r in records))
        ctx.count("with_icons", sum(bool(r.get("gen")) for r in records))
        for i, (v, detail) in sorted(verdicts.items()):
            if v == "skip":
                ctx.count("skipped_" + detail.replace(" ", "_"))
                continue
            if ctx.enough(5):
                continue
            r = records[i]
            ctx.violation(
                f"{v}:{text(r['h'])}:{text(r['i'])}:{text(r['m'])}:{json.dumps(r['cfg'])}",
                f"{v} {detail}: {textcheck.show(text(r['i']))} with {textcheck.show(text(r['m']))} -> "
                + (textcheck.show(text(r["o"])) if "o" in r else r["err"]),
                {
                    "path": text(r["h"]),
                    "source": text(r["i"]),
                    "main.css": text(r["m"]),
                    "icons": buttons(r["cfg"]),
                    "svgs": [text(s["s"]) for s in r["svgs"]],
                    "published": text(r["o"]) if "o" in r else r["err"],
                },
            )
