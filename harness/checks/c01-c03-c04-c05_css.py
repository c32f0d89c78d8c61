"""C01, C03, C04, C05: published stylesheets against spec/CssPublish.tla."""
import os

import common
import textcheck

FILES = {
    "/css/main.css": ".m { from: main; background: url(/img/x.png) }\n.n { a: b; /* n */ c: d }\n",
    "/css/other.css": "@media print { .in-media { no: no } }\n.o { from: other }\n.p {\n  /*! PREPROCESSOR: import .o FROM /css/other.css */\n  q: url('/img/y.svg#f');\n}\n",
    "/img/x.png": "not really a picture",
    "/img/y.svg": "<svg/>",
}
SAMPLE = "/css/sample.css"
# similarly named stylesheets, which have images of their own
SIBLINGS = ["/style/sample.css", "/sample.css", "/css/sample.min.css", "/css/sample/sample.css", "/css/gen/sample.css", "/css/Sample.css", "/sample/css.css"]


def outcome(pub, c, path, text, sibling=None):
    """-> record or exception"""
    for root, _, names in os.walk(pub.P.abs("out/www/img/gen")):
        for n in names:
            os.unlink(os.path.join(root, n))
    if sibling is not None:
        images = "".join(f'.s{i} {{ background: url("data:image/{t},sibling{i}"); }}\n' for i, t in enumerate(("png", "gif", "svg+xml", "png")))
        res = pub.publish(c, "src/public" + sibling, images.encode())
        if isinstance(res, Exception):
            return res
    data = text.encode("utf-8", "surrogatepass")
    res = pub.publish(c, "src/public" + path, data)
    if isinstance(res, Exception):
        return res
    with open(pub.P.abs("out/www" + path), "rb") as fp:
        out = fp.read().decode("utf-8", "surrogatepass")
    gen, own = [], {path}
    for p in sorted(set(res[1].produced)):
        pub_path = p[len("out/www") :]
        if p.startswith("out/www/img/") and not p.endswith(".hash"):
            own.add(pub_path)
            with open(pub.P.abs(p), "rb") as fp:
                gen.append({"p": textcheck.points(pub_path), "s": textcheck.points(textcheck.query(pub, pub_path)), "b": list(fp.read())})
    # what it needs of the files it makes itself is no dependency on others
    others = lambda names: [x for x in names if x not in {"out/www" + o + ".hash" for o in own}]
    return {
        "o": textcheck.points(out),
        "deps": textcheck.public(others(res[0].dependencies)),
        "kids": textcheck.public(others(res[1].children)),
        "gen": gen,
        "produced": sorted(res[1].produced) == sorted(res[0].produces),
    }


def publish(ctx, n, texts):
    """In a forked worker: publishes its share of the texts [(index, path, text)]."""
    os.environ["PYTHONUTF8"] = "1"
    pub = textcheck.Publisher(ctx, f"css{n}")
    for m, t in FILES.items():
        pub.P.write("src/public" + m, t)
    pub.build()
    c = pub.context()
    header = {
        "default": textcheck.points("/css/main.css"),
        "query": [{"p": textcheck.points(m), "s": textcheck.points(textcheck.query(pub, m))} for m in FILES],
        "files": [],
    }
    for m in FILES:
        if m.endswith(".css"):
            with open(pub.P.abs("out/www" + m)) as fp:
                header["files"].append({"p": textcheck.points(m), "o": textcheck.points(fp.read())})
    keep = {m: open(pub.P.abs("out/www" + m), "rb").read() for m in ("/css/main.css",)}
    out = []
    for i, path, t in texts:
        rec = {"h": textcheck.points(path), "i": textcheck.points(t)}
        res = outcome(pub, c, path, t, SIBLINGS[i % len(SIBLINGS)] if "data:" in t.lower() and i % 3 else None)
        if isinstance(res, Exception):
            rec["err"] = f"{type(res).__name__}: {res}"[:200]
        else:
            rec.update(res)
            again = outcome(pub, c, path, "".join(map(chr, rec["o"])))
            rec["again"] = not isinstance(again, Exception) and again["o"] == rec["o"]
        out.append((i, rec))
        if path in keep:
            with open(pub.P.abs("out/www" + path), "wb") as fp:
                fp.write(keep[path])
    return header, out


def run(ctx, texts):
    chunks = [[(i, p, t) for i, (p, t) in enumerate(texts) if i % 8 == w] for w in range(8)]
    res = common.parallel(lambda x: publish(ctx, *x), list(enumerate(chunks)))
    records = [None] * len(texts)
    for header, out in res:
        for i, rec in out:
            records[i] = rec
    slim = [{k: v for k, v in r.items() if k not in ("err", "produced")} for r in records]
    return records, textcheck.judge(ctx, "CssTrace", res[0][0], slim)


def check(ctx, prop, kinds):
    for kind, exhaustive, randoms in kinds:
        ts = textcheck.texts(ctx, "CssGen", kind, exhaustive, randoms)
        paths = [SAMPLE, "/css/main.css"] if kind in ("nest", "rules") else [SAMPLE]
        texts = [(paths[i % len(paths)], t) for i, t in enumerate(ts)]
        records, verdicts = run(ctx, texts)
        ctx.count("texts", len(texts))
        ctx.count("texts_" + kind, len(texts))
        mid = len(texts) // 2
        ctx.sample({"source": texts[mid][1], "published": "".join(map(chr, records[mid].get("o", [])))})
        for i, (v, detail) in sorted(verdicts.items()):
            if v == "skip":
                ctx.count("skipped_" + detail.replace(" ", "_"))
                continue
            if ctx.enough(5):
                continue
            o = records[i]
            path, text = texts[i]
            ctx.violation(
                f"{v}:{path}:{text}",
                f"{v} {detail}: {path} {textcheck.show(text)} -> "
                + (textcheck.show("".join(map(chr, o["o"]))) if "o" in o else o["err"])
                + f" deps {[''.join(map(chr, d)) for d in o.get('deps', [])]}",
                {"path": path, "source": text},
            )


def check_C01(ctx):
    check(
        ctx,
        "C01",
        [
            ("rules", ctx.n(1, 1), ctx.n([(3, 2000), (6, 1000)], [(2, 10000), (3, 20000), (6, 10000), (12, 1500)])),
            ("nest", ctx.n(2, 2), ctx.n([(5, 600), (9, 600)], [(3, 10000), (5, 10000), (9, 10000), (20, 1500)])),
        ],
    )


def check_C03(ctx):
    check(ctx, "C03", [("data", ctx.n(1, 2), ctx.n([(3, 1500), (7, 500)], [(3, 10000), (7, 5000), (20, 500)]))])


def check_C04(ctx):
    check(ctx, "C04", [("urls", ctx.n(1, 2), ctx.n([(2, 1500), (4, 1500), (9, 500)], [(3, 20000), (7, 10000), (20, 1000)]))])


def check_C05(ctx):
    check(ctx, "C05", [("tokens", 2, ctx.n([(3, 2000), (7, 1000)], [(3, 30000), (5, 20000), (9, 10000), (30, 1000)]))])
