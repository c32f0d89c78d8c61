"""J01, J02, J03: published scripts against spec/JsPublish.tla."""
import os
import urllib.parse

import common
import textcheck

MODULES = {"/js/a.js": "export const a = 1;", "/lib/b.js": "export default 2;", "/js/sub/c.js": "1;", "/index.js": "'x';"}
SAMPLE = "src/public/js/sample%d.js"


def publish(ctx, n, texts):
    """In a forked worker: publishes its share of the texts."""
    pub = textcheck.Publisher(ctx, f"js{n}")
    for m, t in MODULES.items():
        pub.P.write("src/public" + m, t)
    pub.build()
    c = pub.context()
    out = []
    for i, t in texts:
        rel = SAMPLE % n
        res = pub.publish(c, rel, t)
        rec = {"i": textcheck.points(t)}
        if isinstance(res, Exception):
            rec["err"] = f"{type(res).__name__}: {res}"[:200]
            out.append((i, rec))
            continue
        with open(pub.P.abs("out/www" + rel[len("src/public") :]), "rb") as fp:
            rec["o"] = textcheck.points(fp.read().decode("utf-8", "surrogatepass"))
        for k, names in (("deps", res[0].dependencies), ("kids", res[1].children)):
            rec[k] = [textcheck.points("/" + os.path.relpath(x, "src/public")) for x in sorted(set(names))]
        out.append((i, rec))
    import vanillaplusjs.constants as vc

    query = []
    for m in MODULES:
        with open(pub.P.abs("out/www" + m + ".hash")) as fp:
            q = "?" + urllib.parse.urlencode({"v": fp.read(), "pv": vc.PROCESSOR_VERSION})
        query.append({"p": textcheck.points(m), "s": textcheck.points(q)})
    return query, out


def run(ctx, texts):
    chunks = [[(i, t) for i, t in enumerate(texts) if i % 8 == w] for w in range(8)]
    res = common.parallel(lambda x: publish(ctx, *x), list(enumerate(chunks)))
    records = [None] * len(texts)
    for query, out in res:
        for i, rec in out:
            records[i] = rec
    header = {"dir": [textcheck.points("js")], "query": res[0][0]}
    slim = [{k: v for k, v in r.items() if k != "err"} for r in records]
    return records, textcheck.judge(ctx, "JsTrace", header, slim)


MINE = {"J01": ("meaning", "rejected"), "J02": ("import", "rejected"), "J03": ("hints", "rejected")}


def check(ctx, prop, kinds):
    for kind, exhaustive, randoms in kinds:
        ts = textcheck.texts(ctx, "JsGen", kind, exhaustive, randoms)
        records, verdicts = run(ctx, ts)
        ctx.count("texts", len(ts))
        ctx.count("texts_" + kind, len(ts))
        ctx.sample({"source": ts[len(ts) // 2], "published": "".join(map(chr, records[len(ts) // 2].get("o", [])))})
        for i, (v, detail) in sorted(verdicts.items()):
            if v == "skip":
                ctx.count("skipped_" + detail.replace(" ", "_"))
                continue
            if v not in MINE[prop]:
                ctx.count("left_to_others_" + v)
                continue
            if ctx.enough(5):
                continue
            o = records[i]
            ctx.violation(
                f"{v}:{ts[i]}",
                f"{detail}: {textcheck.show(ts[i])} -> "
                + (textcheck.show("".join(map(chr, o["o"]))) if "o" in o else o["err"])
                + f" deps {[''.join(map(chr, d)) for d in o.get('deps', [])]}",
                {"source": ts[i]},
            )


def check_J01(ctx):
    check(ctx, "J01", [("tokens", 2, ctx.n([(4, 1500), (9, 1500)], [(3, 30000), (5, 20000), (9, 15000), (30, 1000)]))])


def check_J02(ctx):
    check(ctx, "J02", [("imports", 2, ctx.n([(4, 1500), (9, 1500)], [(3, 30000), (5, 20000), (9, 15000), (30, 1000)]))])


def check_J03(ctx):
    check(ctx, "J03", [("hints", 2, ctx.n([(4, 1500), (9, 1500)], [(3, 30000), (5, 20000), (9, 15000), (30, 1000)]))])
