"""H01 to H04: pages with templates, canonical addresses, references and inline code, against
spec/HtmlPage.tla."""
import json
import os
import re
import shutil

import common
import textcheck

HOST = "www.example.com"
FILES = {
    "/js/a.js": "export const a = 1;\n",
    "/js/sub/b.js": "export default 2;\n",
    "/css/a.css": "a { color: blue }\n",
    "/assets/f.ttf": "no font",
    "/img/x.png": "no image",
}
CFG = 'CONSTANTS Kind = "%s"\n Size = %d\n Sampled = TRUE\nSPECIFICATION GSpec\nINVARIANT Emit\n'


def text(points):
    return "".join(map(chr, points))


class Pages(textcheck.Publisher):
    """A project with the files pages refer to."""

    def __init__(self, ctx, name):
        os.environ["PYTHONUTF8"] = "1"
        super().__init__(ctx, name)
        self.P.config["host"] = HOST
        self.P.write_config()
        for f, d in FILES.items():
            self.P.write("src/public" + f, d)
        self.build()
        self.c = self.context()

    def out(self, path):
        with open(self.P.abs("out/www" + path), "rb") as fp:
            return fp.read().decode("utf-8")

    def files(self):
        return [{"p": textcheck.points(f), "q": textcheck.points(textcheck.query(self, f))} for f in FILES]

    def code(self, kind, source):
        """What publishing the code as a file of its own gives."""
        path = "/alone/x" + {"script": ".js", "style": ".css"}[kind]
        res = self.publish(self.c, "src/public" + path, source.encode("utf-8"))
        os.unlink(self.P.abs("src/public" + path))
        if isinstance(res, Exception):
            raise common.MachineryError(f"{kind} {source!r}: {res!r}")
        return {
            "k": kind,
            "s": textcheck.points(source),
            "o": textcheck.points(self.out(path)),
            "deps": textcheck.public(res[0].dependencies),
        }

    def sources(self):
        res = {}
        for folder, _, names in os.walk(self.P.abs("src")):
            for n in names:
                with open(os.path.join(folder, n), "rb") as fp:
                    res[os.path.join(folder, n)] = fp.read()
        return res

    def page(self, doc):
        for d in ("js/gen", "css/gen"):
            shutil.rmtree(self.P.abs("out/www/" + d), ignore_errors=True)
        home = text(doc["h"])
        for f in doc["fs"][1:]:
            self.P.write(text(f["p"]), text(f["s"]).encode("utf-8"))
        data = text(doc["fs"][0]["s"]).encode("utf-8")
        self.P.write("src/public" + home, data)
        before = self.sources()
        res = self.publish(self.c, "src/public" + home, data)
        rec = {"h": doc["h"], "fs": doc["fs"], "clean": self.sources() == before}
        if isinstance(res, Exception):
            rec["err"] = f"{type(res).__name__}: {res}"[:200]
        else:
            gen = sorted(
                p[len("out/www") :]
                for p in set(res[1].produced) | set(res[1].reused)
                if not p.endswith(".hash") and p != "out/www" + home
            )
            rec.update(
                o=textcheck.points(self.out(home)),
                deps=textcheck.public(res[0].dependencies),
                kids=textcheck.public(res[1].children),
                same=set(res[1].produced) | set(res[1].reused) == set(res[0].produces),
                gen=[
                    {"p": textcheck.points(g), "q": textcheck.points(textcheck.query(self, g)), "s": textcheck.points(self.out(g))}
                    for g in gen
                ],
            )
        for f in doc["fs"]:
            os.unlink(self.P.abs(text(f["p"])))
        return rec


def publish(ctx, n, docs, codes):
    pages = Pages(ctx, f"pages{n}")
    header = None
    if n == 0:
        header = {
            "host": textcheck.points(HOST),
            "files": pages.files(),
            "inline": [pages.code(c["k"], text(c["s"])) for c in codes],
        }
    return header, [(i, pages.page(d)) for i, d in docs]


def check(ctx, kind, plan):
    for size, num in plan:
        out = ctx.tlc_ok("HtmlGen", CFG % (kind, size), simulate=f"num={num}", depth=3, workers=1, timeout=1500).out
        docs = textcheck.documents(out)
        codes = json.loads(json.loads(re.search(r'^<<\s*"CODES",\s*(".*")\s*>>$', out, re.M).group(1)))
        chunks = [[(i, d) for i, d in enumerate(docs) if i % 8 == w] for w in range(8)]
        records, header = [None] * len(docs), None
        for head, part in common.parallel(lambda x: publish(ctx, *x, codes), list(enumerate(chunks))):
            header = head or header
            for i, rec in part:
                records[i] = rec
        made = {}
        for r in records:
            made.setdefault(text(r["h"]), set()).update(text(g["p"]) for g in r.get("gen", []))
        header["made"] = [{"h": textcheck.points(h), "g": [textcheck.points(x) for x in sorted(g)]} for h, g in made.items()]
        verdicts = textcheck.judge(
            ctx, "HtmlTrace", header, [{k: v for k, v in r.items() if k != "err"} for r in records]
        )
        ctx.count("pages", len(docs))
        ctx.count("published", sum("o" in r for r in records))
        for i, (v, detail) in sorted(verdicts.items()):
            if v == "skip":
                ctx.count("skipped_" + re.sub(r"\W+", "_", detail))
                continue
            if ctx.enough(5):
                continue
            r = records[i]
            page = text(r["fs"][0]["s"])
            ctx.violation(
                f"{v}:{text(r['h'])}:" + ":".join(text(f["s"]) for f in r["fs"]),
                f"{v} {detail}: {text(r['h'])} {textcheck.show(page)} -> "
                + (textcheck.show(text(r["o"])) if "o" in r else r["err"]),
                {
                    "page": text(r["h"]),
                    "sources": {text(f["p"]): text(f["s"]) for f in r["fs"]},
                    "published": text(r["o"]) if "o" in r else r["err"],
                    "generated": {text(g["p"]): text(g["s"]) for g in r.get("gen", [])},
                },
            )


def check_H01(ctx):
    check(ctx, "templates", ctx.n([(2, 1200), (5, 600)], [(2, 20000), (5, 10000), (10, 3000)]))


def check_H02(ctx):
    check(ctx, "inline", ctx.n([(2, 1000), (6, 400)], [(2, 15000), (5, 10000), (10, 3000)]))


def check_H03(ctx):
    check(ctx, "canonical", ctx.n([(2, 1200), (6, 400)], [(2, 15000), (5, 10000), (10, 3000)]))


def check_H04(ctx):
    check(ctx, "links", ctx.n([(2, 1200), (6, 400)], [(2, 15000), (5, 10000), (10, 3000)]))
