"""H05 and I02 to I04: image commands, against spec/Images.tla. What is exported is observed where
it is handed to the image library."""
import json
import os
import shutil

import common
import textcheck

HOST = "www.example.com"
CFG = 'CONSTANTS Kind = "%s"\n Size = %d\n Sampled = TRUE\nSPECIFICATION GSpec\nINVARIANT Emit\n'
PAD = 400

# what is wrong with a page -> properties it breaks
BREAKS = {
    "rejected": "H05 I02 I03 I04",
    "published": "I04",
    "dependencies": "I04",
    "outputs": "H05",
    "again": "H05",
    "page choice": "I02",
    "page candidates left": "I02",
    "page not kept": "I02",
    "page crop": "I03",
    "page sizes": "I03 H05",
    "page size": "I03 H05",
    "page listed twice": "I03 H05",
    "page of another image": "I04 H05",
    "page comment": "I04",
    "page no picture": "I04 H05",
    "page loading": "I04 H05",
}


def text(points):
    return "".join(map(chr, points))


class Library:
    """Stands in for the image library's encoders: writes what it was asked to encode."""

    def __init__(self):
        from PIL import Image

        self.sizes = {}
        self.made = 0
        self.folder = ""
        I = Image.Image
        new, crop, resize = I._new, I.crop, I.resize
        lib = self

        def origin(im):
            o = getattr(im, "origin", None)
            if o is None and getattr(im, "filename", None):
                o = (im.filename, 0, 0, im.width, im.height)
            return o

        def part(im, o, box):
            """The part of the source the box of the image shows."""
            if o is None:
                return None
            res = []
            for i, v in enumerate(box):
                lo, hi, n = (o[1], o[3], im.width) if i % 2 == 0 else (o[2], o[4], im.height)
                at = v * (hi - lo)
                if at % n:
                    return None
                res.append(lo + int(at // n))
            return (o[0], *res)

        def _new(im, core):
            res = new(im, core)
            res.origin = origin(im)
            return res

        def crop_(im, box=None):
            res = crop(im, box)
            if box is not None and res is not im:
                res.origin = part(im, origin(im), box)
            return res

        def resize_(im, size, resample=None, box=None, reducing_gap=None):
            res = resize(im, size, resample, box, reducing_gap)
            if res is not im:
                res.origin = part(im, origin(im), box or (0, 0, im.width, im.height))
            return res

        def save(im, fp, format=None, **params):
            o = origin(im)
            rec = {
                "w": im.width,
                "h": im.height,
                "f": format,
                "q": params.get("quality", -1),
                "s": os.path.relpath(o[0], lib.folder) if o else "",
                "b": list(o[1:]) if o else [],
            }
            data = json.dumps(rec).encode()
            data = data.ljust(lib.sizes.get((format, rec["q"]), [PAD] * 3)[im.width * im.height % 3])
            lib.made += 1
            if hasattr(fp, "write"):
                fp.write(data)
            else:
                with open(fp, "wb") as out:
                    out.write(data)

        I._new, I.crop, I.resize, I.save = _new, crop_, resize_, save
        self.encode = None


def recorded(pub, top, skip):
    """Address and content of the images in the folder."""
    res = []
    for folder, _, names in os.walk(pub.P.abs(top)):
        for n in sorted(names):
            path = os.path.join(folder, n)
            u = "/" + os.path.relpath(path, pub.P.abs(top))
            if u in skip or n.endswith((".hash", ".html", "metadata.json", "placeholder.json", "counter.txt", "gzip")):
                continue
            with open(path, "rb") as fp:
                data = fp.read()
            try:
                rec = json.loads(data)
            except ValueError:
                rec = {"w": 0, "h": 0, "f": "", "q": 0, "s": "", "b": []}
            s = rec["s"]
            res.append(
                {
                    **rec,
                    "u": textcheck.points(u),
                    "s": textcheck.points(s[len("src/public") :] if s.startswith("src/public/") else s),
                }
            )
    return res


class Pages(textcheck.Publisher):
    def __init__(self, ctx, name):
        os.environ["PYTHONUTF8"] = "1"
        super().__init__(ctx, name)
        self.P.config["host"] = HOST
        self.P.write("src/public/img/text.png", b"this is no image")
        self.P.write("src/secret.png", b"x")
        self.P.write("secret.png", b"x")
        from PIL import Image

        self.new_image = Image.new
        self.real_save = Image.Image.save
        self.image(("src/secret.png", 20, 20))
        self.image(("secret.png", 20, 20))
        self.lib = Library()
        self.lib.folder = self.folder

    def image(self, spec):
        p, w, h = spec
        im = self.new_image("RGB", (w, h), (w, h, len(p)))
        os.makedirs(os.path.dirname(self.P.abs(p)), exist_ok=True)
        self.real_save(im, self.P.abs(p))

    def prepare(self, doc):
        """-> context, recording so far."""
        cfg = doc["cfg"]
        self.P.config["images"] = {
            "formats": {
                f["name"]: {
                    "minimum_unit_size_bytes": f["min"],
                    "exports": {
                        x["name"]: {
                            "min_area_px2": None if x["lo"] < 0 else x["lo"],
                            "max_area_px2": None if x["hi"] < 0 else x["hi"],
                            "preference": x["pref"],
                            "formatter_kwargs": {"quality": x["q"]},
                        }
                        for x in f["exports"]
                    },
                }
                for f in cfg["formats"]
            },
            "default_format": cfg["formats"][cfg["default"] - 1]["name"],
            "maximum_resolution": cfg["max"],
            "resolution_step": cfg["step"]["t"],
        }
        self.P.config["auto_generate_images_js_placeholders"] = False
        self.P.write_config()
        self.lib.sizes = {(f["name"], x["q"]): x["bytes"] for f in cfg["formats"] for x in f["exports"]}
        for d in ("artifacts", "out"):
            shutil.rmtree(self.P.abs(d), ignore_errors=True)
        c = self.context()
        images = [("src/public" + text(i["p"]), i["w"], i["h"]) for i in doc["imgs"]]
        for i in images:
            self.image(i)
            with open(self.P.abs(i[0]), "rb") as fp:
                self.must(self.publish(c, i[0], fp.read()))
        self.must(self.publish(c, "src/public/img/text.png", b"this is no image"))
        return c, {
            "imgs": [*doc["imgs"], {"p": textcheck.points("/img/text.png"), "w": 0, "h": 0}],
            "cfg": {**cfg, "step": {k: cfg["step"][k] for k in "nd"}},
        }

    def record(self, c, doc, source, data, target, rec):
        res = self.publish(c, source, data)
        if isinstance(res, Exception):
            rec["err"] = f"{type(res).__name__}: {res}"[:200]
            return
        skip = {text(i["p"]) for i in doc["imgs"]} | {"/img/text.png", target[len("out/www") :]}

        def read():
            try:
                with open(self.P.abs(target), "rb") as fp:
                    return fp.read()
            except FileNotFoundError:
                return b""

        out = read()
        rec.update(
            o=textcheck.points(out.decode("utf-8")),
            files=recorded(self, "out/www", skip),
            arts=recorded(self, "artifacts", ()),
            deps=textcheck.public(res[0].dependencies),
            kids=textcheck.public(res[1].children),
            same=set(res[1].produced) | set(res[1].reused) == set(res[0].produces),
        )
        made = self.lib.made
        again = self.publish(c, source, data)
        rec["again"] = {
            "same": not isinstance(again, Exception) and read() == out,
            "made": self.lib.made - made,
        }

    def page(self, doc):
        c, rec = self.prepare(doc)
        rec.update({k: doc[k] for k in ("h", "fs")})
        home = text(doc["h"])
        for f in doc["fs"]:
            self.P.write(text(f["p"]), text(f["s"]).encode("utf-8"))
        data = text(doc["fs"][0]["s"]).encode("utf-8")
        self.record(c, doc, "src/public" + home, data, "out/www" + home, rec)
        for f in doc["fs"]:
            os.unlink(self.P.abs(text(f["p"])))
        return rec

    def list(self, doc):
        c, rec = self.prepare(doc)
        rec["s"] = doc["s"]
        script = text(doc["p"])[: -len(".json")] + ".js"
        rec["p"] = textcheck.points(script)
        source = "src/public" + text(doc["p"])
        self.record(c, doc, source, text(doc["s"]).encode("utf-8"), "out/www" + script, rec)
        os.unlink(self.P.abs(source))
        return rec

    @staticmethod
    def must(res):
        if isinstance(res, Exception):
            raise common.MachineryError(repr(res))


def publish(ctx, n, docs, lists):
    pages = Pages(ctx, f"images{n}")
    return [(i, pages.list(d) if lists else pages.page(d)) for i, d in docs]


def plain(rec, lists):
    """The part of the recording the specification judges."""
    keys = ("lo", "hi", "pref", "q", "bytes") + (("name",) if lists else ())
    formats = [
        {"name": f["name"], "min": f["min"], "exports": [{k: x[k] for k in keys} for x in f["exports"]]}
        for f in rec["cfg"]["formats"]
    ]
    return {**{k: v for k, v in rec.items() if k != "err"}, "cfg": {**rec["cfg"], "formats": formats}}


def check(ctx, kind, plan, lists=False):
    for size, num in plan:
        gen, cfg = ("ImageListGen", CFG.replace("GSpec", "LSpec")) if lists else ("ImageGen", CFG)
        out = ctx.tlc_ok(gen, cfg % (kind, size), simulate=f"num={num}", depth=3, workers=1, timeout=1500).out
        docs = textcheck.documents(out)
        chunks = [[(i, d) for i, d in enumerate(docs) if i % 8 == w] for w in range(8)]
        records = [None] * len(docs)
        for part in common.parallel(lambda x: publish(ctx, *x, lists), list(enumerate(chunks))):
            for i, rec in part:
                records[i] = rec
        verdicts = textcheck.judge(
            ctx,
            "ImageListTrace" if lists else "ImageTrace",
            {"host": textcheck.points(HOST)},
            [plain(r, lists) for r in records],
        )
        ctx.count("lists" if lists else "pages", len(docs))
        ctx.count("published", sum(bool(r.get("o")) for r in records))
        ctx.count("images_published", sum(len(r.get("files", ())) for r in records))
        for i, (v, detail) in sorted(verdicts.items()):
            if v == "skip":
                ctx.count("skipped")
                continue
            what = f"{v} {detail}".strip()
            if not lists and ctx.prop not in BREAKS.get(v if v != "page" else what, "H05").split():
                ctx.count("other_" + what.replace(" ", "_"))
                continue
            if ctx.enough(5):
                continue
            r = records[i]
            name = text(r["p" if lists else "h"])
            sources = {name: text(r["s"])} if lists else {text(f["p"]): text(f["s"]) for f in r["fs"]}
            sizes = {text(m["p"]): [m["w"], m["h"]] for m in r["imgs"]}
            ctx.violation(
                f"{what}:{name}:" + ":".join(sources.values()) + json.dumps([sizes, r["cfg"]]),
                f"{what}: {name} {textcheck.show(list(sources.values())[0], 400)} -> "
                + (textcheck.show(text(r["o"]), 400) if "o" in r else r["err"]),
                {
                    "page": name,
                    "sources": sources,
                    "images": sizes,
                    "settings": r["cfg"],
                    "published": text(r["o"]) if "o" in r else r["err"],
                    "exported": [{**f, "u": text(f["u"]), "s": text(f["s"])} for f in r.get("files", ())],
                    "artifacts": [{**f, "u": text(f["u"]), "s": text(f["s"])} for f in r.get("arts", ())],
                },
            )


def check_H05(ctx):
    check(ctx, "markup", ctx.n([(4, 500), (1, 300)], [(4, 6000), (1, 4000)]))


def check_I02(ctx):
    check(ctx, "choice", ctx.n([(2, 800)], [(2, 10000)]))


def check_I03(ctx):
    check(ctx, "crops", ctx.n([(2, 800)], [(2, 10000)]))


def check_I04(ctx):
    check(ctx, "commands", ctx.n([(1, 900)], [(1, 12000), (4, 3000)]))


def check_I05(ctx):
    check(ctx, "lists", ctx.n([(3, 800)], [(3, 8000), (6, 3000)]), lists=True)
