"""K01, L01, L02, P01: the life of a project against spec/Project.tla."""
import io
import itertools
import json
import os
import random
import re
import shutil
import urllib.parse

import buildsim
import common
import project
import textcheck

LISTS = {"a": "src/public/a.images", "b": "src/public/js/deep/b.images"}
PICS = {("a", 1): "one", ("a", 2): "two", ("b", 1): "three", ("b", 2): "four"}
IMPORTER = "src/public/main.js"
BROKEN = "src/public/broken.html"
INDEX = "src/public/index.html"
SKELETON_DIRS = ("src/public/img", "src/public/js", "src/partials")

MC = """
CONSTANTS List = {%s}
 Version = {1}
SPECIFICATION Spec
VIEW state
INVARIANT TypeOK
PROPERTIES NeverOverwritten OnlyCleanRemoves HolderIff UserKept ConstantsOfMode OnlyIfAsked Complete
 CleanForgets InitKeeps InitTwice InitBuilds
"""
SIM = """
CONSTANTS List = {"a", "b"}
 Version = {1, 2}
 Steps = %d
 Focus = "%s"
SPECIFICATION SSpec
INVARIANT Emit
"""
TRACE = """
CONSTANTS List = {"a", "b"}
 Version = {1, 2}
 Codes = {%s}
SPECIFICATION TSpec
INVARIANT Accepted
POSTCONDITION AllRead
"""
CODES = {
    "P01": ["build-holder", "build-users", "build-end", "images", "images-import"],
    "K01": ["constants", "constants-import", "build-end"],
    "L01": ["clean-end", "clean-holder", "clean-users", "clean-out", "build-end", "fresh"],
    "L02": ["init-end", "init-holder", "init-users", "init-missing", "init-changed", "build-end"],
}

TEXTS = [
    "", "plain", "it's", 'say "hi"', "back\\slash\\", "line\nbreak", "\r\n", "tab\t", "\u2028\u2029", "</script>",
    "<!--", "${x}", "`", "\x00", "\x7f", "é ü ß", "日本", "\U0001f600", "\ud800", "'\\''", "http://127.0.0.1:8080/?a=b&c",
    "\\u0041", "\\x41", "\\\n", "//", "/*", "a" * 300, "\ufeff", "\x01\x1f", "env:/x", "ENV://HOME", "\b\f\v",
]
NAMES = ["API_URL", "S", "$x", "_y", "camelCase", "A1", "X", "NAME", "of_", "constant"]


def any_value(rng):
    x = rng.random()
    if x < 0.6:
        return rng.choice(TEXTS) if rng.random() < 0.8 else "".join(rng.choice(TEXTS) for _ in range(3))
    return rng.choice(
        [0, 1, -1, 7, 10**15, -3.5, 0.1, 1e-7, 2.5e20, True, False, None, [1, "two", None], {"a": "b'\""}, []]
    )


def any_consts(rng):
    def some(n):
        return {k: any_value(rng) for k in rng.sample(NAMES, rng.randint(0, n))}

    c = {"shared": some(4), "dev": some(3), "prod": some(3)}
    if rng.random() < 0.2:
        rng.choice(list(c.values()))[rng.choice(NAMES)] = "env://VERIF_CONST"
    return c


def encode(v):
    if isinstance(v, str):
        if v.startswith("env://"):
            v = os.environ[v[6:]]
        u = v.encode("utf-16-le", "surrogatepass")
        return {"s": [u[i] + 256 * u[i + 1] for i in range(0, len(u), 2)]}
    return {"x": textcheck.points(json.dumps(v))}


class Life:
    """A project that lives through the operations of one behaviour."""

    def __init__(self, ctx, rng, name, ops=()):
        self.ctx = ctx
        self.rng = rng
        self.folder = os.path.join(ctx.scratch, name)
        os.makedirs(self.folder)
        self.users = {}  # what the user (or init) wrote
        self.model = {x: "none" for x in LISTS}  # holders
        self.gen = {}  # text of the generated holders
        self.n = 0
        # where the configuration made by init expects the constants, unless it is not used
        inits = any(o["op"] == "init" for o in ops)
        self.krel = "src/public/js/constants.js" if inits or rng.random() < 0.5 else "src/public/deep/er/k.js"
        self.consts = {k: any_consts(rng) for k in (1, 2)}
        self.imports = []
        self.cwd = rng.choice([None, self.folder, "other"])
        if self.cwd == "other":
            # started elsewhere, where there is another project
            self.cwd = os.path.join(ctx.scratch, name + ".other")
            for rel in [x + ".js" for x in LISTS.values()] + [self.krel]:
                p = os.path.join(self.cwd, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as fp:
                    fp.write("// not this one\n")
        self.records = [{"op": "reset"}]
        self.log = []

    def abs(self, rel):
        return os.path.join(self.folder, rel)

    def write(self, rel, data):
        if isinstance(data, str):
            data = data.encode()
        os.makedirs(os.path.dirname(self.abs(rel)), exist_ok=True)
        with open(self.abs(rel), "wb") as fp:
            fp.write(data)
        project.Project.clock += 7
        os.utime(self.abs(rel), (project.Project.clock,) * 2)
        self.users[rel] = data

    def remove(self, rel):
        if rel in self.users:
            del self.users[rel]
        if os.path.exists(self.abs(rel)):
            os.unlink(self.abs(rel))

    def files(self):
        res = {}
        for dp, dn, fn in os.walk(self.folder):
            if dp == self.folder:
                dn[:] = [d for d in dn if d not in ("out", "artifacts")]
            for f in fn:
                p = os.path.join(dp, f)
                with open(p, "rb") as fp:
                    res[os.path.relpath(p, self.folder)] = fp.read()
        return res

    # ---- the user's operations
    def user(self, o):
        r = self.rng
        self.n += 1
        op = o["op"]
        if op == "list":
            rel = LISTS[o["l"]] + ".json"
            if o["v"] == 0:
                self.remove(rel)
                return
            v = o["v"]
            if v == 99:
                pic, w = r.choice([("notimage", 4), (PICS[o["l"], 1], 400)])
                v = 1
                self.write("src/public/pics/notimage.png", "no image\n")
            else:
                pic, w = PICS[o["l"], v], 3 + v
            self.write(f"src/public/pics/{PICS[o['l'], v]}.png", project.png(8, 8, ord(o["l"]) + v))
            self.write(rel, json.dumps({f"{o['l']}{v}": {"path": f"/pics/{pic}.png", "width": w, "height": 4}}))
        elif op == "holder":
            rel = LISTS[o["l"]] + ".js"
            if o["w"] == "delete":
                self.remove(rel)
                self.model[o["l"]] = "none"
            else:
                generated = self.model[o["l"]] in ("gen", "edited")
                text = f"// mine {self.n}\nexport default {{}};\n"
                if generated and r.random() < 0.5:
                    text = self.gen[o["l"]].decode("utf-8", "replace") + f"// and more {self.n}\n"
                self.write(rel, text)
                self.model[o["l"]] = "edited" if generated else "user"
        elif op == "ksrc":
            self.remove(self.krel)
            if o["on"]:
                self.write(self.krel, r.choice(["", "// the constants\n", "export const API_URL = 'not this';\n"]))
        elif op == "broken":
            self.remove(BROKEN)
            if o["on"]:
                self.write(BROKEN, '<!DOCTYPE html><html><head><script src="/js/not-there.js"></script></head></html>\n')
        elif op == "imports":
            self.imports = o["all"]
            self.remove(IMPORTER)
            text = f"// {self.n}\n"
            for i in o["all"]:
                text += f"import {i} from {json.dumps(r.choice(['', '.']) + self.target(i))};\n"
            self.write(IMPORTER, text + f"export const n = {self.n};\n")
        elif op == "index":
            self.remove(INDEX)
            if o["w"] == "user":
                self.write(INDEX, f"<!DOCTYPE html><html><head><title>{self.n}</title></head><body></body></html>\n")
        elif op == "config":
            self.remove("vanillaplusjs.json")
            if o["is"] != "none":
                c = project.base_config()
                c["js_constants"] = dict(self.consts[o["k"]], relpath=self.krel)
                c["auto_generate_images_js_placeholders"] = o["gen"]
                if o["is"] == "old":
                    c["version"] = "0.0"
                self.write("vanillaplusjs.json", json.dumps(c))
        elif op == "wipe":
            for d in ("out", "artifacts"):
                shutil.rmtree(self.abs(d), ignore_errors=True)

    def target(self, i):
        return "/" + (self.krel if i == "k" else LISTS[i] + ".js")[len("src/public/") :]

    # ---- the tool's operations
    def tool(self, o, rec):
        r = self.rng
        if o["op"] == "build":
            kw = {}
            if o["end"] == "crash":
                if r.random() < 0.5:
                    kw = {"crash_at": r.randint(1, 30), "crash_trunc": r.random() < 0.5}
                else:
                    kw = {"policy": buildsim.Policy(f"random:{r.random()}", crash_after=r.randint(0, 5))}
            kw.setdefault("policy", buildsim.Policy(f"random:{r.random()}"))
            res = buildsim.sim(
                self.folder, buildsim.do_build(self.folder, dev=o["dev"], symlinks=False), cwd=self.cwd, record=False, **kw
            )
            rec["end"] = {"error": "fail"}.get(res.outcome, res.outcome)
            if rec["end"] == "hang":
                rec["end"] = "hang"
        elif o["op"] == "clean":
            res = buildsim.sim(self.folder, buildsim.do_clean(self.folder, o["ph"]), cwd=self.cwd, record=False)
            rec["end"] = {"error": "fail"}.get(res.outcome, res.outcome)
        else:
            from vanillaplusjs.runners.init import init

            host = r.choice([None, "example.org"])
            had = "vanillaplusjs.json" in self.users
            res = buildsim.sim(self.folder, lambda: init(self.folder, host=host), cwd=self.cwd, record=False)
            rec["end"] = {"error": "fail"}.get(res.outcome, res.outcome)
            rec["changed"] = False
            rec["missing"] = not all(os.path.isdir(self.abs(d)) for d in SKELETON_DIRS)
            for rel in ("vanillaplusjs.json", INDEX):
                if not os.path.exists(self.abs(rel)):
                    rec["missing"] = True
                elif rel not in self.users:
                    with open(self.abs(rel), "rb") as fp:
                        self.users[rel] = fp.read()
            if not had and not rec["missing"]:
                try:
                    rec["changed"] = json.loads(self.users["vanillaplusjs.json"])["host"] != host
                except (ValueError, KeyError, TypeError):
                    rec["missing"] = True
        return res

    def observe(self, o, rec):
        now = self.files()
        holders = {}
        for x, stem in LISTS.items():
            rel = stem + ".js"
            was, have = self.model[x], now.get(rel)
            if have is None:
                state = "none"
                self.users.pop(rel, None)
            elif was == "none":
                state = "gen"
                self.gen[x] = have
            elif was == "gen":
                state = "gen" if have == self.gen[x] else "changed"
            else:
                state = was if have == self.users.get(rel) else "changed"
            holders[x] = self.model[x] = state
            now.pop(rel, None)
        rec["holder"] = holders
        hs = {stem + ".js" for stem in LISTS.values()}
        rec["users"] = now == {k: v for k, v in self.users.items() if k not in hs}
        rec["out"] = os.path.lexists(self.abs("out")) or os.path.lexists(self.abs("artifacts"))
        if not rec["users"]:
            mine = {k: v for k, v in self.users.items() if k not in hs}
            rec["which"] = sorted(k for k in set(now) | set(mine) if now.get(k) != mine.get(k))[:5]

    def published(self, o, rec, fresh):
        www = self.abs("out/www")
        config = json.loads(self.users["vanillaplusjs.json"])
        js = config["js_constants"]
        rec["consts"] = {m: [[textcheck.points(k), encode(v)] for k, v in js[m].items()] for m in ("shared", "dev", "prod")}
        ktarget = js["relpath"][len("src/public/") :]

        def text(rel):
            p = os.path.join(www, rel)
            if not os.path.exists(p):
                return None
            with open(p, "rb") as fp:
                return fp.read().decode("utf-8", "replace")

        kt = text(ktarget)
        if kt is not None:
            rec["ktext"] = textcheck.points(kt)
        rec["imgs"] = {}
        for x, stem in LISTS.items():
            t = text(stem[len("src/public/") :] + ".js")
            if t is None:
                v = 0
            else:
                v = 98
                m = re.fullmatch(r"\s*export default (\{.*\});?\s*", t, re.S)
                try:
                    data = json.loads(m.group(1)) if m else {}
                except ValueError:
                    data = {}
                for c in (1, 2):
                    if list(data) == [f"{x}{c}"] and data[f"{x}{c}"]["target"]["settings"]["width"] == 3 + c:
                        v = c
            rec["imgs"][x] = v
        rec["stale"] = []
        main = text("main.js") or ""
        for i in self.imports:
            h = text(self.target(i)[1:] + ".hash")
            if h is None:
                continue
            m = re.search(r"[\"']\.?" + re.escape(self.target(i)) + r"\?([^\"']*)", main)
            if m is None or urllib.parse.parse_qs(m.group(1)).get("v") != [h]:
                rec["stale"].append(i)
        rec["fresh"] = True
        if fresh:
            ref = self.folder + ".ref"
            os.makedirs(os.path.join(ref, "src"))
            try:
                for rel, data in self.files().items():
                    p = os.path.join(ref, rel)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as fp:
                        fp.write(data)
                res = buildsim.sim(ref, buildsim.do_build(ref, dev=o["dev"], symlinks=False), record=False)
                a, b = project.tree(www, ""), project.tree(os.path.join(ref, "out/www"), "")
                rec["fresh"] = res.outcome == "ok" and a == b
                if not rec["fresh"]:
                    rec["which"] = [res.outcome] + sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))[:5]
            finally:
                shutil.rmtree(ref, ignore_errors=True)

    def do(self, o):
        rec = dict(o)
        res = None
        fresh = o["op"] == "build" and not os.path.exists(self.abs("out"))
        if o["op"] in ("build", "clean", "init"):
            res = self.tool(o, rec)
        else:
            self.user(o)
        self.observe(o, rec)
        if rec["op"] == "build" and rec["end"] == "ok":
            self.published(o, rec, fresh)
        self.records.append(rec)
        self.log.append([v for v in o.values() if v != "ok"])
        if res is not None:
            self.log[-1] += ["->", rec["end"], res.exc] + rec.get("which", [])

    def close(self):
        for f in (self.folder, self.folder + ".other"):
            shutil.rmtree(f, ignore_errors=True)


def replay(ctx, item):
    idx, ops, start = item
    os.environ["VERIF_CONST"] = "from 'the' env\\"
    life = Life(ctx, random.Random(f"life-{ctx.seed}-{idx}"), f"life{idx}", ops)
    try:
        for d in start:
            os.makedirs(life.abs(d), exist_ok=True)
        for o in ops:
            life.do(o)
        return life.records, life.log
    finally:
        life.close()


def behaviours(ctx, prop, num):
    res = []
    for steps in (12, 24, 40):
        r = ctx.tlc_ok("ProjectSim", SIM % (steps, prop), simulate=f"num={num}", depth=steps + 3, workers=1)
        for m in re.finditer(r'^<<\s*"BEHAVIOUR",\s*(".*")\s*>>$', r.out, re.M):
            res.append(json.loads(json.loads(m.group(1))))
    if not res:
        raise common.MachineryError("no behaviours")
    return [(i, b, ()) for i, b in enumerate(res)]


def beginnings():
    """Every subset of the skeleton, initialised twice and built."""
    ok = {"op": "config", "is": "ok", "gen": True, "k": 1, "end": "ok"}
    pieces = [
        [],
        [ok],
        [{"op": "config", "is": "old", "gen": False, "k": 2, "end": "ok"}],
    ]
    index = [[], [{"op": "index", "w": "user", "end": "ok"}]]
    more = [[], [{"op": "ksrc", "on": True, "end": "ok"}], [{"op": "list", "l": "a", "v": 1, "end": "ok"}]]
    n = 0
    for c, i, m in itertools.product(pieces, index, more):
        for k in range(len(SKELETON_DIRS) + 1):
            for ds in itertools.combinations(SKELETON_DIRS, k):
                init = {"op": "init", "end": "ok"}
                end = "exit" if c and c[0]["is"] == "old" else "ok"
                build = {"op": "build", "dev": n % 2 == 0, "end": end}
                n += 1
                yield f"b{n}", c + i + m + [init, init, build, init, build], ds


def check(ctx, prop, num):
    ctx.tlc_ok("Project", MC % ctx.n('"a"', '"a", "b"' if prop == "P01" else '"a"'), timeout=1500)
    items = behaviours(ctx, prop, num)
    if prop == "L02":
        items += list(beginnings())
    buildsim.install()
    res = common.parallel(lambda x: replay(ctx, x), items)
    ctx.count("behaviours_replayed", len(items))
    ctx.count("operations", sum(len(r[0]) for r in res))
    ctx.count("builds", sum(1 for r in res for x in r[0] if x["op"] == "build"))
    ctx.sample(res[0][1])
    codes = ", ".join(f'"{c}"' for c in CODES[prop])
    work = [list(range(i, min(i + 40, len(res)))) for i in range(0, len(res), 40)]
    while work and not ctx.enough():
        chunk = work.pop(0)
        lines = [json.dumps(x) for i in chunk for x in res[i][0]]
        r = ctx.tlc("ProjectTrace", TRACE % codes, files={"trace.ndjson": "\n".join(lines) + "\n"}, workers=1, heap="3g")
        if r.ok:
            ctx.traces += len(chunk)
            continue
        m = re.findall(r"/\\ errs = \{(.+)\}", r.out)
        k = re.findall(r"/\\ l = (\d+)", r.out)
        if r.violated != "Accepted" or not m:
            raise common.MachineryError(r.tail(30))
        at = int(k[-1]) - 2
        for i in chunk:
            if at < len(res[i][0]):
                break
            at -= len(res[i][0])
        code = m[-1].replace('"', "")
        ctx.violation(
            f"project:{code}", f"behaviour {items[i][0]}: {code}: {res[i][1][max(0, at - 12) : at]}",
            {"log": res[i][1][:at], "record": res[i][0][at]},
        )
        rest = [c for c in chunk if c > i]
        if rest:
            work.append(rest)


def check_P01(ctx):
    check(ctx, "P01", ctx.n(50, 900))


def check_K01(ctx):
    check(ctx, "K01", ctx.n(50, 900))


def check_L01(ctx):
    check(ctx, "L01", ctx.n(50, 900))


def check_L02(ctx):
    check(ctx, "L02", ctx.n(30, 600))
