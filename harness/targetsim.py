"""Real workers requesting numbers of image variants, stopped before every operation on files and
locks and let go on as a behaviour of ImageTargetsSim says."""
import io
import json
import os
import pickle
import re
import select
import shutil
import signal
import sys
import threading
import time
import traceback

import common
import textcheck

PAGES = [
    "/img/x.png 4 4",
    '/img/x.png 4 4 cover {"pre_left_crop":2}',
    '/img/x.png 4 4 cover {"crop_left_percentage":0}',
    "/img/x.png 4 5",
]


def settings(q=10, name="a", kwarg="quality", a=(None, None, 10), b=(None, None, 11), unit=100, top=2, step="0.5", fmt="png", **more):
    exports = {name: (a, {kwarg: q}), "b": (b, {"quality": 20, **more})}
    return {
        "formats": {
            fmt: {
                "exports": {
                    k: {"min_area_px2": lo, "max_area_px2": hi, "preference": pref, "formatter_kwargs": kwargs}
                    for k, ((lo, hi, pref), kwargs) in exports.items()
                },
                "minimum_unit_size_bytes": unit,
            }
        },
        "default_format": fmt,
        "maximum_resolution": top,
        "resolution_step": step,
    }


# contents and settings of the versions
VERSIONS = [
    (40, settings()),
    (80, settings()),
    (40, settings(q=11)),
    (40, settings(a=(20, None, 10))),
    (40, settings(b=(None, 50, 11))),
    (40, settings(b=(None, None, 10))),
    (40, settings(unit=1810)),
    (40, settings(top=1)),
    (40, settings(step="1")),
    (40, settings(kwarg="effort")),
    (40, settings(name="c")),
    (40, settings(fmt="jpeg")),
    (40, settings(optimize=True)),
    (40, settings(optimize=False)),
]
# settings which differ although numbers made of them in a simple way don't
ALIKE = {
    "areas 5 to 60, 6 to 29": (settings(a=(5, 60, 10)), settings(a=(6, 29, 10))),
    "area up to 60 preferred 11, up to 59 preferred 42": (settings(b=(None, 60, 11)), settings(b=(None, 59, 42))),
    "minimum sizes 200, 231": (settings(top=2, unit=200), settings(top=1, unit=231)),
    "qualities 10 preferred 10, -951 preferred 11": (settings(), settings(q=-951, a=(None, None, 11))),
    "qualities 1, true": (settings(q=1), settings(q=True)),
    "qualities '5', 84": (settings(q="5"), settings(q=53 + 31)),
    "optimize 1.5, '1.5'": (settings(optimize=1.5), settings(optimize="1.5")),
    "steps 1, 2": (settings(step="1"), settings(step="2")),
    "exports swapped": (settings(a=(None, None, 12), b=(None, None, 11)), settings(a=(None, None, 11), b=(None, None, 12))),
}
NUMBER = re.compile(r"^(?:artifacts|out/www)/img/x/(\d+)/")
AUDIT = ("open", "os.mkdir", "os.rename", "os.remove", "os.scandir", "os.listdir", "os.rmdir", "os.link", "os.symlink",
         "os.utime", "os.truncate")
LOCKS = ("fcntl.lockf", "fcntl.flock")


_sleep = time.sleep


def sleep(n):
    if not Gate.within:
        _sleep(n)


# before the code under test (and the locks it uses) is imported
time.sleep = sleep


class Gate:
    """Inside of a worker: waits to be let go on before every operation."""

    within = False

    def __init__(self, folder, r, w):
        self.tops = tuple(os.path.join(folder, x) + os.sep for x in ("artifacts", "out/locks"))
        self.folder, self.r, self.w = folder, r, w
        self.inside = False
        self.stat, self.lstat = os.stat, os.lstat
        os.stat, os.lstat = self.wrap(os.stat), self.wrap(os.lstat)
        Gate.within = True
        sys.addaudithook(self.audit)

    def wrap(self, fn):
        def gated(path, *a, **k):
            self.stop(path)
            return fn(path, *a, **k)

        return gated

    def audit(self, event, args):
        if event in LOCKS:
            self.stop(None)
        elif event in AUDIT and args:
            self.stop(args[1] if event == "os.rename" else args[0])

    def stop(self, path):
        if self.inside:
            return
        if path is not None:
            if isinstance(path, int):
                return
            try:
                path = os.fsdecode(path)
            except TypeError:
                return
            if not os.path.isabs(path):
                path = self.folder + os.sep + path
            if not (path + os.sep).startswith(self.tops):
                return
        self.inside = True
        try:
            os.write(self.w, b"s")
            if not os.read(self.r, 1):
                os._exit(3)
        finally:
            self.inside = False


class Worker:
    def __init__(self, fn, folder):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        r3, w3 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(w1), os.close(r2), os.close(r3)
                Gate(folder, r1, w2)
                try:
                    res = fn()
                except Exception as e:
                    res = e
                with os.fdopen(w3, "wb") as fp:
                    fp.write(pickle.dumps(res if not isinstance(res, Exception) else f"{type(res).__name__}: {res}"))
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(r1), os.close(w2), os.close(w3)
        self.go, self.at, self.out = w1, r2, r3
        self.waiting = False  # stopped before an operation
        self.result = None
        self.over = False
        self.settle(5)

    def settle(self, timeout=0.1):
        """Until the worker stops before its next operation or is over; it may be blocked."""
        if self.waiting or self.over:
            return
        if not select.select([self.at], [], [], timeout)[0]:
            return
        if os.read(self.at, 1):
            self.waiting = True
            return
        with os.fdopen(self.out, "rb") as fp:
            data = fp.read()
        _, status = os.waitpid(self.pid, 0)
        self.over = True
        os.close(self.at), os.close(self.go)
        if status:
            raise common.MachineryError(f"worker ended with {status}")
        self.result = pickle.loads(data)

    def step(self):
        if self.waiting:
            self.waiting = False
            os.write(self.go, b"g")
        self.settle()

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        for fd in (self.at, self.go, self.out):
            os.close(fd)
        self.over = True


class Targets(textcheck.Publisher):
    def __init__(self, ctx, name):
        super().__init__(ctx, name)
        from PIL import Image

        self.made = []

        def save(im, fp, format=None, **params):
            data = json.dumps([im.width, im.height, format, params, im.convert("RGB").tobytes().hex()]).encode()
            # a: 900 to 1800 bytes, b: 1000 to 1820
            data = data.ljust(1000 + 410 * (im.width - 4) // 2 if params["quality"] == 20 else 900 + 450 * (im.width - 4) // 2) if "quality" in params else data.ljust(900)
            self.made.append(1)
            if hasattr(fp, "write"):
                fp.write(data)
            else:
                with open(fp, "wb") as out:
                    out.write(data)

        self.pictures = {}
        for content in {c for c, _ in VERSIONS}:
            im = Image.new("RGB", (12, 10))
            im.putdata([(content, 20 * x, 20 * y) for y in range(10) for x in range(12)])
            buf = io.BytesIO()
            im.save(buf, "PNG")
            self.pictures[content] = buf.getvalue()
        Image.Image.save = save
        self.contexts = [self.exporting(s) for _, s in VERSIONS]
        for i, args in enumerate(PAGES):
            self.P.write(f"src/public/t{i + 1}.html", f"<!DOCTYPE html><html><body><!--[IMAGE: {args}]--></body></html>".encode())
        # what is made for a target at a version
        self.looks = {}
        for t in range(1, len(PAGES) + 1):
            for c in range(1, len(VERSIONS) + 1):
                self.fresh(c)
                look = self.published(self.request("build", t)()[2])
                if not look:
                    raise common.MachineryError(f"nothing made: {t} {c}")
                self.looks.setdefault(look, []).append([t, c])
        if len(self.looks) < len(PAGES) * len(VERSIONS) * 2 // 3:
            raise common.MachineryError(f"variants look the same: {self.looks}")

    def exporting(self, settings):
        """The context of builds with those export settings."""
        self.P.config["images"] = settings
        self.P.write_config()
        return self.context()

    def alike(self):
        """For settings which are different: is what was made for one taken for what the other asks for?"""
        res = []
        for pair in ALIKE.values():
            contexts = [self.exporting(s) for s in pair]
            self.fresh(1)
            made = []
            for self.now in contexts:
                made.append(self.request("build", 1)())
            res.append(made[1][1] and made[0][0] != made[1][0])
        return res

    def fresh(self, version):
        for d in ("artifacts", "out"):
            shutil.rmtree(self.P.abs(d), ignore_errors=True)
        self.version(version)

    def version(self, v):
        content = VERSIONS[v - 1][0]
        self.now = self.contexts[v - 1]
        # as the build does before it builds a file again
        for name in ("x.png", "x.png.hash"):
            if os.path.exists(self.P.abs("out/www/img/" + name)):
                os.unlink(self.P.abs("out/www/img/" + name))
        res = self.publish(self.now, "src/public/img/x.png", self.pictures[content])
        if isinstance(res, Exception):
            raise common.MachineryError(repr(res))

    def request(self, op, t):
        from vanillaplusjs.build.build_file import build_file
        from vanillaplusjs.build.scan_file import scan_file

        context, page, made = self.now, f"src/public/t{t}.html", self.made

        def run():
            before = len(made)
            if op == "scan":
                paths = scan_file(context, page).produces
            else:
                res = build_file(context, page)
                paths = [*res.produced, *res.reused]
            numbers = {m.group(1) for m in map(NUMBER.match, paths) if m}
            files = sorted({p for p in paths if p.startswith("out/www/img/x/")})
            return int(numbers.pop()) if len(numbers) == 1 else 0, len(made) > before, files

        return run

    def published(self, files):
        res = []
        for name in files:
            try:
                with open(self.P.abs(name), "rb") as fp:
                    res.append((os.path.basename(name), fp.read()))
            except FileNotFoundError:
                res.append((name, b""))
        return tuple(res)

    def follow(self, hist):
        """-> log of what happened, errors"""
        log, live, numbers, errors = [], {}, [], []
        start = hist[0]["c"]
        self.fresh(start)

        def over(w):
            worker, op, t, begin = live.pop(w)
            if isinstance(worker.result, str):
                errors.append(worker.result)
                worker.result = (0, False, [])
            n, made, files = worker.result
            begin["n"] = n
            if n and n not in numbers:
                numbers.append(n)
            looks = self.looks.get(self.published(files), []) if op == "build" else []
            log.append({"e": "end", "w": w, "n": n, "made": made, "is": looks})

        def step(w):
            worker = live[w][0]
            worker.step()
            if worker.over:
                over(w)

        def finish(w):
            spins = 0
            while w in live:
                for v in [w] * 20 + sorted(live):
                    if v in live and w in live:
                        step(v)
                spins += 1
                if spins > 500:
                    errors.append("a request doesn't end")
                    live[w][0].kill()
                    live.pop(w)
                    log.append({"e": "die", "w": w})

        for h in hist[1:]:
            w = h["w"]
            if h["e"] == "begin":
                begin = {"e": "begin", "w": w, "op": h["op"], "t": h["t"], "n": 0}
                log.append(begin)
                live[w] = (Worker(self.request(h["op"], h["t"]), self.folder), h["op"], h["t"], begin)
                if live[w][0].over:
                    over(w)
            elif h["e"] == "go":
                for _ in range(h["g"]):
                    if w in live:
                        step(w)
            elif h["e"] == "end":
                finish(w)
            elif h["e"] == "die":
                if w in live:
                    live.pop(w)[0].kill()
                    log.append({"e": "die", "w": w})
            elif h["e"] == "change":
                self.version(h["c"])
                log.append({"e": "change", "c": h["c"]})
            elif h["e"] == "forget":
                if numbers:
                    n = numbers.pop(h["g"] % len(numbers))
                    for top in ("artifacts", "out/www"):
                        shutil.rmtree(self.P.abs(f"{top}/img/x/{n}"), ignore_errors=True)
                    log.append({"e": "forget", "n": n})
            elif h["e"] == "uncounted":
                try:
                    os.unlink(self.P.abs("artifacts/img/x/counter.txt"))
                except FileNotFoundError:
                    pass
        for w in sorted(live):
            finish(w)
        return {"now": start, "events": log, "ns": sorted({e["n"] for e in log if e.get("n")})}, errors
