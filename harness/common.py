"""Shared machinery of all checks: context, evidence, known findings, TLC runs."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
TLA_CP = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)


class MachineryError(Exception):
    """The check itself could not run (never reported as a violation)."""


def jsonable(x):
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(i) for i in x), key=lambda v: json.dumps(v))
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, bytes):
        return x.decode("latin-1")
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc = rc
        self.out = out
        self.wall = wall
        # without what specifications print (long runs of digits and commas)
        out = "\n".join(x for x in out.split("\n") if len(x) < 400)
        m = None
        for m in re.finditer(
            r"([\d,]+) states generated(?: \(.*?\))?, ([\d,]+) distinct states found", out
        ):
            pass
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m2 = re.search(r"([\d,]+) states checked", out)
        if not m and "The number of states generated:" in out:
            k = re.findall(r"The number of states generated: ([\d,]+)", out)
            self.generated = int(k[-1].replace(",", ""))
        self.ok = rc == 0 and (
            "Model checking completed. No error has been found." in out
            or "The number of states generated:" in out
        )
        self.violated = None
        mm = re.search(r"Invariant (\S+) is violated", out)
        if mm:
            self.violated = mm.group(1)
        mm = re.search(r"Action property (\S+) is violated", out)
        if mm:
            self.violated = mm.group(1)
        if "Temporal properties were violated" in out:
            self.violated = self.violated or "temporal"
        if "Deadlock reached" in out:
            self.violated = "Deadlock"
        mm = re.search(r"[Pp]ost-?condition (\S+)", out)
        if mm and not self.violated and not self.ok:
            self.violated = "POSTCONDITION " + mm.group(1)

    def tail(self, n=60):
        lines = [x for x in self.out.splitlines() if x.strip() and not x.startswith(("Parsing file", "Semantic processing"))]
        return "\n".join(lines[-n:])


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(f"{prop}-{self.seed}")
        self.t0 = time.time()
        base = os.environ.get("VERIF_SCRATCH") or (
            "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        )
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known(prop)
        self.level = "model_checking"
        self.notes = []

    # ---- budget ----
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def elapsed(self):
        return time.time() - self.t0

    # ---- results ----
    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(jsonable(s))

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def violation(self, key, what, data=None):
        """key: stable identity of the failing input/call site/history."""
        for k in self.known:
            if k["key"] == key:
                self.known_hit.setdefault(key, k["what"])
                return
        self.violations.append({"key": key, "what": what, "data": jsonable(data)})

    def enough(self, n=3):
        return len(self.violations) >= n

    # ---- TLC ----
    def tlc(
        self,
        module,
        cfg,
        files=(),
        workers=None,
        simulate=None,
        depth=None,
        timeout=600,
        extra=(),
        deadlock=False,
        env=None,
        heap=None,
        count=True,
        dfid=None,
        subdir=None,
    ):
        """Runs TLC on spec/<module>.tla with config text `cfg` (or a cfg file name in spec/).
        `files`: {name: text} put next to the spec copies (data files)."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, text in dict(files).items():
            mode = "wb" if isinstance(text, bytes) else "w"
            p = os.path.join(d, name)
            if os.path.lexists(p):
                os.unlink(p)
            with open(p, mode) as fp:
                fp.write(text)
        cfgpath = os.path.join(d, module + "_run.cfg")
        if cfg.endswith(".cfg"):
            shutil.copy(os.path.join(SPEC, cfg), cfgpath)
        else:
            with open(cfgpath, "w") as fp:
                fp.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss32m"]
        cmd.append("-Xmx" + (heap or "6g"))
        cmd += ["-cp", TLA_CP, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
        cmd += ["-workers", str(workers or "auto")]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", simulate]
            cmd += ["-seed", str(self.seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += list(extra)
        cmd += ["-config", cfgpath, os.path.join(d, module + ".tla")]
        t = time.time()
        e = dict(os.environ)
        e.update(env or {})
        try:
            pr = subprocess.run(
                cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e
            )
            rc, out = pr.returncode, pr.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f"TLC timed out on {module}: {ex}")
        r = TLCResult(rc, out, time.time() - t)
        r.dir = d
        if count:
            self.states += r.distinct or r.generated
            self.transitions += r.generated
        return r

    def tlc_ok(self, *a, **k):
        """TLC must pass; anything else is a machinery failure (the model is wrong)."""
        r = self.tlc(*a, **k)
        if not r.ok:
            raise MachineryError(f"TLC failed on {a[0]}:\n{r.tail()}")
        return r

    # ---- finish ----
    def finish(self):
        wall = time.time() - self.t0
        shutil.rmtree(self.scratch, ignore_errors=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["(none)"],
        }
        cov.update(self.extra)
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as fp:
            json.dump(ev, fp, indent=1)
        for key, what in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what} [{key}]")
        if self.violations:
            rp = os.path.join(EVIDENCE, f"{self.prop}.replay.json")
            with open(rp, "w") as fp:
                json.dump(self.violations[:10], fp, indent=1)
            for v in self.violations[:5]:
                print("  " + v["key"] + ": " + str(v["what"])[:600])
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(
            f"OK property={self.prop} states={self.states} traces={self.traces} wall={wall:.1f}s"
        )
        return 0


def parallel(fn, items, workers=None):
    """fn(item) for every item in forked worker processes; results in order.  Exceptions of the
    harness propagate as MachineryError."""
    import pickle

    items = list(items)
    workers = min(workers or max(1, min(8, (os.cpu_count() or 2))), max(1, len(items)))
    tmp = tempfile.mkdtemp(prefix="verif-par-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    pids = []
    try:
        for w in range(workers):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    out = []
                    for i in range(w, len(items), workers):
                        out.append((i, fn(items[i])))
                    with open(os.path.join(tmp, str(w)), "wb") as fp:
                        pickle.dump(out, fp)
                    code = 0
                except BaseException:
                    with open(os.path.join(tmp, f"{w}.err"), "w") as fp:
                        traceback.print_exc(file=fp)
                finally:
                    os._exit(code)
            pids.append(pid)
        bad = None
        for pid in pids:
            _, st = os.waitpid(pid, 0)
            if st != 0:
                bad = st
        if bad is not None:
            text = ""
            for w in range(workers):
                p = os.path.join(tmp, f"{w}.err")
                if os.path.exists(p):
                    with open(p) as fp:
                        text += fp.read()
            raise MachineryError(f"worker failed: {bad}\n{text}")
        res = [None] * len(items)
        for w in range(workers):
            with open(os.path.join(tmp, str(w)), "rb") as fp:
                for i, r in pickle.load(fp):
                    res[i] = r
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fp:
        data = json.load(fp)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def setup_repo_path():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        from loguru import logger

        logger.remove()
    except ImportError:
        pass


def innermost_repo_frame(exc):
    tb = exc.__traceback__
    found = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + os.sep):
            found = f"{os.path.relpath(fn, REPO)}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return found


def fmt_exc(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]
