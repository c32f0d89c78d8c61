"""E01, E02: external files against spec/External.tla."""
import base64
import gzip
import hashlib
import http.server
import json
import os
import random
import re
import shutil
import threading

import buildsim
import common
import project

SIM = """
CONSTANTS Path = {"p", "q", "r"}
 Content = {1, 2, 3}
 Steps = %d
SPECIFICATION SSpec
INVARIANTS Emit
"""
MC = """
CONSTANTS Path = {%s}
 Content = {1, 2}
SPECIFICATION Spec
PROPERTIES Correct NotReplaced Forgotten OnlyManaged
"""
TRACE = """
CONSTANTS Path = {"p", "q", "r"}
 Content = {1, 2, 3}
SPECIFICATION TSpec
POSTCONDITION AllRead
"""

WHERE = {"p": "src/public/lib/p.txt", "q": "src/public/q.css", "r": "vendor/deep/r.bin"}
ALGO = {"p": "sha256", "q": "sha384", "r": "sha512"}


def body(p, c):
    head = f"/* EXT:{p}:{c}: */\n".encode()
    if c == 3:
        return head
    # q's first two contents only differ at the end, and are large
    return head[:8] + b"." * (30000 if p == "q" else 20) + b"\n/*" + str(c).encode() + b"*/\n"


def integrity(p, c):
    return ALGO[p] + "-" + base64.b64encode(hashlib.new(ALGO[p], body(p, c)).digest()).decode()


class Server:
    """Serves /<p>; what it does is decided by state and how."""

    def __init__(self, rng):
        self.state = {p: 0 for p in WHERE}
        self.asked = []
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.0"

            def do_GET(self):
                p = self.path.strip("/").split("/")[-1]
                if self.path.startswith("/moved/"):
                    self.send_response(302)
                    self.send_header("Location", "/" + p)
                    self.end_headers()
                    return
                outer.asked.append(p)
                c = outer.state[p]
                how = rng.random()
                if c == 0:
                    if how < 0.3:
                        self.send_response(404)
                        self.end_headers()
                        self.wfile.write(body(p, 1))
                    elif how < 0.5:
                        self.send_response(500)
                        self.end_headers()
                    elif how < 0.7:
                        # an error with the right content
                        self.send_response(403)
                        self.end_headers()
                        for x in (1, 2, 3):
                            if integrity(p, x) == outer.want.get(p):
                                self.wfile.write(body(p, x))
                    elif how < 0.9:
                        b = body(p, 1)
                        self.send_response(200)
                        self.send_header("Content-Length", str(len(b)))
                        self.end_headers()
                        self.wfile.write(b[: len(b) // 2])
                    else:
                        self.close_connection = True
                        self.connection.shutdown(2)
                    return
                b = body(p, c)
                self.send_response(200)
                if how < 0.25:
                    b = gzip.compress(b)
                    self.send_header("Content-Encoding", "gzip")
                if how < 0.7:
                    self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)

            def log_message(self, *a):
                pass

        self.want = {}
        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()


def replay(ctx, idx, beh):
    """Runs in a forked child: every build in the same process, the server in a thread."""
    rng = random.Random(f"ext-{ctx.seed}-{idx}")
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    folder = os.path.join(ctx.scratch, f"ext{idx}")
    os.makedirs(folder)
    P = project.Project(folder)
    P.write("src/public/other.txt", "other")
    srv = Server(rng)
    decl = {p: 0 for p in WHERE}
    records, log = [{"t": "reset"}], []

    def files():
        res = {}
        for p, rel in WHERE.items():
            if not P.exists(rel):
                res[p] = 0
            else:
                b = P.read(rel)
                res[p] = next((c for c in (1, 2, 3) if body(p, c) == b), 99)
        return res

    def ident():
        return {
            p: (lambda s: (s.st_ino, s.st_mtime_ns, s.st_size))(os.lstat(P.abs(rel))) if P.exists(rel) else None
            for p, rel in WHERE.items()
        }

    def config():
        ext = {}
        for p, c in decl.items():
            if c:
                url = f"http://127.0.0.1:{srv.port}/" + ("moved/" if rng.random() < 0.2 else "") + p
                key = WHERE[p]
                ext[key] = {"url": url, "integrity": integrity(p, c)}
                if rng.random() < 0.2:
                    ext[f"the {p}"] = dict(ext.pop(key), relpath=WHERE[p])
        P.config["external_files"] = ext
        srv.want = {p: integrity(p, c) for p, c in decl.items() if c}
        P.write_config()

    edited = False
    for e in beh:
        if e["a"] == "declare":
            decl[e["p"]] = e["c"]
        elif e["a"] == "serve":
            srv.state[e["p"]] = e["c"]
        elif e["a"] == "local":
            rel = WHERE[e["p"]]
            now = files()[e["p"]]
            if e["c"] == 0:
                if P.exists(rel):
                    os.unlink(P.abs(rel))
            elif e["c"] == now:
                P.touch(rel)
            elif now and rng.random() < 0.4:
                st = os.stat(P.abs(rel))
                P.write(rel, body(e["p"], e["c"]), replace=True, mtime=st.st_mtime)
                if os.stat(P.abs(rel)).st_ino == st.st_ino:
                    P.touch(rel)
            else:
                P.write(rel, body(e["p"], e["c"]))
        log.append([e["a"], e.get("p"), e.get("c")])
        if e["a"] != "build":
            edited = True
            continue
        if edited or len(records) == 1:
            records.append({"t": "edit", "decl": dict(decl), "file": files(), "server": dict(srv.state)})
            config()
            edited = False
        before = ident()
        srv.asked.clear()
        buildsim.ST.policy = buildsim.Policy(f"random:{rng.random()}")
        exc = None
        try:
            buildsim.do_build(folder, dev=rng.random() < 0.3, symlinks=False)()
            result = "ok"
        except Exception as x:
            result = "failed"
            exc = f"{type(x).__name__}: {x}"[:200]
        after = ident()
        temp = []
        for rel, b in project.tree(folder, "").items():
            if rel.startswith("out/www/") or rel in WHERE.values() or b is None:
                continue
            if b"EXT:" in b or b"/* EXT" in b:
                temp.append(rel)
        rest = P.read("src/public/other.txt") == b"other" and set(P.sources()) <= {"src/public/other.txt", *WHERE.values()}
        if result == "ok":
            now = files()
            for p in ("p", "q"):
                pub = "out/www/" + WHERE[p][len("src/public/") :]
                if P.exists(pub) != (now[p] != 0) or (now[p] and p == "p" and P.read(pub) != body(p, now[p])):
                    rest = False
        rec = {
            "t": "build",
            "result": result,
            "file": files(),
            "asked": sorted(set(srv.asked)),
            "touched": sorted(p for p in WHERE if before[p] != after[p]),
            "temp": bool(temp),
            "rest": rest,
        }
        if len(srv.asked) != len(set(srv.asked)):
            rec["rest"] = False  # downloaded more than once
        records.append(rec)
        log.append(["->", result, exc, rec["asked"], temp])
    return records, log


def one(ctx, item):
    try:
        return buildsim.run_forked(lambda: replay(ctx, *item), timeout=180)
    finally:
        shutil.rmtree(os.path.join(ctx.scratch, f"ext{item[0]}"), ignore_errors=True)


def kind_of(rec, prev):
    """Which of the two properties an unexplained build speaks about."""
    d = prev["decl"]
    wrong = [p for p in d if d[p] and rec["file"][p] not in (d[p], prev["file"][p])]
    if rec["result"] == "ok" and any(d[p] and rec["file"][p] != d[p] for p in d):
        return "both"
    if rec["temp"] or wrong:
        return "E01"
    need = [p for p in d if d[p] and prev["file"][p] != d[p]]
    if sorted(need) != sorted(rec["asked"]) or (rec["result"] == "ok") != all(
        prev["server"][p] == d[p] for p in need
    ):
        return "both"
    return "E02"


def check(ctx, prop, num):
    behs = []
    for steps in (10, 20, 40):
        r = ctx.tlc_ok("ExternalSim", SIM % steps, simulate=f"num={num}", depth=steps + 5, workers=1)
        for m in re.finditer(r'^<<\s*"BEHAVIOUR",\s*(".*")\s*>>$', r.out, re.M):
            behs.append(json.loads(json.loads(m.group(1))))
    if not behs:
        raise common.MachineryError("no behaviours")
    buildsim.install()
    res = common.parallel(lambda x: one(ctx, x), list(enumerate(behs)))
    ctx.count("behaviours_replayed", len(behs))
    ctx.sample(res[0][1][1])
    ok = []
    for i, (k, v) in enumerate(res):
        if k != "value":
            ctx.violation("external:" + k, f"behaviour {i}: {k}", behs[i])
        else:
            ok.append((i, v))
            ctx.count("builds", sum(1 for r in v[0] if r["t"] == "build"))
    work = [ok[i : i + 40] for i in range(0, len(ok), 40)]
    while work and not ctx.enough():
        chunk = work.pop(0)
        recs = [r for _, (rs, _) in chunk for r in rs]
        r = ctx.tlc(
            "ExternalTrace", TRACE, files={"trace.ndjson": "\n".join(json.dumps(x) for x in recs) + "\n"},
            workers=1, heap="3g",
        )
        if r.ok:
            ctx.traces += len(chunk)
            continue
        m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
        if m is None:
            raise common.MachineryError(r.tail(30))
        at = int(m.group(1)) - 1
        for i, (rs, log) in chunk:
            if at < len(rs):
                break
            at -= len(rs)
        prev = [x for x in rs[:at] if x["t"] in ("edit", "build")]
        state = {"decl": {}, "file": {p: 0 for p in WHERE}, "server": {}}
        for x in prev:
            state.update({k: x[k] for k in ("decl", "file", "server") if k in x})
        kind = kind_of(rs[at], state)
        if kind in (prop, "both"):
            ctx.violation("external:trace", f"behaviour {i}: unexplained {rs[at]} after {prev[-1]}: {log[-14:]}", {"log": log})
        rest = [c for c in chunk if c[0] != i]
        if rest:
            work.append(rest)


def check_E01(ctx):
    ctx.tlc_ok("External", MC % ctx.n('"p", "q"', '"p", "q", "r"'), timeout=1500)
    check(ctx, "E01", ctx.n(60, 1000))


def check_E02(ctx):
    ctx.tlc_ok("External", MC % ctx.n('"p", "q"', '"p", "q", "r"'), timeout=1500)
    check(ctx, "E02", ctx.n(60, 1000))
