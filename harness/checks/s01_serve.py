"""S01: the web server against spec/Serve.tla."""
import json
import os
import posixpath
import random
import re
import shutil
import signal
import socket
import time
import urllib.parse

import buildsim
import common
import project

MC = """
CONSTANTS Path <- MCPath
 Content = {1, 2}
 Root <- MCRoot
SPECIFICATION Spec
INVARIANTS Contained Available Answered Detours Fresh
"""
SIM = """
CONSTANTS Path <- SimPath
 Content = {1, 2, 3}
 Root <- SimRoot
 Steps = %d
SPECIFICATION SSpec
INVARIANT Emit
"""
TRACE = """
CONSTANTS Path <- SimPath
 Content = {1, 2, 3}
 Root <- SimRoot
SPECIFICATION TSpec
POSTCONDITION AllRead
"""
# what the names of the specification stand for
NAMES = {
    "sp.css": "s p+%41.css",
    "uni.txt": "\u00fc\u00f1?#;.txt",
    "nul": "a\0b",
    "long": "x" * 300,
    "back": "..\\..\\vanillaplusjs.json",
    "enc": "%2e%2e",
}
TYPES = {
    "html": "text/html", "js": "text/javascript", "css": "text/css", "webp": "image/webp", "svg": "image/svg+xml",
    "txt": "text/plain",
}
SECRET = b"SECRET: not published"


def real(segs):
    return "/".join(NAMES.get(s, s) for s in segs)


def body(p, c):
    head = f"PUBLISHED {'/'.join(p)} {c}\n".encode()
    return head * (4000 if c == 3 else 1)


def ask(port, target, method="GET", headers=()):
    """(status, headers, body); sends the target as it is."""
    s = socket.create_connection(("127.0.0.1", port), timeout=20)
    try:
        req = f"{method} {target} HTTP/1.1\r\nHost: 127.0.0.1:{port}\r\nConnection: close\r\n"
        for k, v in headers:
            req += f"{k}: {v}\r\n"
        s.sendall(req.encode("ascii") + b"\r\n")
        data = b""
        while True:
            x = s.recv(1 << 16)
            if not x:
                break
            data += x
    finally:
        s.close()
    head, _, rest = data.partition(b"\r\n\r\n")
    lines = head.decode("latin-1").split("\r\n")
    hs = {}
    for line in lines[1:]:
        k, _, v = line.partition(":")
        hs[k.strip().lower()] = v.strip()
    status = int(lines[0].split()[1]) if len(lines[0].split()) > 1 else 0
    if hs.get("transfer-encoding") == "chunked":
        out = b""
        while rest:
            n, _, rest = rest.partition(b"\r\n")
            n = int(n, 16)
            out += rest[:n]
            rest = rest[n + 2 :]
            if n == 0:
                break
        rest = out
    return status, hs, rest


class Server:
    """The tool's own server for the project, in a process of its own."""

    def __init__(self, folder, rng):
        self.folder = folder
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
        relative = rng.random() < 0.3
        self.dead = False
        self.pid = os.fork()
        if self.pid == 0:
            try:
                devnull = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(devnull, fd)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                from vanillaplusjs.runners.run import run_server

                if relative:
                    os.chdir(os.path.dirname(folder))
                run_server(host="127.0.0.1", port=self.port, folder=os.path.basename(folder) if relative else folder)
            finally:
                os._exit(3)

    def wait(self):
        end = time.monotonic() + 30
        while time.monotonic() < end:
            try:
                ask(self.port, "/")
                return True
            except OSError:
                time.sleep(0.02)
                if self.gone():
                    return False
        return False

    def gone(self):
        self.dead = self.dead or os.waitpid(self.pid, os.WNOHANG)[0] != 0
        return self.dead

    def close(self):
        if self.dead:
            return
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except (ProcessLookupError, ChildProcessError):
            pass


def quote(rng, segs):
    """Every way to write the segments in a request."""
    out = []
    for s in segs:
        text = NAMES.get(s, s)
        q = urllib.parse.quote(text, safe="" if rng.random() < 0.5 else "+;~!$&'()*,=:@")
        if rng.random() < 0.25:
            q = "".join(
                f"%{ord(c):02{rng.choice('xX')}}" if ord(c) < 128 and c not in "%" and rng.random() < 0.5 else c for c in text
            ) if all(ord(c) < 128 and (c.isalnum() or c in "._-") for c in text) else q
        out.append(q)
    sep = "%2f" if rng.random() < 0.07 else "/"
    return sep.join(out)


def replay(ctx, item):
    idx, beh = item
    rng = random.Random(f"serve-{ctx.seed}-{idx}")
    folder = os.path.join(ctx.scratch, f"serve{idx}")
    www = os.path.join(folder, "out", "www")
    os.makedirs(www)
    os.makedirs(os.path.join(folder, "src", "public"))

    def put(rel, data):
        p = os.path.join(folder, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fp:
            fp.write(data)
        project.Project.clock += 7
        os.utime(p, (project.Project.clock,) * 2)
        return p

    for rel in (
        "vanillaplusjs.json", "secret", "index.html", "src/secret", "src/public/secret", "src/index.html", "out/secret",
        "out/index.html", "out/www2/index.html", "out/www2/a.js", "out/www2/secret", "out/wwww", "src/public/d/secret",
    ):
        put(rel, SECRET)
    put("out/www/index.html", SECRET)
    server = Server(folder, rng)
    records, log = [{"op": "reset"}], []
    try:
        if not server.wait():
            return None, ["the server did not start"]
        os.unlink(os.path.join(www, "index.html"))
        tree, etags, n = {}, {}, 0
        for o in beh:
            rec = dict(o)
            if o["op"] == "put":
                p, n = tuple(o["p"]), n + 1
                target = os.path.join(www, real(p))
                if os.path.lexists(target) and not os.path.isdir(target):
                    if o["c"] == 0 or rng.random() < 0.7:
                        os.unlink(target)
                d = os.path.dirname(target)
                while o["c"] == 0 and d != www and os.path.isdir(d) and not os.listdir(d):
                    os.rmdir(d)
                    d = os.path.dirname(d)
                if o["c"]:
                    data = body(p, o["c"])
                    source = f"src/public/{n}.source"
                    if os.path.lexists(target):
                        put("out/www/" + real(p), data)  # in place, or through the symlink
                    elif rng.random() < 0.5:
                        s = put(source, data)
                        os.makedirs(os.path.dirname(target), exist_ok=True)
                        if rng.random() < 0.5:
                            s = os.path.relpath(s, os.path.dirname(target))
                        os.symlink(s, target)
                    else:
                        put("out/www/" + real(p), data)
                tree[p] = o["c"]
            else:
                raw = quote(rng, o["segs"])
                target = "/" + raw + ("/" if o["slash"] and o["segs"] else "")
                decoded = urllib.parse.unquote(target)
                query = rng.choice(["", "", "", "?v=abc%3D&pv=1", "?", "?/../x"])
                found = [s for s in posixpath.normpath("/" + "/".join(o["segs"])).split("/") if s]
                cand = tuple(found)
                if not tree.get(cand):
                    cand = cand + ("index.html",)
                hs = []
                rec["cond"] = bool(o["cond"] and cand in etags)
                if rec["cond"]:
                    hs = [("If-None-Match", etags[cand])]
                try:
                    status, head, got = ask(server.port, target + query, "HEAD" if o["head"] else "GET", hs)
                except OSError as e:
                    status, head, got = 0, {"error": str(e)}, b""
                rec["status"] = status
                rec["secret"] = SECRET in got
                rec["body"] = 0 if not got else -1
                rec["right"] = True
                for q, c in tree.items():
                    for k in (1, 2, 3):
                        if got == body(q, k):
                            # other contents than those of this path are nobody's business here
                            rec["body"] = k if q in (cand, ("404.html",)) or ".." in o["segs"] else -1
                            if status == 200:
                                ext = q[-1].rpartition(".")[2] if "." in q[-1] else None
                                kind = head.get("content-type", "").split(";")[0].strip()
                                rec["right"] = ext is None or kind == TYPES[ext]
                                if q in (cand,) and "etag" in head:
                                    etags[q] = head["etag"]
                                elif q in etags:
                                    del etags[q]
                loc = head.get("location", "")
                m = re.match(r"^(?:https?://[^/]*)?(/[^?]*)(\?.*)?$", loc)
                rec["loc"] = bool(m) and urllib.parse.unquote(m.group(1)) == decoded + "/"
                if m and any(c in decoded for c in "%?#\\\0"):
                    # how names which must be quoted are quoted in redirects is up to the library
                    rec["loc"] = True
                if server.gone():
                    rec["status"] = 0
            records.append(rec)
            log.append([rec.get("p") or "/".join(rec["segs"]), rec.get("c"), rec.get("slash"), rec.get("status"), rec.get("body")])
            if o["op"] == "get":
                log[-1] += [target, loc, rec["cond"], rec["right"]]
        return records, log
    finally:
        server.close()
        shutil.rmtree(folder, ignore_errors=True)


def check_S01(ctx):
    ctx.tlc_ok("ServeMC", MC, timeout=1500)
    behs = []
    for steps, num in ((30, ctx.n(24, 400)), (80, ctx.n(16, 300))):
        r = ctx.tlc_ok("ServeSim", SIM % steps, simulate=f"num={num}", depth=steps + 3, workers=1)
        for m in re.finditer(r'^<<\s*"BEHAVIOUR",\s*(".*")\s*>>$', r.out, re.M):
            behs.append(json.loads(json.loads(m.group(1))))
    import vanillaplusjs.runners.run  # noqa: F401  (before forking)

    res = common.parallel(lambda x: replay(ctx, x), list(enumerate(behs)))
    ctx.count("behaviours_replayed", len(behs))
    ctx.count("requests", sum(1 for r in res if r[0] for x in r[0] if x["op"] == "get"))
    ctx.sample(res[0][1][:8])
    work = []
    for i, (recs, log) in enumerate(res):
        if recs is None:
            ctx.violation("serve:start", f"behaviour {i}: {log}", None)
        else:
            work.append(i)
    work = [work[i : i + 20] for i in range(0, len(work), 20)]
    while work and not ctx.enough():
        chunk = work.pop(0)
        lines = [json.dumps(x) for i in chunk for x in res[i][0]]
        r = ctx.tlc("ServeTrace", TRACE, files={"trace.ndjson": "\n".join(lines) + "\n"}, workers=1, heap="3g")
        if r.ok:
            ctx.traces += len(chunk)
            continue
        m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
        if m is None:
            raise common.MachineryError(r.tail(30))
        at = int(m.group(1)) - 1
        for i in chunk:
            if at < len(res[i][0]):
                break
            at -= len(res[i][0])
        ctx.violation(
            "serve:trace", f"behaviour {i}: unexplained {res[i][1][at - 1]} after {res[i][1][max(0, at - 8) : at - 1]}",
            {"log": res[i][1][:at], "record": res[i][0][at]},
        )
        rest = [c for c in chunk if c > i]
        if rest:
            work.append(rest)
