"""A01: what typed commands do, in processes of their own, against spec/Cli.tla."""
import http.client
import json
import os
import random
import re
import shutil
import signal
import socket
import subprocess
import sys
import time

import common
import project

MODEL = """SPECIFICATION MSpec
VIEW View
CONSTANTS
 Folder = {"A", "B"}
 Hosts = {"example.org"}
 Addresses = {"127.0.0.1"}
 Ports = {"P1"}
PROPERTIES FailuresAreClean UsageIsAnError Elsewhere EditedStays OnlyIfAgreed HostStays DevIsDev ProdIsDefault RunOnlyServes CleanIsClean
"""
CONSTANTS = """CONSTANTS
 Folder = {"A", "B", "C"}
 Hosts = {"example.org", "www.example.com:8080"}
 Addresses = {"127.0.0.1", "127.0.0.2", "localhost"}
 Ports = {"P1", "P2"}
"""
SIM = "SPECIFICATION SSpec\nINVARIANT Emit\n" + CONSTANTS + " Steps = %d\n Serving = %d\n"
TRACE = "SPECIFICATION TSpec\nINVARIANT Accepted\n" + CONSTANTS
HOLDER = "src/public/js/pics.images.js"
PAGE = "src/public/page.html"


def page(n):
    return f"<!DOCTYPE html><html><head><title>{n}</title></head><body><p>page {n}</p></body></html>\n".encode()


def get(address, port, path):
    c = http.client.HTTPConnection(address, port, timeout=10)
    try:
        c.request("GET", path, headers={"Connection": "close"})
        r = c.getresponse()
        return r.status, r.read()
    except (OSError, http.client.HTTPException):
        return None, b""
    finally:
        c.close()


class Shell:
    def __init__(self, ctx, idx):
        self.rng = random.Random(f"cli-{ctx.seed}-{idx}")
        self.base = os.path.join(ctx.scratch, f"cli{idx}")
        self.port = 12000 + (idx % 200) * 40
        self.users = {}
        self.gen = {d: None for d in "ABC"}
        self.kept = set()  # where what generated the placeholder was forgotten
        for d in "ABC":
            os.makedirs(os.path.join(self.base, d))
        self.n = 0

    def abs(self, d, *rel):
        return os.path.join(self.base, d, *rel)

    def ports(self):
        """Two ports nobody listens on."""
        res = []
        while len(res) < 2:
            self.port += 1
            try:
                for a in ("127.0.0.1", "127.0.0.2"):
                    with socket.socket() as s:
                        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                        s.bind((a, self.port))
                res.append(self.port)
            except OSError:
                pass
        return dict(zip(("P1", "P2"), res))

    # ---- the user's steps
    def write(self, d, rel, data):
        p = self.abs(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fp:
            fp.write(data)
        self.users[d, rel] = data

    def user(self, u):
        d = u["d"]
        self.n += 1
        if u["user"] == "write":
            self.write(d, "src/public/plain.txt", f"plain {self.n}\n".encode())
            self.write(d, PAGE, page(self.n))
            self.write(d, "src/public/js/constants.js", b"// constants\n")
            self.write(d, "src/public/img/p.png", project.png(8, 8, self.n))
            lists = {"one": {"path": "/img/p.png", "width": 4, "height": 4}}
            self.write(d, HOLDER + "on", json.dumps(lists).encode())
        else:
            with open(self.abs(d, HOLDER), "ab") as fp:
                fp.write(b"// mine now\n")

    # ---- what there is
    def observe(self):
        f, users = {}, True
        for d in "ABC":
            now = {}
            for dp, dn, fn in os.walk(self.abs(d)):
                if dp == self.abs(d):
                    dn[:] = [x for x in dn if x not in ("out", "artifacts")]
                for x in fn:
                    with open(os.path.join(dp, x), "rb") as fp:
                        now[os.path.relpath(os.path.join(dp, x), self.abs(d))] = fp.read()
            rec = {"cfg": "none", "site": (d, PAGE) in self.users, "gen": "none", "k": "none", "link": "none"}
            for rel in ("vanillaplusjs.json", "src/public/index.html"):
                if rel in now and (d, rel) not in self.users:
                    self.users[d, rel] = now[rel]  # made by init
            if "vanillaplusjs.json" in now:
                try:
                    host = json.loads(now["vanillaplusjs.json"])["host"]
                    rec["cfg"] = "null" if host is None else str(host)
                except (ValueError, KeyError, TypeError):
                    rec["cfg"] = "broken"
            holder = now.pop(HOLDER, None)
            if holder is None:
                self.gen[d] = None
                self.kept.discard(d)
            else:
                if self.gen[d] is None:
                    self.gen[d] = holder
                if not os.path.lexists(self.abs(d, "out")):
                    self.kept.add(d)
                rec["gen"] = (
                    ("kept" if d in self.kept else "gen") if holder == self.gen[d] else "edited" if holder == self.gen[d] + b"// mine now\n" else "changed"
                )
            users = users and now == {r: b for (e, r), b in self.users.items() if e == d}
            rec["out"] = os.path.lexists(self.abs(d, "out")) or os.path.lexists(self.abs(d, "artifacts"))
            k = self.abs(d, "out/www/js/constants.js")
            if os.path.exists(k):
                with open(k) as fp:
                    text = fp.read()
                rec["k"] = "dev" if "http://127.0.0.1:8080" in text else "prod" if re.search("[\"']{2}", text) else "broken"
            t = self.abs(d, "out/www/plain.txt")
            if os.path.lexists(t):
                rec["link"] = "link" if os.path.islink(t) else "copy"
                try:
                    with open(t, "rb") as fp:
                        if fp.read() != self.users.get((d, "src/public/plain.txt")):
                            rec["link"] = "wrong"
                except OSError:
                    rec["link"] = "broken"
            if rec["out"] and rec["k"] == "none" and not os.path.exists(self.abs(d, "out/www/index.html")):
                rec["out"] = "partly"
            f[d] = rec
        return f, users

    # ---- a command
    def argument(self, option, v, ports):
        if option == "--folder" and v in ("A", "B", "C"):
            return self.rng.choice([self.abs(v), f"../{v}"] + [".", "./"] * (v == "A"))
        return str(ports.get(v, v))

    def words(self, argv, ports):
        res, before = [], None
        for w in argv:
            if len(w) == 2:
                res.append(f"{w[0]}={self.argument(w[0], w[1], ports)}")
            else:
                res.append(self.argument(before, w[0], ports))
            before = w[0]
        return res

    def run(self, o):
        ports = self.ports() if any("--port" in w for w in o["argv"]) else {"P1": 0, "P2": 0}
        rec = dict(o)
        words = self.words(o["argv"], ports)
        env = dict(os.environ, PYTHONPATH=common.REPO, PYTHONUTF8="1")
        env.pop("VERIF_SEED", None)
        log = os.path.join(self.base, "log")
        with open(log, "wb") as out:
            pr = subprocess.Popen(
                [sys.executable, "-m", "vanillaplusjs.main", *words],
                cwd=self.abs("A"), stdin=subprocess.PIPE, stdout=out, stderr=out, env=env, start_new_session=True,
            )
        rec["s"] = {"at": [], "port": "none", "k": "none", "late": "none"}
        try:
            try:
                pr.stdin.write("".join(x + "\n" for x in o["in"]).encode())
                pr.stdin.close()
            except OSError:
                pass
            if o["argv"] and o["argv"][0][0] in ("run", "dev"):
                self.serve(o, ports, pr, rec["s"])
            rc = pr.wait(120)
            rec["end"] = "ok" if rc == 0 else "error"
        except subprocess.TimeoutExpired:
            rec["end"] = "hang"
        finally:
            try:
                os.killpg(pr.pid, signal.SIGKILL)
            except OSError:
                pass
            pr.wait()
        with open(log, "rb") as fp:
            tail = fp.read()[-300:].decode("utf-8", "replace")
        return rec, words, tail

    def serve(self, o, ports, pr, s):
        t = time.time()
        answers = []
        while not answers and pr.poll() is None and time.time() - t < 90:
            answers = [(a, p) for p in ports for a in ("127.0.0.1", "127.0.0.2") if get(a, ports[p], "/index.html")[0] == 200]
            time.sleep(0.05)
        if not answers:
            if pr.poll() is None:
                pr.send_signal(signal.SIGINT)
            return
        time.sleep(0.3)
        answers = [(a, p) for p in ports for a in ("127.0.0.1", "127.0.0.2") if get(a, ports[p], "/index.html")[0] == 200]
        s["at"] = sorted({a for a, _ in answers})
        s["port"] = "+".join(sorted({p for _, p in answers}))
        a, p = answers[0][0], ports[answers[0][1]]
        st, body = get(a, p, "/js/constants.js")
        s["k"] = "none" if st != 200 else "dev" if b"http://127.0.0.1:8080" in body else "prod"
        if o["edit"]:
            # the observer starts after the server
            time.sleep(2)
            d = "A"
            for w, x in zip(o["argv"], o["argv"][1:] + [[]]):
                if w[0] == "--folder":
                    d = w[1] if len(w) == 2 else x[0]
            self.n += 1
            new = f"page {self.n}</p>".encode()
            watched = ["--watch"] in o["argv"]
            t0 = time.time()
            self.write(d, PAGE, page(self.n))
            s["late"] = "old"
            while time.time() - t0 < (40 if watched else 1.5):
                t1 = time.time()
                st, body = get(a, p, "/page.html")
                if st == 200 and new in body:
                    # fast enough only if it was seen soon
                    s["late"] = "new" if t1 - t0 < 3.5 else "old-new"
                    break
                time.sleep(0.1)
        pr.send_signal(signal.SIGINT)


def replay(ctx, item):
    idx, ops = item
    sh = Shell(ctx, idx)
    records, log = [{"reset": True}], ["reset"]
    try:
        for o in ops:
            if "user" in o:
                if o["user"] == "touch" and sh.gen[o["d"]] is None:
                    break  # went another way than the specification; judged already
                if o["user"] == "write" and not os.path.exists(sh.abs(o["d"], "vanillaplusjs.json")):
                    break
                sh.user(o)
                records.append(o)
                log.append([o["user"], o["d"]])
                continue
            rec, words, tail = sh.run(o)
            rec["f"], rec["users"] = sh.observe()
            records.append(rec)
            log.append([words, o["in"], "->", rec["end"], rec["s"], rec["f"], "" if rec["end"] == "ok" else tail[-160:]])
        return records, log
    finally:
        shutil.rmtree(sh.base, ignore_errors=True)


def behaviours(ctx, num):
    res = []
    for steps, serving, n in ((10, 0, num), (10, 2, num), (7, 5, num)):
        r = ctx.tlc_ok("CliSim", SIM % (steps, serving), simulate=f"num={n}", depth=steps + 3, workers=1)
        for m in re.finditer(r'^<<\s*"BEHAVIOUR",\s*(".*")\s*>>$', r.out, re.M):
            res.append(json.loads(json.loads(m.group(1))))
    if not res:
        raise common.MachineryError("no behaviours")
    return list(enumerate(res))


def check_A01(ctx):
    ctx.tlc_ok("CliMC", MODEL)
    items = behaviours(ctx, ctx.n(14, 200))
    res = common.parallel(lambda x: replay(ctx, x), items)
    ctx.count("behaviours_replayed", len(items))
    ctx.count("commands", sum(1 for r in res for x in r[0] if "argv" in x))
    ctx.count("served", sum(1 for r in res for x in r[0] if x.get("s", {}).get("at")))
    ctx.count("edited_while_served", sum(1 for r in res for x in r[0] if x.get("s", {}).get("late", "none") != "none"))
    ctx.sample(res[0][1])
    todo = list(range(len(res)))
    while todo and not ctx.enough():
        lines = [json.dumps(x) for i in todo for x in res[i][0]]
        r = ctx.tlc("CliTrace", TRACE, files={"trace.ndjson": "\n".join(lines) + "\n"}, workers=1)
        if r.ok:
            ctx.traces += len(todo)
            break
        m = re.findall(r"/\\ errs = \{(.+)\}", r.out)
        k = re.findall(r"/\\ l = (\d+)", r.out)
        if r.violated != "Accepted" or not m:
            raise common.MachineryError(r.tail(30))
        at = int(k[-1]) - 2
        for i in todo:
            if at < len(res[i][0]):
                break
            at -= len(res[i][0])
        code = m[-1].replace('"', "")
        ctx.violation(
            f"cli:{code}", f"behaviour {i}: {code}: {res[i][1][max(0, at - 6) : at + 1]}", {"log": res[i][1][: at + 1], "record": res[i][0][at]}
        )
        todo = [x for x in todo if x > i]
