"""Drives the real development watcher: virtual time, chosen notifications, edits in the middle
of rebuilds."""
import json
import os
import random
import re
import shutil
import sys
import time

import buildsim
import common
import history
import project

TICK = 0.06
DEBOUNCE = 0.1  # two ticks


class VirtualTime:
    """Time that only moves by ticks (and very slightly by itself)."""

    def __init__(self):
        self.real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}
        self.t0 = self.real["monotonic"]()
        self.base = {n: f() for n, f in self.real.items()}
        self.ticks = 0

    def now(self, name):
        return self.base[name] + self.ticks * TICK + (self.real["monotonic"]() - self.t0) * 1e-4

    def install(self):
        import vanillaplusjs.runners.dev as dev

        for n, f in self.real.items():
            fake = (lambda n: lambda: self.now(n))(n)
            setattr(time, n, fake)
            for k, v in list(vars(dev).items()):
                if v is f:
                    setattr(dev, k, fake)


class MidPolicy(buildsim.Policy):
    """Runs pending callbacks between the tasks of a rebuild."""

    def __init__(self, order, seed):
        super().__init__(order)
        self.mids = []
        self.r = random.Random(seed)

    def pick(self, pending):
        while self.mids and self.r.random() < 0.4:
            self.mids.pop(0)()
        return super().pick(pending)


class Watcher:
    """A DevEventHandler and its undelivered notifications."""

    def __init__(self, folder, seed):
        self.folder = os.path.abspath(folder)
        self.policy = MidPolicy(f"random:{seed}", seed)
        buildsim.ST.policy = self.policy
        self.queue = []
        self.r = random.Random(f"w{seed}")
        self.vt = VirtualTime()
        buildsim.do_build(self.folder, dev=True, symlinks=False)()
        self.vt.install()
        from vanillaplusjs.runners.dev import DevEventHandler

        self.handler = DevEventHandler(folder=self.folder, debounce_seconds=DEBOUNCE, symlinks=False)

    def abs(self, rel):
        return os.path.join(self.folder, rel)

    def events(self, kind, rel, rel2=None):
        """watchdog's events for one model notification."""
        import watchdog.events as we

        p = self.abs(rel)
        if kind == "created":
            ev = [we.FileCreatedEvent(p)]
        elif kind == "modified":
            ev = [we.FileModifiedEvent(p)]
        elif kind == "deleted":
            ev = [we.FileDeletedEvent(p)]
        elif kind == "moved":
            ev = [we.FileMovedEvent(p, self.abs(rel2))]
        elif kind == "movedin":
            x = self.r.random()
            tmp = p + ".tmp"
            if x < 0.4:  # from outside of the folder
                ev = [we.FileCreatedEvent(p)]
            elif x < 0.8:
                ev = [we.FileMovedEvent(tmp, p)]
            else:
                ev = [we.FileCreatedEvent(tmp), we.FileModifiedEvent(tmp), we.FileMovedEvent(tmp, p)]
        elif kind == "dirdeleted":
            return [we.DirDeletedEvent(p)]
        else:
            raise AssertionError(kind)
        d = os.path.dirname(p)
        if self.r.random() < 0.5 and kind != "modified":
            ev.insert(self.r.randrange(len(ev) + 1), we.DirModifiedEvent(d))
        return ev

    def dispatch(self, evs):
        """An exception raised by the watcher, or None."""
        try:
            for e in evs:
                self.handler.dispatch(e)
        except Exception as e:
            return f"{type(e).__name__}: {e} @ {common.innermost_repo_frame(e)}"
        return None

    def tick(self):
        self.vt.ticks += 1

    def check(self, mids=()):
        """(whether something was rebuilt, callbacks that did not run, exception)"""
        self.policy.mids = list(mids)
        n = sum(1 for e in buildsim.ST.events if e["e"] == "submit")
        raised = None
        try:
            self.handler.rebuild_if_appropriate()
        except Exception as e:
            raised = f"{type(e).__name__}: {e} @ {common.innermost_repo_frame(e)}"
        left, self.policy.mids = self.policy.mids, []
        return sum(1 for e in buildsim.ST.events if e["e"] == "submit") > n, left, raised


# ---------------------------------------------------------------- schedules of the model

NAMES = {
    "p": "src/public/p.html",
    "q": "src/public/q.html",
    "a": "src/public/d/a.txt",
    "b": "src/public/d/b.txt",
}


def sources(state):
    """The text of every file of the model's state."""
    res = {}
    for f, s in state.items():
        if s["v"] == 0:
            continue
        if f in ("p", "q"):
            body = "".join(
                f'<link rel="preload" href="/d/{g}.txt" as="fetch">\n' for g in sorted(s["refs"])
            )
            res[f] = f"<!DOCTYPE html><html><head>\n{body}</head><body><p>{s['v']}</p></body></html>\n"
        else:
            res[f] = f"text {s['v']}\n"
    return res


def run_schedule(folder, beh, seed):
    """Runs in a forked child; returns (records, log)."""
    P = project.Project(folder)
    w = Watcher(folder, seed)
    cur = {f: {"v": 0, "refs": []} for f in NAMES}
    records = [{"t": "reset"}]
    log = []
    nv = [0]
    order = iter(beh)

    def put(f, replace=False):
        P.write(NAMES[f], sources({f: cur[f]})[f], replace=replace)

    def op(a):
        f = a.get("f")
        ev = []
        if a["a"] in ("write", "replace"):
            nv[0] += 1
            was = cur[f]["v"] > 0
            cur[f] = {"v": nv[0], "refs": sorted(a["refs"])}
            put(f, a["a"] == "replace")
            if a["a"] == "replace":
                ev = [("movedin", f, f)]
            else:
                ev = [("modified", f, f)] if was else [("created", f, f), ("modified", f, f)]
        elif a["a"] == "delete":
            cur[f] = {"v": 0, "refs": []}
            os.unlink(P.abs(NAMES[f]))
            ev = [("deleted", f, f)]
        elif a["a"] == "touch":
            P.touch(NAMES[f])
            ev = [("modified", f, f)]
        elif a["a"] == "move":
            g = a["g"]
            cur[g] = cur[f]
            cur[f] = {"v": 0, "refs": []}
            os.rename(P.abs(NAMES[f]), P.abs(NAMES[g]))
            ev = [("moved", f, g)]
        elif a["a"] == "drop":
            inside = [x for x in ("a", "b") if cur[x]["v"] > 0]
            for x in inside:
                cur[x] = {"v": 0, "refs": []}
            shutil.rmtree(P.abs("src/public/d"), ignore_errors=True)
            if a["reported"]:
                ev = [("deleted", x, x) for x in inside]
            ev.append(("dirdeleted", "none", "none"))
        w.queue += ev
        records.append(
            {"t": "op", "cur": json.loads(json.dumps(cur)), "events": [{"k": k, "f": x, "g": y} for k, x, y in ev]}
        )
        log.append({k: v for k, v in a.items()})

    def deliver():
        k, f, g = w.queue.pop(0)
        if k == "dirdeleted":
            evs = w.events(k, "src/public/d")
        else:
            evs = w.events(k, NAMES[f], NAMES[g])
        r = w.dispatch(evs)
        records.append({"t": "deliver", "raised": r is not None})
        log.append(["deliver", k, f, g] + ([r] if r else []))

    def tick():
        w.tick()
        records.append({"t": "tick"})
        log.append("tick")

    def check(mids=()):
        rec = {"t": "check", "started": False, "raised": False}
        records.append(rec)
        log.append("check")
        todo = [(lambda m: lambda: deliver() if m["a"] == "deliver" else op(m))(m) for m in mids]
        rec["started"], left, r = w.check(todo)
        if r:
            rec["raised"] = True
            log.append(["raised", r])
        records.append({"t": "checked"})
        log.append(["checked", rec["started"]])
        for f in left:
            f()

    i = 0
    while i < len(beh):
        a = beh[i]
        i += 1
        if a["a"] == "deliver":
            if w.queue:
                deliver()
        elif a["a"] == "tick":
            tick()
        elif a["a"] == "check":
            mids = []
            while beh[i]["a"] != "checked":
                mids.append(beh[i])
                i += 1
            i += 1
            check(mids)
        else:
            op(a)
    while w.queue:
        deliver()
    tick()
    tick()
    check()
    check()
    exists = {f for f in cur if cur[f]["v"]}
    valid = all(set(cur[f]["refs"]) <= exists for f in exists)
    same, diff = True, None
    if valid:
        ref = folder + ".ref"
        P.clone(ref)
        buildsim.ST.policy = buildsim.Policy()
        buildsim.do_build(ref, dev=True, symlinks=False)()
        diff = project.same_site(folder, ref)
        same = diff is None
        shutil.rmtree(ref, ignore_errors=True)
    records.append({"t": "sync", "valid": valid, "same": same})
    log.append(["sync", valid, same, diff])
    return records, log


def schedule_session(ctx, idx, beh):
    folder = os.path.join(ctx.scratch, f"watch{idx}")
    os.makedirs(folder)
    try:
        kind, val = buildsim.run_forked(lambda: run_schedule(folder, beh, f"{ctx.seed}.{idx}"), timeout=180)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
        shutil.rmtree(folder + ".ref", ignore_errors=True)
    return kind, val


# ---------------------------------------------------------------- random sites, edited while watched


def signature(p, folder):
    return project.identities(os.path.join(folder, "src"), "src")


def dirs(folder):
    res = set()
    for dp, dn, fn in os.walk(os.path.join(folder, "src")):
        res.add(os.path.relpath(dp, folder))
    return res


class Session:
    def __init__(self, ctx, seed):
        self.ctx = ctx
        self.r = random.Random(f"session-{seed}")
        self.W = history.World(ctx, self.r, f"s{seed}", dangling=0.04)
        self.seed = seed
        self.W.mode = "dev"

    def observe_changes(self, before, bdirs, hide=()):
        """Queues the notifications for what changed."""
        now, ndirs = signature(None, self.W.folder), dirs(self.W.folder)
        q = self.w.queue
        for p in sorted(set(before) | set(now)):
            if p in hide:
                continue
            if p not in before:
                q.append(("created", p, p))
                if self.r.random() < 0.8:
                    q.append(("modified", p, p))
            elif p not in now:
                q.append(("deleted", p, p))
            elif before[p] != now[p]:
                if before[p][0] != now[p][0]:
                    q.append(("movedin", p, p))
                else:
                    q += [("modified", p, p)] * self.r.choice([1, 1, 2])
        for d in sorted(bdirs - ndirs):
            q.append(("dirdeleted", d, d))

    def edit(self):
        W = self.W
        before, bdirs = signature(None, W.folder), dirs(W.folder)
        if self.r.random() < 0.06:
            # a folder is moved away at once
            cand = sorted({os.path.dirname(p) for p in W.site.nodes} - {"src/public", "src"})
            if cand:
                d = self.r.choice(cand)
                gone = [p for p in sorted(W.site.nodes) if p.startswith(d + "/")]
                for p in gone:
                    W.saved.setdefault(p, []).append(W.site.nodes.pop(p))
                out = W.folder + ".moved"
                os.rename(W.p.abs(d), out)
                shutil.rmtree(out)
                W.log.append(("dropfolder", d))
                hide = {p for p in before if p.startswith(d + "/")}
                keep = [x for x in bdirs if x == d or not x.startswith(d + "/")]
                self.observe_changes(before, set(keep), hide)
                return
        W.random_edit()
        self.observe_changes(before, bdirs)

    def fix(self):
        before, bdirs = signature(None, self.W.folder), dirs(self.W.folder)
        self.W.fix()
        self.observe_changes(before, bdirs)

    def deliver(self):
        k, f, g = self.w.queue.pop(0)
        r = self.w.dispatch(self.w.events(k, f, g))
        if r:
            self.raised.append(r)

    def check(self, mids=()):
        before, bdirs = signature(None, self.W.folder), dirs(self.W.folder)
        self.mid = False
        started, left, r = self.w.check(mids)
        if r:
            self.raised.append(r)
        if not self.mid:
            # placeholders are created by the rebuild and reported like everything else
            self.observe_changes(before, bdirs)
        for f in left:
            f()
        return started

    def run(self):
        W, r = self.W, self.r
        self.raised = []
        W.populate(r.choice([4, 8, 16, 24]))
        if W.site.problem():
            W.fix()
        self.w = Watcher(W.folder, self.seed)
        for _ in range(6):
            for _ in range(r.choice([1, 1, 2, 4])):
                x = r.random()
                for _ in range(r.choice([1, 1, 2, 3])):
                    self.edit()
                if x < 0.5:
                    for _ in range(r.randint(0, len(self.w.queue))):
                        self.deliver()
                if x < 0.35:
                    self.w.tick()
                    self.w.tick()
                    self.check([self.mid_edit] if r.random() < 0.6 else [])
            if W.site.problem() and r.random() < 0.8:
                self.fix()
            for _ in range(6):
                while self.w.queue:
                    self.deliver()
                self.w.tick()
                self.w.tick()
                if not self.check() and not self.w.queue:
                    break
            W.log.append(("drained",))
            self.sync()
        return W.records, W.log, self.raised

    def mid_edit(self):
        self.mid = True
        self.edit()
        for _ in range(self.r.randint(0, len(self.w.queue))):
            self.deliver()

    def sync(self):
        W = self.W
        rec = W.begin_record()
        rec["mode"] = "dev"
        buildsim.ST.policy = buildsim.Policy()
        if rec["valid"] == "yes":
            end = {"t": "end", "result": "ok", "srcok": True, "cycle": False}
            W.observe(end, True)
        else:
            end = {"t": "end", "result": "error", "srcok": True, "cycle": False}
        W.records.append(end)
        W.log.append(("->", end["result"], ""))
        buildsim.ST.policy = self.w.policy


def session(ctx, seed):
    s = Session(ctx, seed)
    try:
        kind, val = buildsim.run_forked(s.run, timeout=240)
        return kind, val
    finally:
        s.W.wipe()
        for f in os.listdir(ctx.scratch):
            if f.startswith(os.path.basename(s.W.folder) + "."):
                shutil.rmtree(os.path.join(ctx.scratch, f), ignore_errors=True)
