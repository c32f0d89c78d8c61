"""D01, D02: the development watcher against spec/Watch.tla and spec/WatchTrace.tla."""
import json
import re

import buildcheck
import buildsim
import common
import history
import watchsim

MC = """
CONSTANTS Page = {%s}
 Leaf = {a, b}
 Inside = {%s}
 MaxOps = %d
 Debounce = 2
SPECIFICATION FairSpec
INVARIANTS Converged NotGivenUp
PROPERTIES Debounced NoSpin Consumes Eventually
"""

SIM = """
CONSTANTS Page = {p, q}
 Leaf = {a, b}
 Inside = {a, b}
 MaxOps = %d
 Debounce = 2
SPECIFICATION SSpec
INVARIANTS Emit Converged NotGivenUp
"""

TRACE = """
CONSTANTS Page = {"p", "q"}
 Leaf = {"a", "b"}
 Inside = {"a", "b"}
 MaxOps = 1
 Debounce = 2
SPECIFICATION TSpec
POSTCONDITION AllRead
"""


def behaviours(ctx, num, ops):
    r = ctx.tlc_ok("WatchSim", SIM % ops, simulate=f"num={num}", depth=400, workers=1)
    seen, out = set(), []
    for m in re.finditer(r'^<<\s*"BEHAVIOUR",\s*(".*")\s*>>$', r.out, re.M):
        text = json.loads(m.group(1))
        if text not in seen:
            seen.add(text)
            out.append(json.loads(text))
    if not out:
        raise common.MachineryError("no behaviours generated")
    return out


def accepted(ctx, recs):
    """None if the specification explains all records, else the index of the first unexplained."""
    text = "\n".join(json.dumps(r) for r in recs) + "\n"
    r = ctx.tlc("WatchTrace", TRACE, files={"trace.ndjson": text}, workers=1, heap="3g")
    if r.ok:
        return None
    m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
    if m is None:
        raise common.MachineryError(r.tail(30))
    return int(m.group(1)) - 1


def schedules(ctx, num, which):
    behs = []
    for ops in (3, 6, 12):
        behs += behaviours(ctx, num, ops)
    buildsim.install()
    res = common.parallel(lambda x: watchsim.schedule_session(ctx, x[0], x[1]), list(enumerate(behs)))
    ctx.count("schedules_replayed", len(behs))
    ctx.sample(res[0][1][1] if res[0][0] == "value" else None)
    ok = []
    for i, (kind, val) in enumerate(res):
        if kind != "value":
            ctx.violation("watch:hang", f"schedule {i}: the watcher {kind}s", behs[i])
        else:
            ok.append((i, val))
    chunks = [ok[i : i + 30] for i in range(0, len(ok), 30)]

    def judge(chunk):
        recs = [r for _, (rs, _) in chunk for r in rs]
        at = accepted(ctx, recs)
        if at is None:
            return None
        for i, (rs, log) in chunk:
            if at < len(rs):
                return i, at, rs[at], log
            at -= len(rs)
        raise common.MachineryError("trace position")

    work = list(chunks)
    while work and not ctx.enough():
        chunk = work.pop(0)
        bad = judge(chunk)
        ctx.traces += len(chunk)
        if bad is None:
            continue
        i, at, rec, log = bad
        # lost changes are D01's, everything else is D02's
        mine = "D01" if rec["t"] == "sync" else "D02"
        if mine == which:
            ctx.violation(f"watch:{rec['t']}", f"schedule {i}: unexplained {rec} in {log[-25:]}", {"schedule": behs[i], "log": log})
        rest = [c for c in chunk if c[0] != i]
        if rest:
            work.append(rest)


def sessions(ctx, num, prop):
    buildsim.install()
    seeds = [f"{ctx.seed}.{i}" for i in range(num)]
    res = common.parallel(lambda s: watchsim.session(ctx, s), seeds)
    ctx.count("watch_sessions", num)
    good = []
    for s, (kind, val) in zip(seeds, res):
        if kind != "value":
            ctx.violation("session:hang", f"session {s}: {kind}", s)
            continue
        if val[2] and prop == "D02":
            ctx.violation("session:raised", f"session {s}: {val[2][0]}", {"log": val[1]})
        good.append((f"session {s}", (val[0], val[1], 0)))
    buildcheck.validate(ctx, prop, good)


def check_D01(ctx):
    ctx.tlc_ok("Watch", MC % ("p", "a, b", ctx.n(3, 4)), timeout=3000, heap="16g")
    schedules(ctx, ctx.n(50, 800), "D01")
    sessions(ctx, ctx.n(32, 500), "D01")
    lives(ctx, ctx.n(4, 24), "D01")


def check_D02(ctx):
    ctx.tlc_ok("Watch", MC % ("p", "a", ctx.n(3, 4)), timeout=3000, heap="16g")
    schedules(ctx, ctx.n(80, 1200), "D02")
    sessions(ctx, ctx.n(16, 200), "D02")


def lives(ctx, num, prop):
    import livewatch

    buildsim.install()
    res = common.parallel(lambda i: livewatch.live(ctx, f"{ctx.seed}.{i}"), list(range(num)))
    ctx.count("live_sessions", num)
    for i, (log, problem) in enumerate(res):
        ctx.traces += 1
        if problem:
            ctx.violation("live", f"live session {i}: {problem}; {log[-12:]}", log)
