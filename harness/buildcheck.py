"""Behaviours of spec/Build.tla replayed, and random histories validated by spec/BuildTrace.tla."""
import json
import random
import re

import buildsim
import common
import history
from history import CODES

TRACE_CFG = """
CONSTANT Codes = {%s}
SPECIFICATION Spec
INVARIANT Accepted
POSTCONDITION AllRead
"""


def run_history(ctx, seed, profile):
    """One random history; returns (records, log, counts)."""
    rng = random.Random(f"{seed}-{profile['name']}")
    W = history.World(
        ctx,
        rng,
        f"w{seed}{profile['name']}",
        dangling=profile.get("dangling", 0.03),
        cycles=profile.get("cycles", False),
        kinds=profile.get("kinds"),
    )
    if rng.random() < 0.3:
        W.cwd = W.folder
    W.configs = profile.get("configs", 0.0)
    W.populate(rng.choice(profile.get("sizes", [6, 12, 20, 25])))
    n = 0
    try:
        for step in range(profile.get("steps", 7)):
            prob = W.site.problem()
            if prob and rng.random() > profile.get("keepbad", 0.15):
                W.fix()
                prob = W.site.problem()
            kw = {}
            if prob is None and rng.random() < profile.get("crash", 0.1):
                if rng.random() < 0.5:
                    kw["crash_at"] = rng.randint(1, rng.choice([10, 40, 120]))
                    kw["crash_trunc"] = rng.random() < 0.5
                else:
                    kw["policy"] = buildsim.Policy(
                        f"random:{rng.random()}", crash_after=rng.randint(0, 6)
                    )
            if profile.get("same_mode"):
                kw.setdefault("dev", False)
                kw.setdefault("symlinks", False)
            W.step(reference=profile.get("reference", True), **kw)
            n += 1
            x = rng.random()
            if x < profile.get("repeat", 0.1):
                continue  # build again without changes
            if x > 0.97:
                import shutil

                shutil.rmtree(W.p.abs("out"), ignore_errors=True)
                if rng.random() < 0.5:
                    shutil.rmtree(W.p.abs("artifacts"), ignore_errors=True)
                W.records.append({"t": "wiped"})
                W.log.append(("wiped",))
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                W.random_edit()
        return W.records, W.log, n
    finally:
        W.wipe()


def validate(ctx, prop, results, batch=24):
    """TLC over recorded histories; violations name the history and the step."""
    chunks = [results[i : i + batch] for i in range(0, len(results), batch)]
    q = ", ".join('"%s"' % c for c in CODES[prop])

    for chunk in chunks:
        lines, owner = [], []
        for seed, (records, log, n) in chunk:
            for r in records:
                lines.append(json.dumps(r))
                owner.append((seed, log))
        r = ctx.tlc(
            "BuildTrace",
            TRACE_CFG % q,
            files={"trace.ndjson": "\n".join(lines) + "\n"},
            workers=1,
            heap="4g",
        )
        if r.ok:
            ctx.traces += len(chunk)
            continue
        if r.violated == "Accepted":
            import re

            found = re.findall(r"<<(\d+), \"(\w+)\">>", r.out.split("is violated")[1])
            mine = [(int(a), b) for a, b in found if b in CODES[prop]]
            line, code = mine[-1]
            seed, log = owner[line - 1]
            first = next(i for i, o in enumerate(owner) if o[0] == seed)
            # the part of the log up to the build in question
            builds = sum(1 for r in lines[first:line] if json.loads(r)["t"] == "begin")
            cut, k = len(log), 0
            for i, e in enumerate(log):
                if e[0] == "->":
                    k += 1
                    if k == builds:
                        cut = i + 1
                        break
            log = log[:cut]
            ctx.violation(
                f"history:{code}",
                f"history {seed}: {code} at record {line - first}: {log[-12:]}",
                {"seed": seed, "code": code, "log": log, "record": json.loads(lines[line - 1])},
            )
        else:
            raise common.MachineryError(f"BuildTrace: {r.tail(30)}")


def histories(ctx, prop, profiles, count):
    jobs = []
    for i in range(count):
        p = profiles[i % len(profiles)]
        jobs.append((f"{ctx.seed}.{i}", p))
    buildsim.install()
    res = common.parallel(lambda j: run_history(ctx, j[0], j[1]), jobs)
    out = [(j[0] + j[1]["name"], r) for j, r in zip(jobs, res)]
    ctx.count("builds", sum(r[2] for _, r in out))
    ctx.count("histories", len(out))
    for _, r in out[:2]:
        ctx.sample(r[1][:12])
    validate(ctx, prop, out)


# ---------------------------------------------------------------- behaviours of Build.tla

SIM_CFG = """
CONSTANTS Page = {%s}
 Leaf = {l1, l2}
 MaxVer = 10000
 MaxBuilds = 10000
 MaxCfg = %d
 Rounds = %d
 Crashes = %d
SPECIFICATION SSpec
INVARIANTS Emit Small
"""

PUBL = "src/public/"
BINDINGS = {
    # pages preload what they depend on; shared outputs are image variants
    "html": {"p1": "i0.html", "p2": "i1.html", "p3": "sub/i2.html", "l1": "img/p0.png", "l2": "img/deep/p2.png"},
    # stylesheets import rules of what they depend on; shared outputs are recoloured icons
    "css": {"p1": "css/c0.css", "p2": "css/lib/c1.css", "l1": "img/icons/ic0.svg", "l2": "img/icons/ic1.svg"},
}


def behaviours(ctx, binding, num, rounds, crashes, cfgs=1):
    pages = ", ".join(x for x in BINDINGS[binding] if x.startswith("p"))
    r = ctx.tlc_ok("BuildSim", SIM_CFG % (pages, cfgs, rounds, crashes), simulate=f"num={num}", depth=400, workers=1)
    seen, out = set(), []
    for m in re.finditer(r'^<<\s*"BEHAVIOUR",\s*(".*")\s*>>$', r.out, re.M):
        text = json.loads(m.group(1))
        if text not in seen:
            seen.add(text)
            out.append(json.loads(text))
    if not out:
        raise common.MachineryError("no behaviours generated")
    return out


def bind(binding, act, v):
    """The sources for one edit of the model."""
    name = BINDINGS[binding]
    n = {"v": v}
    deps = [PUBL + name[d] for d in act["deps"]]
    sh = [PUBL + name[d] for d in act["sh"]]
    if binding == "html":
        if act["f"].startswith("l"):
            return dict(n, k="png", small=False)
        return dict(
            n, k="html", scripts=[], styles=[], preloads=sorted(deps), partials=[], ijs=[], icss=[],
            images=[[p, 4, 4] for p in sorted(sh)],
        )
    if act["f"].startswith("l"):
        return dict(n, k="svg")
    return dict(
        n, k="css",
        urls=sorted(d for d in deps if d.endswith(".svg")),
        nest=sorted(d for d in deps if d.endswith(".css")),
        icons=sorted(sh), data=[], colors=history.sitegen.COLORS, xref=False,
    )


def out_names(binding, o):
    kind, f = o
    rel = BINDINGS[binding][f]
    if kind == "own":
        return {"out/www/" + rel, "out/www/" + rel + ".hash"}
    if binding == "html":
        return {"out/www/" + rel[:-4] + "/#/4x4.png"}
    return {"out/www/" + rel[:-4] + "/accent.svg", "out/www/" + rel[:-4] + "/accent.svg.hash"}


def replay_behaviour(ctx, idx, binding, beh, seed):
    """Replays one behaviour; returns (records, log, builds, mismatches, contents)."""
    rng = random.Random(f"replay-{seed}-{idx}-{binding}")
    W = history.World(ctx, rng, f"r{idx}{binding}")
    bad, contents = [], []
    name = BINDINGS[binding]
    n = 0
    fixed = []
    if binding == "css":
        # the main stylesheet exists throughout and depends on nothing
        W.put(PUBL + "css/main.css", dict(k="css", v=99999, urls=[], nest=[], icons=[], data=[],
                                          colors=history.sitegen.COLORS, xref=False))
        fixed = ["out/www/css/main.css", "out/www/css/main.css.hash"]
    try:
        i = 0
        while i < len(beh):
            a = beh[i]["act"]
            if a["a"] == "edit":
                path = PUBL + name[a["f"]]
                W.put(path, bind(binding, a, a["v"]), replace=rng.random() < 0.3)
                W.log.append(("edit", a["f"], a["v"], a["deps"], a["sh"]))
                i += 1
                continue
            if a["a"] == "delete":
                W.remove(PUBL + name[a["f"]])
                W.log.append(("delete", a["f"]))
                i += 1
                continue
            if a["a"] == "configure":
                W.configure(a["v"], images=False)
                i += 1
                continue
            # a build: up to the next idle phase
            order, crash = [], None
            j = i
            while True:
                e = beh[j]
                if e["act"]["a"] == "complete":
                    order.append(PUBL + name[e["act"]["f"]])
                if e["act"]["a"] == "crash":
                    crash = len(e["act"]["done"])
                if e["phase"] == "idle":
                    break
                j += 1
            kw = {"dev": False, "symlinks": False}
            if e["act"]["a"] == "crashcleaning":
                kw["crash_at"] = rng.randint(1, 8)
                kw["crash_trunc"] = rng.random() < 0.5
            else:
                if crash is not None and binding == "css":
                    crash += 1  # the main stylesheet
                kw["policy"] = buildsim.Policy(
                    order, burst=rng.choice([0, 0, 0.5]), crash_after=crash
                )
            res = W.step(reference=False, **kw)
            n += 1
            i = j + 1
            want = e["result"]
            if want == "ok" and res.outcome == "ok":
                end = W.records[-1]
                exp = set(fixed)
                for o, c in e["pub"]:
                    exp |= out_names(binding, o)
                got = set(end["pub"])
                if exp - got:
                    bad.append(("missing", n, sorted(exp - got)))
                if got - exp:
                    bad.append(("extra", n, sorted(got - exp)))
                rev = {v: k for k, v in W.intern.items()}
                for o, c in e["pub"]:
                    for q in sorted(out_names(binding, o)):
                        if q in end["pub"]:
                            contents.append((binding, q, tuple(sorted(map(tuple, c))), rev[end["pub"][q]][1]))
                extra = set(fixed)
                g = end["graph"]
                want_files = {PUBL + name[x[0]] for x in e["graph"]} | ({PUBL + "css/main.css"} if fixed else set())
                if set(g["files"]) != want_files:
                    bad.append(("gfiles", n, [sorted(g["files"]), sorted(want_files)]))
                for f, deps, outs in e["graph"]:
                    p = PUBL + name[f]
                    wd = {PUBL + name[d] for d in deps}
                    if p in g["deps"] and set(g["deps"][p]) - {PUBL + "css/main.css"} != wd:
                        bad.append(("gdeps", n, [p, g["deps"][p], sorted(wd)]))
                    wo = set().union(*[out_names(binding, o) for o in outs])
                    if p in g["outs"] and set(g["outs"][p]) != wo:
                        bad.append(("gouts", n, [p, g["outs"][p], sorted(wo)]))
            elif want == "ok":
                bad.append(("hang" if res.outcome == "hang" else "error", n, res.exc))
            elif want == "error" and res.outcome != "error":
                bad.append(("hang" if res.outcome == "hang" else "undetected", n, res.outcome))
        return W.records, W.log, n, bad, contents
    finally:
        W.wipe()


def conformance(ctx, prop, num, rounds=4, crashes=0, cfgs=1):
    """Behaviours of the specification, replayed into the real code."""
    jobs = []
    for binding in BINDINGS:
        for i, b in enumerate(behaviours(ctx, binding, num, rounds, crashes, cfgs)):
            jobs.append((i, binding, b))
    buildsim.install()
    res = common.parallel(lambda j: replay_behaviour(ctx, j[0], j[1], j[2], ctx.seed), jobs)
    ctx.count("behaviours_replayed", len(jobs))
    ctx.count("builds", sum(r[2] for r in res))
    ctx.sample([e["act"] for e in jobs[0][2]][:20])
    for job, r in zip(jobs, res):
        for code, n, what in r[3]:
            if code in CODES[prop]:
                ctx.violation(f"behaviour:{code}", f"behaviour {job[0]} ({job[1]}) build {n}: {code}: {what}; {r[1][-12:]}",
                              {"behaviour": [e["act"] for e in job[2]], "log": r[1]})
        table, inverse = {}, {}
        for binding, q, c, body in r[4]:
            old = table.setdefault((binding, q, c), body)
            if old != body and "content" in CODES[prop]:
                ctx.violation("behaviour:content", f"behaviour {job[0]} ({binding}): {q} computed from {c} differs; {r[1][-12:]}",
                              {"behaviour": [e["act"] for e in job[2]], "log": r[1]})
            if binding == "html":
                old = inverse.setdefault((q, body), c)
                if old != c and "content" in CODES[prop]:
                    ctx.violation("behaviour:stale", f"behaviour {job[0]} ({binding}): {q} is the same for {c} and {old}; {r[1][-12:]}",
                                  {"behaviour": [e["act"] for e in job[2]], "log": r[1]})
    ctx.traces += len(jobs)
    validate(ctx, prop, [(f"behaviour {j[0]} ({j[1]})", r[:3]) for j, r in zip(jobs, res)], batch=60)


