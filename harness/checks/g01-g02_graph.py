"""G01/G02: the dependency graph against spec/Graph.tla."""
import io
import json
import os
import tempfile

from common import MachineryError


def api():
    from vanillaplusjs.build.graph import FileDependencyGraph

    return FileDependencyGraph


def build(G, pre):
    g = G()
    for n in sorted(pre):
        g.add_file(n, pre[n]["sig"], float(pre[n]["sig"]), pre[n]["sig"] * 7)
    for n in sorted(pre):
        if pre[n]["ch"]:
            g.set_children(n, sorted(pre[n]["ch"]), prevent_cycles=False)
    return g


def norm(pre):
    # TLC writes the empty function as []
    if isinstance(pre, list):
        return {}
    return {k: {"sig": v["sig"], "ch": list(v["ch"])} for k, v in pre.items()}


def apply(G, g, op):
    """Runs one operation; returns (graph, outcome)."""
    try:
        if op["op"] == "add":
            s = op["sig"]
            if op["ch"]:
                g.add_file(op["a"], s, float(s), s * 7, list(op["ch"]))
            else:
                g.add_file(op["a"], s, float(s), s * 7)
        elif op["op"] == "remove":
            g.remove_file(op["a"], clear_parents=op["cp"], clear_children=op["cc"])
        elif op["op"] == "set":
            g.set_children(op["a"], list(op["ch"]), prevent_cycles=op["prevent"])
        elif op["op"] == "reload":
            g = reload(G, g)
        return g, "ok"
    except ValueError:
        return g, "ValueError"
    except Exception as e:
        return g, f"{type(e).__name__}"


def reload(G, g):
    buf = io.StringIO()
    g.store(buf)
    return G.load(io.StringIO(buf.getvalue()))


def observe(g, universe, sigs=range(0, 60)):
    nodes = [n for n in universe if n in g]
    o = {"nodes": nodes, "sig": {}, "cc": {}, "pc": {}}
    for n in nodes:
        hit = [s for s in sigs if g.check_file(n, s, float(s), s * 7)]
        # a signature differing in one component only must not match
        bad = False
        for s in hit:
            bad = (
                g.check_file(n, s + 1, float(s), s * 7)
                or g.check_file(n, s, float(s) + 0.25, s * 7)
                or g.check_file(n, s, float(s), s * 7 + 1)
            )
        o["sig"][n] = hit[0] if len(hit) == 1 and not bad else -1
        ch, pa = list(g.get_children(n)), list(g.get_parents(n))
        o["cc"][n] = {m: ch.count(m) for m in universe}
        o["pc"][n] = {m: pa.count(m) for m in universe}
        extra = [x for x in ch + pa if x not in universe]
        if extra:
            o["sig"][n] = -2
    return o


def rel(fn, a, b):
    try:
        r = fn(a, b)
        return getattr(r, "value", r) if not isinstance(r, str) else str(r)
    except ValueError:
        return "ValueError"
    except Exception as e:
        return type(e).__name__


def obs_matches(o, post):
    """Python side of the one-transition comparison with a TLC-computed state."""
    if set(o["nodes"]) != set(post):
        return "files"
    for n in post:
        if o["sig"][n] != post[n]["sig"]:
            return "signature"
        for m in post:
            if o["cc"][n][m] != o["pc"][m][n]:
                return "asymmetric"
            if (o["cc"][n][m] > 0) != (m in post[n]["ch"]):
                return "edges"
    return None


MC = """
CONSTANTS
  Name = {%s}
  MaxCh = %d
  CaseName = {%s}
SPECIFICATION Spec
INVARIANT Closed
INVARIANT RejectKeeps
INVARIANT Duality
PROPERTY NoNewCycle
%s
"""


def run_mc(ctx, names, maxch, casenames, post):
    q = ", ".join('"%s"' % n for n in names)
    cq = ", ".join('"%s"' % n for n in casenames)
    return ctx.tlc_ok("GraphMC", MC % (q, maxch, cq, post))


def check_G01(ctx):
    G = api()
    # 1. exhaustive model check + every (graph, operation) pair replayed
    r = run_mc(ctx, "abc", 2, "abc", "POSTCONDITION WriteCases")
    n = 0
    with open(os.path.join(r.dir, "cases.ndjson")) as fp:
        for line in fp:
            c = json.loads(line)
            pre, post = norm(c["pre"]), norm(c["post"])
            g = build(G, pre)
            g, res = apply(G, g, c["op"])
            n += 1
            if res != c["res"]:
                ctx.violation(
                    f"transition:{c['op']['op']}:outcome",
                    f"on {pre} the operation {c['op']} gave {res}, specified {c['res']}",
                    c,
                )
            else:
                bad = obs_matches(observe(g, "abc", range(0, 4)), post)
                if bad:
                    ctx.violation(
                        f"transition:{c['op']['op']}:{bad}",
                        f"on {pre} the operation {c['op']} ({res}) left {observe(g, 'abc', range(0, 4))}, specified {post}",
                        c,
                    )
            if n % 9001 == 1:
                ctx.sample(c)
            if ctx.enough():
                return
    ctx.extra["spec_transitions_replayed"] = n
    ctx.traces += n
    # 2. long random histories recorded from the code, validated by TLC
    histories(ctx, G, ctx.n(40, 400), ctx.n(40, 120))


def check_G02(ctx):
    G = api()
    names = "abc" if ctx.quick() else "abcd"
    r = run_mc(ctx, "abc", 1 if ctx.quick() else 2, "a", "")
    q = ", ".join('"%s"' % n for n in names)
    r = ctx.tlc_ok(
        "GraphMC", MC % (q, 0, '"a"', "POSTCONDITION WriteQueries"), heap="12g"
    )
    n = 0
    with open(os.path.join(r.dir, "queries.ndjson")) as fp:
        for line in fp:
            c = json.loads(line)
            pre = norm(c["pre"])
            g = build(G, pre)
            n += 1
            stages = [("built", g)]
            h = reload(G, g)
            if not (h == g) or not (g == h) or (h != g):
                ctx.violation("roundtrip", f"reloading {pre} gives an unequal graph", c)
            stages.append(("reloaded", h))
            for stage, gg in stages:
                for a in names:
                    for b in names:
                        d = rel(gg.check_direct_relationship, a, b)
                        k = rel(gg.check_nested_relationship, a, b)
                        if d != c["direct"][a][b]:
                            ctx.violation(
                                f"direct:{stage}",
                                f"direct({a},{b}) on {pre} is {d}, specified {c['direct'][a][b]}",
                                c,
                            )
                        if k != c["nested"][a][b]:
                            ctx.violation(
                                f"nested:{stage}",
                                f"nested({a},{b}) on {pre} is {k}, specified {c['nested'][a][b]}",
                                c,
                            )
                bad = obs_matches(observe(gg, names, range(0, 4)), pre)
                if bad:
                    ctx.violation(f"observe:{stage}:{bad}", f"{pre} observed wrongly", c)
            if n % 97 == 1:
                ctx.sample(c)
            if ctx.enough():
                return
    ctx.extra["graphs_queried"] = n
    ctx.traces += n
    equality(ctx, G)
    histories(ctx, G, ctx.n(40, 300), ctx.n(30, 80))


def equality(ctx, G):
    """Pairs of graphs: == must hold exactly when the specification calls them the same."""
    recs = []
    rng = ctx.rng

    def rand(n):
        names = [f"n{i}" for i in range(n)]
        p = rng.choice([0.15, 0.3, 0.5])
        return {
            a: {"sig": rng.randint(1, 3), "ch": sorted(b for b in names if rng.random() < p)}
            for a in names
            if rng.random() < 0.9
        }

    for i in range(ctx.n(600, 5000)):
        a = rand(rng.randint(1, 6))
        for n in a:
            a[n]["ch"] = [c for c in a[n]["ch"] if c in a]
        b = json.loads(json.dumps(a))
        mut = rng.choice(["none", "none", "sig", "edge", "node", "other"])
        if b:
            x = rng.choice(sorted(b))
            if mut == "sig":
                b[x]["sig"] += 1
            elif mut == "edge":
                y = rng.choice(sorted(b))
                if y in b[x]["ch"]:
                    b[x]["ch"].remove(y)
                else:
                    b[x]["ch"] = sorted(b[x]["ch"] + [y])
            elif mut == "node":
                b = {k: {"sig": v["sig"], "ch": [c for c in v["ch"] if c != x]} for k, v in b.items() if k != x}
            elif mut == "other":
                b = rand(len(a))
                for n in b:
                    b[n]["ch"] = [c for c in b[n]["ch"] if c in b]
        ga, gb = build(G, a), build(G, b)
        try:
            same = [bool(ga == gb), bool(gb == ga), bool(reload(G, ga) == gb)]
        except Exception as e:
            same = [type(e).__name__]
        recs.append(
            {
                "a": [{"n": k, "sig": v["sig"], "ch": v["ch"]} for k, v in a.items()],
                "b": [{"n": k, "sig": v["sig"], "ch": v["ch"]} for k, v in b.items()],
                "same": ["T" if s is True else ("F" if s is False else s) for s in same],
            }
        )
    r = ctx.tlc(
        "GraphEq",
        "INIT Init\nNEXT Next\nINVARIANT Good\n",
        files={"pairs.ndjson": "\n".join(json.dumps(x) for x in recs)},
        workers=1,
    )
    report_trace(ctx, r, recs, "equality")
    ctx.traces += len(recs)
    ctx.extra["equality_pairs"] = len(recs)


def histories(ctx, G, count, length):
    recs = []
    rng = ctx.rng
    for i in range(count):
        names = [f"n{j}" for j in range(rng.randint(2, 7))]
        g = G()
        recs.append(record(G, g, {"op": "new"}, "ok", names))
        for _ in range(length):
            k = rng.random()
            present = [n for n in names if n in g] or names
            a = rng.choice(names)
            ch = [rng.choice(present if rng.random() < 0.93 else names) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
            if k < 0.35:
                missing = [n for n in names if n not in g]
                if missing and rng.random() < 0.9:
                    a = rng.choice(missing)
                op = {"op": "add", "a": a, "sig": rng.randint(1, 50), "ch": ch}
            elif k < 0.55:
                op = {"op": "remove", "a": a, "cp": rng.random() < 0.7, "cc": rng.random() < 0.7}
            elif k < 0.93:
                if rng.random() < 0.9:
                    a = rng.choice(present)
                op = {"op": "set", "a": a, "ch": ch, "prevent": rng.random() < 0.6}
            else:
                op = {"op": "reload"}
            g, res = apply(G, g, op)
            recs.append(record(G, g, op, res, names))
    r = ctx.tlc(
        "GraphTrace",
        "SPECIFICATION Spec\nINVARIANT Accepted\nPOSTCONDITION AllRead\n",
        files={"trace.ndjson": "\n".join(json.dumps(x) for x in recs)},
        workers=1,
    )
    report_trace(ctx, r, recs, "history")
    ctx.traces += count
    ctx.extra["history_steps_validated"] = len(recs)
    ctx.sample(recs[min(5, len(recs) - 1)]["op"])


def report_trace(ctx, r, recs, label):
    import re

    if r.ok:
        return
    if r.violated:
        m = re.findall(r"why = \"(\w+)\"", r.out)
        l = re.findall(r"/\\ l = (\d+)", r.out)
        idx = int(l[-1]) - 2 if l else 0
        lo = max(0, idx - 30)
        ctx.violation(
            f"{label}:{m[-1] if m else r.violated}",
            f"recorded {label} step {idx} is not a behaviour of the specification ({m[-1] if m else r.violated}): {json.dumps(recs[idx])[:800]}",
            recs[lo : idx + 1],
        )
        return
    raise MachineryError("TLC: " + r.tail())


def record(G, g, op, res, names):
    q = []
    for a in names:
        for b in names:
            if (hash(a + b) + len(names)) % 3 == 0 or len(names) < 4:
                q.append(
                    {
                        "a": a,
                        "b": b,
                        "direct": rel(g.check_direct_relationship, a, b),
                        "nested": rel(g.check_nested_relationship, a, b),
                    }
                )
    try:
        h = reload(G, g)
        eq = "equal" if (h == g and g == h) else "unequal"
    except Exception as e:
        eq = type(e).__name__
    return {"op": op, "res": res, "obs": observe(g, names), "q": q, "eq": eq}
