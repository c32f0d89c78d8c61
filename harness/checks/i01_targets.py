"""I01: numbers of image variants under concurrency and crashes, against spec/ImageTargets.tla."""
import concurrent.futures
import json
import re

import common
import targetsim
import textcheck

MODEL = """CONSTANTS
 Workers = %s
 Targets = %s
 Versions = %s
 Numbers = %s
"""


def numbers(n):
    return "{" + ", ".join(str(i) for i in range(1, n + 1)) + "}"


def constants(workers, targets, versions, ids):
    return MODEL % tuple(map(numbers, (workers, targets, versions, ids)))


def follow(ctx, n, hists):
    sim = targetsim.Targets(ctx, f"targets{n}")
    return [(i, *sim.follow(h)) for i, h in hists], sim.alike() if n == 0 else []


def check_I01(ctx):
    ctx.tlc_ok(
        "ImageTargets",
        constants(*ctx.n((2, 2, 2, 4), (3, 2, 2, 4)))
        + "SPECIFICATION Spec\nINVARIANT TypeOK Unique Mine Found Right Agree\nPROPERTY Stable Answered\n",
        timeout=800,
    )
    steps, num = ctx.n((60, 300), (90, 2500))
    out = ctx.tlc_ok(
        "ImageTargetsSim",
        constants(3, len(targetsim.PAGES), len(targetsim.VERSIONS), 24)
        + f" MaxSteps = {steps}\nSPECIFICATION SSpec\nINVARIANT Emit\n",
        simulate=f"num={num}",
        depth=steps + 2,
        workers=1,
        timeout=600,
    ).out
    hists = textcheck.documents(out)
    chunks = [[(i, h) for i, h in enumerate(hists) if i % 8 == w] for w in range(8)]
    logs, errors = [None] * len(hists), [None] * len(hists)
    for part, told in common.parallel(lambda x: follow(ctx, *x), list(enumerate(chunks))):
        for pair, apart in zip(targetsim.ALIKE, told):
            if not apart:
                ctx.violation("settings: " + pair, "an image made for other export settings is reused", targetsim.ALIKE[pair])
        for i, log, err in part:
            logs[i], errors[i] = log, err
    top = max([24, *(n for log in logs for n in log["ns"])])
    far, accepted = [0] * len(logs), set()

    def explain(w):
        some = range(w, len(logs), 4)
        out = ctx.tlc_ok(
            "ImageTargetsTrace",
            constants(3, len(targetsim.PAGES), len(targetsim.VERSIONS), top + 1)
            + "SPECIFICATION TSpec\nINVARIANT Report\nPOSTCONDITION Far\n",
            files={"trace.ndjson": "".join(json.dumps(logs[i]) + "\n" for i in some)},
            workers=1,
            timeout=800,
        ).out
        accepted.update(some[int(x) - 1] for x in re.findall(r'^<<"ACCEPTED", (\d+)>>', out, re.M))
        for i, x in zip(some, re.findall(r"\d+", re.search(r'<<\s*"FAR",\s*<<(.*?)>>', out, re.S).group(1))):
            far[i] = int(x)

    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        list(pool.map(explain, range(4)))
    ctx.traces += len(logs)
    for e in ("begin", "end", "die", "change", "forget"):
        ctx.count(f"events_{e}", sum(x["e"] == e for log in logs for x in log["events"]))
    ctx.count("made", sum(bool(x.get("made")) for log in logs for x in log["events"]))
    for i, log in enumerate(logs):
        if (i in accepted and not errors[i]) or ctx.enough(5):
            continue
        at = far[i] - 1
        what = errors[i][0] if errors[i] else json.dumps(log["events"][at]) if i not in accepted else ""
        ctx.violation(
            "log:" + json.dumps(hists[i]),
            f"{what} after {json.dumps(log['events'][max(0, at - 8):at])}",
            {"history": hists[i], "log": log, "unexplained": at, "errors": errors[i], "targets": targetsim.PAGES, "versions": targetsim.VERSIONS},
        )
