"""B01-B09: the build engine against spec/Build.tla and spec/BuildTrace.tla."""
from buildcheck import conformance, histories

# ---------------------------------------------------------------- model checking

MC_CFG = """
CONSTANTS Page = {%s}
 Leaf = {%s}
 MaxVer = %d
 MaxBuilds = %d
 MaxCfg = %d
SPECIFICATION %s
VIEW View
%s
"""


def model(ctx, pages, leaves, ver, builds, invs="", props="", fair=False, cfgs=1):
    ctx.tlc_ok(
        "Build",
        MC_CFG
        % (
            ", ".join(pages), ", ".join(leaves), ver, builds, cfgs, "FairSpec" if fair else "Spec",
            ("INVARIANTS " + invs if invs else "") + "\n" + ("PROPERTIES " + props if props else ""),
        ),
        timeout=3000, heap="16g",
    )


def models(ctx, invs, props="", fair=False):
    model(ctx, ["p1", "p2"], ["l1"], ctx.n(3, 4), 2, invs, props, fair)
    if not ctx.quick():
        model(ctx, ["p1", "p2"], [], 5, 3, invs, props, fair)
        model(ctx, ["p1", "p2", "p3"], [], 4, 2, invs, props, fair)


RICH = {"name": "rich"}
SMALL = {"name": "small", "sizes": [4, 6, 8], "steps": 9}
CRASHY = {"name": "crashy", "crash": 0.5, "steps": 9, "sizes": [6, 12, 18], "keepbad": 0.3}
QUIET = {"name": "quiet", "crash": 0.0, "repeat": 0.35, "same_mode": True, "dangling": 0.0}
CYCLIC = {"name": "cyclic", "cycles": True, "crash": 0.05, "keepbad": 0.6, "sizes": [8, 14, 20], "steps": 9}


NR = {"reference": False}


def check_B01(ctx):
    models(ctx, "Correct")
    conformance(ctx, "B01", ctx.n(40, 600))
    histories(ctx, "B01", [RICH, SMALL, QUIET], ctx.n(60, 900))


def check_B02(ctx):
    models(ctx, "Correct")
    conformance(ctx, "B02", ctx.n(20, 300))
    histories(ctx, "B02", [RICH, SMALL], ctx.n(60, 900))


def check_B03(ctx):
    models(ctx, "OrderOk NoConflict Needed")
    conformance(ctx, "B03", ctx.n(40, 600))
    histories(ctx, "B03", [dict(RICH, **NR), dict(SMALL, **NR)], ctx.n(80, 1500))


def check_B04(ctx):
    models(ctx, "Correct")
    conformance(ctx, "B04", ctx.n(40, 600))
    histories(ctx, "B04", [dict(RICH, **NR), dict(SMALL, **NR)], ctx.n(80, 1500))


def check_B05(ctx):
    models(ctx, "Needed", "Untouched")
    conformance(ctx, "B05", ctx.n(40, 600))
    histories(ctx, "B05", [dict(QUIET, **NR), dict(SMALL, **NR)], ctx.n(80, 1500))


def check_B06(ctx):
    models(ctx, "Truthful")
    conformance(ctx, "B06", ctx.n(40, 600))
    histories(ctx, "B06", [dict(RICH, **NR), dict(SMALL, **NR)], ctx.n(80, 1500))


def check_B07(ctx):
    models(ctx, "SuccessMeansValid NeverStuck", "FailureMeansInvalid Terminates", fair=True)
    conformance(ctx, "B07", ctx.n(40, 600))
    histories(ctx, "B07", [CYCLIC], ctx.n(60, 900))


def check_B08(ctx):
    models(ctx, "Correct MarkerHonest")
    conformance(ctx, "B08", ctx.n(60, 600), crashes=12)
    histories(ctx, "B08", [CRASHY], ctx.n(60, 900))


CONFIG = {"name": "config", "configs": 0.45, "steps": 9, "sizes": [4, 8, 14], "crash": 0.15, "dangling": 0.0}


def check_B09(ctx):
    invs = "Correct MarkerHonest OneSetting Needed"
    model(ctx, ["p1", "p2"], ["l1"], ctx.n(2, 3), ctx.n(3, 4), invs, "Untouched", cfgs=2)
    if not ctx.quick():
        model(ctx, ["p1", "p2"], [], 3, 4, invs, "Untouched", cfgs=3)
    conformance(ctx, "B09", ctx.n(40, 400), crashes=4, cfgs=10000)
    histories(ctx, "B09", [CONFIG, dict(CONFIG, name="quietconfig", crash=0.0, same_mode=True)], ctx.n(60, 600))
