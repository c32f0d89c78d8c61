"""M01: behaviours of spec/Pipeline.tla replayed into the three pipelines."""
import json
import re

import common

CFG = """
CONSTANTS MaxTokens = %d
 MaxManip = %d
SPECIFICATION Spec
INVARIANTS NobodyClaims OnlyOne Bounded Emit
"""


def lower(t, dk):
    k, lv = t % 3, t // 3
    return (3 * (lv - 1) if lv else 0) + (k + dk) % 3


class Behaviour:
    """What the manipulator with this number does, whichever way it is written."""

    def __init__(self, no, conf, log, make, value):
        self.no, self.conf, self.log, self.make, self.value = no, conf, log, make, value
        self.skip = False

    def claims(self, tok):
        t = self.value(tok)
        if self.skip:
            self.skip = False
            return False
        return t % 3 in self.conf["claims"] and t // 3 > 0

    def gave(self, tok):
        self.log.append([self.no, self.value(tok)])

    def answer(self, given):
        """-> list of tokens or False"""
        vals = [self.value(x) for x in given]
        if self.conf["shy"] != 9 and vals[-1] % 3 == self.conf["shy"]:
            self.skip = True
            return False
        return [self.make(lower(vals[i % len(vals)], dk)) for i, dk in self.conf["repl"]]


def plain(base):
    class M(base):
        def __init__(self, b):
            self.b = b
            self.given = []

        def start_mark(self, node):
            return self.b.claims(node)

        def continue_mark(self, node):
            self.b.gave(node)
            self.given.append(node)
            if len(self.given) < self.b.conf["len"]:
                return None
            given, self.given = self.given, []
            a = self.b.answer(given)
            return given if a is False else a

    return M


def yielding(base):
    class M(base):
        def __init__(self, b):
            super().__init__()
            self.b = b

        def handle(self, node):
            if not self.b.claims(node):
                return False
            given = [node]
            self.b.gave(node)
            while len(given) < self.b.conf["len"]:
                node = yield
                self.b.gave(node)
                given.append(node)
            a = self.b.answer(given)
            # without having yielded this would claim nothing
            return given if a is False and len(given) == 1 else a

    return M


def pipelines():
    from vanillaplusjs.build.css.builder import CSSBuilder
    from vanillaplusjs.build.css.manipulator import CSSManipulator
    from vanillaplusjs.build.css.token import CSSTokenType
    from vanillaplusjs.build.html.builder import HTMLBuilder
    from vanillaplusjs.build.html.manipulator import HTMLManipulator
    from vanillaplusjs.build.js.builder import JSBuilder
    from vanillaplusjs.build.js.manipulator import JSManipulator
    from vanillaplusjs.build.js.token import JSTokenType
    from vanillaplusjs.build.js.yield_manipulator import JSYieldManipulator

    css = lambda t: {"type": CSSTokenType.ident, "value": str(t)}
    js = lambda t: {"type": JSTokenType.identifier, "value": str(t)}
    html = lambda t: {"type": "Characters", "data": str(t)}
    val = lambda x: int(x["value"])
    return {
        "css": (CSSBuilder, [plain(CSSManipulator)], css, val),
        "html": (HTMLBuilder, [plain(HTMLManipulator)], html, lambda x: int(x["data"])),
        "js": (JSBuilder, [plain(JSManipulator)], js, val),
        "js-yield": (JSBuilder, [yielding(JSYieldManipulator)], js, val),
        "js-mixed": (JSBuilder, [plain(JSManipulator), yielding(JSYieldManipulator)], js, val),
    }


def check_M01(ctx):
    beh, seen = [], set()
    for n, manips, num in [(4, 1, ctx.n(1500, 15000)), (8, 2, ctx.n(2500, 25000)), (14, 3, ctx.n(1500, 15000))]:
        r = ctx.tlc_ok("Pipeline", CFG % (n, manips), simulate=f"num={num}", depth=400, workers=1, timeout=3000)
        for m in re.finditer(r'^<<\s*"PIPE",\s*(".*")\s*>>$', r.out, re.M):
            s = json.loads(m.group(1))
            if s not in seen:
                seen.add(s)
                beh.append(json.loads(s))
    if len(beh) < 100:
        raise common.MachineryError("too few behaviours")
    for name, (builder, classes, make, value) in pipelines().items():
        for conf, fed, out, log in beh:
            got_log = []
            bs = [Behaviour(i + 1, c, got_log, make, value) for i, c in enumerate(conf)]
            b = builder([classes[i % len(classes)](x) for i, x in enumerate(bs)])
            got = []
            try:
                for t in fed:
                    b.handle_token(make(t))
                    got += [value(x) for x in b.consume_tokens()]
            except Exception as e:
                got = repr(e)
            if got != out or got_log != log:
                ctx.violation(
                    f"{name}",
                    f"{name}: manipulators {conf} fed {fed}: out {got} instead of {out}; given {got_log} instead of {log}"[:900],
                    {"conf": conf, "fed": fed, "out": out, "log": log},
                )
        ctx.count(name, len(beh))
        ctx.traces += len(beh)
