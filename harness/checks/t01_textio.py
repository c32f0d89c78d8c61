"""T01: behaviours of spec/TextInput.tla replayed into the readers tokenizers use."""
import io
import json
import re

import common

CFG = """
CONSTANTS MaxText = %d
 MaxOps = %d
 Sizes = {%s}
 Normalise = %s
SPECIFICATION %s
INVARIANTS EachOnce PeekIsNext EndIsEnd Emit
"""

CHARS = {"r": "\r", "n": "\n", "f": "\f", "s": "\ud83d", "u": "\ufffd", "a": "a", "b": "b"}


def text(x):
    return "".join(CHARS[c] for c in x)


def behaviours(out):
    seen = set()
    for m in re.finditer(r'^<<\s*"READS",\s*(".*")\s*>>$', out, re.M):
        s = json.loads(m.group(1))
        if s not in seen:
            seen.add(s)
            t, ops = json.loads(s)
            yield text(t), [(op, n, text(want)) for op, n, want in ops]


def replay(make, t, ops):
    fp = make(io.StringIO(t, newline=""))
    for i, (op, n, want) in enumerate(ops):
        try:
            got = getattr(fp, op)(n or -1)
        except Exception as e:
            got = repr(e)
        # the end may be reported as nothing or as an empty text
        if (got or "") != want:
            return i, got, want
    return None


def check_T01(ctx):
    from vanillaplusjs.build.ioutil import PeekableTextIO, PreprocessedTextIO

    makers = {
        True: ("PreprocessedTextIO", lambda fp: PreprocessedTextIO(PeekableTextIO(fp))),
        False: ("PeekableTextIO", PeekableTextIO),
    }
    for norm, (name, make) in makers.items():
        runs = [
            ctx.tlc_ok("TextInput", CFG % (ctx.n(3, 4), ctx.n(3, 3), "1, 2, 3, 0", str(norm).upper(), "Spec"), timeout=3000),
            ctx.tlc_ok("TextInput", CFG % (8, 12, "1, 2, 3, 5, 0", str(norm).upper(), "RSpec"),
                       simulate=f"num={ctx.n(3000, 40000)}", depth=24, workers=1, timeout=3000),
            ctx.tlc_ok("TextInput", CFG % (40, 60, "1, 2, 3, 5, 9, 0", str(norm).upper(), "RSpec"),
                       simulate=f"num={ctx.n(200, 4000)}", depth=120, workers=1, timeout=3000),
        ]
        k = 0
        for r in runs:
            for t, ops in behaviours(r.out):
                k += 1
                bad = replay(make, t, ops)
                if bad:
                    ctx.violation(
                        f"{name}:{ops[bad[0]][0]}",
                        f"{name} over {t!r}: {[(o, n) for o, n, _ in ops[:bad[0] + 1]]} answers {bad[1]!r} instead of {bad[2]!r}",
                        {"text": t, "ops": ops},
                    )
        if not k:
            raise common.MachineryError("no behaviours")
        ctx.count(name, k)
        ctx.traces += k
