"""Publishing texts with the real code and judging the result with TLC."""
import json
import os
import re
import tempfile
import urllib.parse

import buildsim
import common
import project


def texts(ctx, module, kind, exhaustive, randoms):
    """Texts a generator specification describes: every one up to `exhaustive` fragments and, for
    each (length, number) in randoms, random longer ones."""
    cfg = 'CONSTANTS Kind = "%s"\n Size = %d\n Sampled = %s\nSPECIFICATION GSpec\nINVARIANT Emit\n'
    out = []
    if exhaustive:
        out.append(ctx.tlc_ok(module, cfg % (kind, exhaustive, "FALSE"), timeout=1500).out)
    for length, num in randoms:
        out.append(
            ctx.tlc_ok(
                module, cfg % (kind, length, "TRUE"), simulate=f"num={num}", depth=length + 2, workers=1, timeout=1500
            ).out
        )
    res, seen = [], set()
    for o in out:
        for m in re.finditer(r'^<<\s*"TEXT",\s*"(.*)"\s*>>$', o, re.M):
            if m.group(1) not in seen:
                seen.add(m.group(1))
                res.append("".join(map(chr, json.loads(m.group(1)))))
    if not res:
        raise common.MachineryError("no texts")
    return res


def documents(out):
    """The JSON documents a generator specification printed."""
    res, seen = [], set()
    for m in re.finditer(r'^<<\s*"TEXT",\s*(".*")\s*>>$', out, re.M):
        if m.group(1) not in seen:
            seen.add(m.group(1))
            res.append(json.loads(json.loads(m.group(1))))
    if not res:
        raise common.MachineryError("no documents")
    return res


def judge(ctx, module, header, records, chains=8, timeout=1500, heap="8g"):
    """-> {index: (verdict, detail)} for the records which are not plainly ok."""
    lines = [json.dumps(header)] + [json.dumps(r) for r in records]
    cfg = f"CONSTANT Chains = {chains}\nSPECIFICATION TSpec\nINVARIANT Report\n"
    r = ctx.tlc_ok(module, cfg, files={"trace.ndjson": "\n".join(lines) + "\n"}, timeout=timeout, heap=heap)
    res = {}
    for m in re.finditer(r'^<<\s*"JUDGED",\s*(\d+),\s*"([^"]*)",\s*"?(.*?)"?\s*>>$', r.out, re.M):
        res[int(m.group(1)) - 1] = (m.group(2), m.group(3))
    if r.distinct < len(records):
        raise common.MachineryError(f"{module}: {r.distinct} states for {len(records)} records")
    ctx.traces += len(records)
    return res


def points(text):
    return [ord(c) for c in text]


def show(text, n=160):
    s = json.dumps(text)
    return s if len(s) <= n else s[:n] + "…"


def public(names):
    """Public paths of the files (or of what the hash files are for) among the names."""
    res = set()
    for n in names:
        if n.startswith("src/public/"):
            res.add(n[len("src/public") :])
        elif n.startswith("out/www/") and n.endswith(".hash"):
            res.add(n[len("out/www") : -len(".hash")])
        else:
            res.add(n)
    return [points(x) for x in sorted(res)]


def query(pub, path):
    import vanillaplusjs.constants as vc

    with open(pub.P.abs("out/www" + path + ".hash")) as fp:
        return "?" + urllib.parse.urlencode({"v": fp.read(), "pv": vc.PROCESSOR_VERSION})


class Publisher:
    """Scans and builds single files of a scratch project with the real code."""

    def __init__(self, ctx, name="pub"):
        buildsim.install()
        self.folder = tempfile.mkdtemp(prefix=name + "-", dir=ctx.scratch)
        self.P = project.Project(self.folder)

    def build(self, dev=False):
        """A real build of the whole project (simulated workers)."""
        buildsim.ST.policy = buildsim.Policy("random:1")
        buildsim.do_build(self.folder, dev=dev, symlinks=False)()

    def context(self, dev=False):
        """The build context a real build of the project uses."""
        import vanillaplusjs.runners.build as rb

        got = []

        async def capture(context, *a, **k):
            got.append(context)

        orig = rb.cold_incremental_rebuild
        rb.cold_incremental_rebuild = capture
        try:
            rb.build(self.folder, dev=dev, symlinks=False, delay_files=[])
        finally:
            rb.cold_incremental_rebuild = orig
        # the build it was taken from is over
        try:
            os.unlink(got[0].build_incomplete_file)
        except (AttributeError, FileNotFoundError):
            pass
        return got[0]

    def publish(self, ctx, relpath, data):
        """Writes the source, scans and builds it -> (scan result, build result) or an exception."""
        from vanillaplusjs.build.build_file import build_file
        from vanillaplusjs.build.scan_file import scan_file

        self.P.write(relpath, data)
        try:
            return scan_file(ctx, relpath), build_file(ctx, relpath)
        except Exception as e:
            return e
