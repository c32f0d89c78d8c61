"""Random histories of source edits and builds on a real project, with everything observable
recorded.  The ground truth (dependencies, outputs, references) comes from how the sources were
generated (sitegen), never from the code under test."""
import io
import json
import os
import posixpath
import random
import re
import shutil

import buildsim
import project
import sitegen
from sitegen import KIND, PUB, path_of

REF = re.compile(rb"([^\s\"'()<>?]+)\?v=([A-Za-z0-9_%=-]+)")


class World:
    def __init__(self, ctx, rng, name, **sitekw):
        self.ctx = ctx
        self.rng = rng
        self.folder = os.path.join(ctx.scratch, name)
        os.makedirs(self.folder)
        self.p = project.Project(self.folder)
        self.site = sitegen.Site(rng, **sitekw)
        self.mode = "prod"
        self.configs = 0.0
        self.saved = {}  # path -> list of (node) of earlier versions
        self.trash = {}  # path -> (node, bytes, stat) moved away
        self.clones = 0
        self.log = []
        self.records = [{"t": "reset"}]
        self.intern = {}
        self.cwd = None
        self.cfg = 1

    # ---- settings
    # what can be set, with the number of choices; the first choice is the default
    FIELDS = [("host", 3), ("shared", 3), ("added", 3), ("removed", 2), ("optimize", 2), ("icons", 2), ("exports", 3),
              ("preference", 4), ("level", 3), ("min", 2), ("max", 2), ("unit", 3)]
    IMAGE_FIELDS = {"optimize", "exports", "preference", "level", "min", "max", "unit"}

    def configure(self, v, images=True):
        """Version v of vanillaplusjs.json; unless images change, all of them show in every page."""
        c = project.base_config()
        code, x = v - 1, {}
        for name, n in self.FIELDS:
            code, x[name] = divmod(code, n)
        if not images:
            x.update({k: 0 for k in self.IMAGE_FIELDS})
            # the host is part of every page
            x["host"] = v
        if x["host"]:
            c["host"] = f"host{x['host']}.example.com"
        if x["shared"]:
            c["js_constants"]["shared"]["S"] = f"shared {x['shared']}"
        if x["added"]:
            c["js_constants"]["prod"]["ADDED"] = x["added"]
        if x["removed"]:
            del c["js_constants"]["dev"]["API_URL"]
        if x["icons"]:
            c["icons"] = {"default_button": {"hover_color": "accent"}}
        f = c["images"]["formats"]["png"]
        if x["optimize"]:
            f["exports"]["a"]["formatter_kwargs"] = {"optimize": True}
        # which of several exports is published
        for k in ["b", "c"][: x["exports"]]:
            f["exports"][k] = {
                "min_area_px2": [None, 20][x["min"]],
                "max_area_px2": [None, 22][x["max"]],
                "preference": x["preference"] if k == "b" else 2,
                "formatter_kwargs": {"compress_level": [9, 0, 1][x["level"] if k == "b" else 1]},
            }
        f["minimum_unit_size_bytes"] = [85000, 10, 1][x["unit"]]
        self.cfg = v
        self.p.config = c
        self.p.write_config()
        self.log.append(("configure", v, {k: y for k, y in x.items() if y}))

    def reconfigured(self):
        """The current version with some, mostly one, of the settings changed."""
        r = self.rng
        code, x = self.cfg - 1, []
        for _, n in self.FIELDS:
            code, y = divmod(code, n)
            x.append(y)
        for i in r.sample(range(len(x)), r.choice([1, 1, 1, 2, 5])):
            x[i] = r.randrange(self.FIELDS[i][1])
        for (_, n), y in reversed(list(zip(self.FIELDS, x))):
            code = code * n + y
        return code + 1

    # ---- edits
    def put(self, path, node, **kw):
        if path in self.site.nodes:
            self.saved.setdefault(path, []).append(self.site.nodes[path])
        self.site.nodes[path] = node
        self.p.write(path, self.site.render(path), **kw)

    def populate(self, count):
        self.site.populate(count)
        for path in sorted(self.site.nodes):
            self.p.write(path, self.site.render(path))
        self.log.append(("populate", sorted(self.site.nodes)))

    def remove(self, path):
        node = self.site.nodes.pop(path)
        self.saved.setdefault(path, []).append(node)
        self.p.delete(path)
        if KIND[path] == "ij":
            ph = path[: -len("json")] + "js"
            if self.p.exists(ph):
                self.p.delete(ph)

    def random_edit(self):
        r = self.rng
        s = self.site
        if self.configs and r.random() < self.configs:
            # sometimes back to the initial settings
            self.configure(1 if r.random() < 0.15 else self.reconfigured())
            return self.log[-1]
        have = sorted(s.nodes)
        lack = [p for p in sitegen.ALL if p not in s.nodes and KIND[p] in s.kinds]
        x = r.random()
        if x < 0.30 and have:
            path = r.choice(have)
            node = s.gen(path)
            replace = r.random() < 0.3
            self.put(path, node, replace=replace)
            what = ("edit", path)
        elif x < 0.42 and have:
            # same references, new content
            path = r.choice(have)
            node = dict(s.nodes[path])
            node["v"] = s.nv()
            self.put(path, node)
            what = ("bump", path)
        elif x < 0.55 and lack:
            path = r.choice(lack)
            self.put(path, s.gen(path))
            what = ("add", path)
        elif x < 0.68 and have:
            path = r.choice(have)
            self.remove(path)
            what = ("delete", path)
        elif x < 0.76 and any(p not in s.nodes for p in self.saved):
            path = r.choice([p for p in sorted(self.saved) if p not in s.nodes])
            self.put(path, r.choice(self.saved[path]))
            what = ("restore", path)
        elif x < 0.82 and self.saved:
            path = r.choice(sorted(self.saved))
            self.put(path, r.choice(self.saved[path]))
            what = ("revert", path)
        elif x < 0.88 and have:
            path = r.choice(have)
            self.p.touch(path)
            what = ("touch", path)
        elif x < 0.94 and have and lack:
            a = r.choice(have)
            same = [p for p in lack if KIND[p] == KIND[a]]
            if same and KIND[a] in ("txt", "png", "svg"):
                b = r.choice(same)
                node = s.nodes.pop(a)
                os.makedirs(os.path.dirname(self.p.abs(b)), exist_ok=True)
                os.rename(self.p.abs(a), self.p.abs(b))
                s.nodes[b] = node
                what = ("rename", a, b)
            else:
                what = ("none",)
        else:
            # same size and time, different inode
            path = r.choice(have) if have else None
            if path is None:
                what = ("none",)
            else:
                st = os.stat(self.p.abs(path))
                node = dict(s.nodes[path])
                node["v"] = s.nv()
                self.saved.setdefault(path, []).append(s.nodes[path])
                s.nodes[path] = node
                self.p.write(path, s.render(path), mtime=st.st_mtime, replace=True)
                if os.stat(self.p.abs(path)).st_ino == st.st_ino:
                    self.p.touch(path)
                what = ("inode", path)
        self.log.append(what)
        return what

    def fix(self):
        """Edits the sources until they are buildable again."""
        r = self.rng
        s = self.site
        saved = s.dangling, s.cycles
        s.dangling, s.cycles = 0.0, False
        for _ in range(60):
            prob = s.problem()
            if prob is None:
                break
            bad = [
                p
                for p in sorted(s.nodes)
                if KIND[p] != "partial"
                and (not s.deps(p) <= set(s.nodes) or prob == "cycle")
            ] or [p for p in sorted(s.nodes) if KIND[p] in ("js", "html", "css", "ij", "png")]
            path = r.choice(bad)
            missing = sorted(s.deps(path) - set(s.nodes))
            if missing and r.random() < 0.4:
                m = r.choice(missing)
                self.put(m, s.gen(m))
                self.log.append(("add", m))
                continue
            cand = [path] + [q for q in sorted(s.deps(path)) if q in s.nodes]
            path = r.choice(cand)
            self.put(path, s.gen(path))
            self.log.append(("fix", path))
        else:
            for p in sorted(s.nodes):
                if KIND[p] in ("html", "css", "js", "partial", "ij"):
                    self.remove(p)
        s.dangling, s.cycles = saved

    # ---- builds
    def build(self, dev=None, symlinks=None, policy=None, crash_at=None, crash_trunc=False):
        r = self.rng
        dev = r.random() < 0.3 if dev is None else dev
        symlinks = r.random() < 0.3 if symlinks is None else symlinks
        policy = policy or buildsim.Policy(
            r.choice(["fifo", "lifo", f"random:{r.random()}"]), burst=r.choice([0, 0, 0.5])
        )
        self.mode = "dev" if dev else "prod"
        self.log.append(("build", self.mode, symlinks, policy.order, policy.burst, crash_at, crash_trunc))
        return buildsim.sim(
            self.folder,
            buildsim.do_build("." if self.cwd else self.folder, dev, symlinks),
            policy,
            crash_at=crash_at,
            crash_trunc=crash_trunc,
            cwd=self.cwd,
        )

    def clean_reference(self, with_artifacts=False, dev=None):
        """A from-scratch build of the same sources: (folder, result)."""
        self.clones += 1
        d = self.folder + f".c{self.clones}"
        self.p.clone(d, with_artifacts=with_artifacts)
        res = buildsim.sim(
            d, buildsim.do_build(d, self.mode == "dev" if dev is None else dev, False), record=False
        )
        return d, res

    def wipe(self):
        self.p.wipe()

    # ---- recording
    def num(self, kind, x):
        """Small stable numbers for contents, digests and identities."""
        return self.intern.setdefault((kind, x), len(self.intern) + 1)

    def truth(self):
        """The sources as the specification sees them."""
        res = {}
        s = self.site
        for path in s.nodes:
            st = os.stat(self.p.abs(path))
            res[path] = {
                "k": KIND[path],
                "v": self.num("v", (path, self.p.read(path))),
                "sig": self.num("s", (path, st.st_mtime_ns, st.st_size, st.st_ino)),
                "deps": sorted(s.deps(path)),
                "outs": sorted(s.outs(path)),
                "links": sorted([a, b] for a, b in s.links(path)),
            }
        for path in project.tree(self.p.abs("src"), "src"):
            if path not in res:  # generated placeholders
                st = os.stat(self.p.abs(path))
                res[path] = {
                    "k": "placeholder",
                    "v": self.num("v", (path, self.p.read(path))),
                    "sig": self.num("s", (path, st.st_mtime_ns, st.st_size, st.st_ino)),
                    "deps": [],
                    "outs": [],
                    "links": [],
                }
        return res

    def begin_record(self):
        prob = self.site.problem()
        self.before_src = project.tree(self.p.abs("src"), "src")
        self.before_ids = self.all_ids()
        rec = {"t": "begin", "src": self.truth(), "mode": "?", "cfg": self.cfg, "valid": prob or "yes"}
        self.records.append(rec)
        return rec

    def all_ids(self):
        res = {}
        for top in ("src", "artifacts", os.path.join("out", "www")):
            res.update(project.identities(self.p.abs(top), top))
        return res

    def step(self, reference=True, **kw):
        """One recorded build."""
        rec = self.begin_record()
        res = self.build(**kw)
        rec["mode"] = self.mode
        for e in res.events:
            if e["e"] == "submit" and e["k"] == "build" and e["f"]:
                self.records.append({"t": "submit", "f": e["f"]})
            elif e["e"] == "done" and e["k"] == "build" and e["f"]:
                self.records.append({"t": "done", "f": e["f"]})
        # placeholders the build created belong to its sources
        made = [p for p in project.tree(self.p.abs("src"), "src") if p not in rec["src"]]
        truth = self.truth() if made else {}
        for p in made:
            if p in truth:
                rec["src"][p] = truth[p]
        after = project.tree(self.p.abs("src"), "src")
        allowed = {p[: -len("json")] + "js" for p in self.site.nodes if KIND[p] == "ij"}
        srcok = all(after.get(p) == b for p, b in self.before_src.items()) and all(
            p in self.before_src or p in allowed for p in after
        )
        end = {"t": "end", "result": {"exit": "error"}.get(res.outcome, res.outcome), "srcok": srcok}
        end["cycle"] = "cycl" in (res.exc or "").lower()
        if res.outcome == "ok":
            self.observe(end, reference)
        self.records.append(end)
        self.log.append(("->", res.outcome, (res.exc or "")[:200]))
        return res

    def observe(self, end, reference):
        files = project.www(self.folder)
        name = {p: short(p) for p in files}
        canon = project.canonical(files, project.variant_labels(self.folder))
        labels = project.variant_labels(self.folder)
        cname = {}
        for p in files:
            q = p
            for k, v in labels.items():
                q = q.replace(f"out/www/{k}/", f"out/www/{v}/")
            cname[p] = q
        pub = {}
        for p in files:
            body = canon[cname[p]]
            if p.endswith(".hash") and files.get(p[:-5]) is not None:
                # judged against the file it belongs to
                pass
            pub[name[p]] = self.num("c", body)
        end["pub"] = pub
        end["dig"] = {
            name[p]: self.num("d", project.digest(b)) for p, b in files.items() if b is not None and not p.endswith(".hash")
        }
        end["hash"] = {
            name[p][:-5]: self.num("d", b.decode("latin-1").strip()) for p, b in files.items() if p.endswith(".hash") and b is not None
        }
        refs = []
        for p, b in sorted(files.items()):
            if b is None or not p.endswith((".html", ".css", ".js")):
                continue
            for url, tok in REF.findall(b):
                url = url.decode("latin-1")
                tok = tok.decode("latin-1").replace("%3D", "=")
                if url.startswith("/"):
                    target = "out/www" + url
                else:
                    target = posixpath.normpath(posixpath.join(posixpath.dirname(p), url))
                refs.append([name[p], short(target), self.num("d", tok)])
        end["refs"] = refs
        end["empty"] = len(project.empty_dirs(self.p.abs("out/www"), "out/www"))
        now = self.all_ids()
        end["ids"] = {short(p): self.num("i", i) for p, i in now.items() if p.startswith("out/www/")}
        end["same"] = now == self.before_ids
        end["graph"] = self.graph()
        end["hasref"] = bool(reference)
        end["ref"] = {}
        if reference:
            d, res = self.clean_reference(with_artifacts=self.rng.random() < 0.3)
            if res.outcome == "ok":
                cf = project.www(d)
                cl = project.variant_labels(d)
                cc = project.canonical(cf, cl)
                for p in cf:
                    q = p
                    for k, v in cl.items():
                        q = q.replace(f"out/www/{k}/", f"out/www/{v}/")
                    end["ref"][short(p)] = self.num("c", cc[q])
            shutil.rmtree(d, ignore_errors=True)

    def graph(self):
        """The stored bookkeeping, through its public interface."""
        from vanillaplusjs.build.build_context import BuildContext
        from vanillaplusjs.build.graph import FileDependencyGraph

        ctx = BuildContext(self.folder, dev=False, symlinks=False)
        res = {"files": [], "sig": {}, "deps": {}, "outs": {}, "both": True, "ondisk": True}

        def load(path):
            if not os.path.exists(path):
                return FileDependencyGraph()
            with open(path) as fp:
                return FileDependencyGraph.load(fp)

        deps, outs = load(ctx.dependency_graph_file), load(ctx.output_graph_file)
        src = sorted(project.tree(self.p.abs("src"), "src"))
        universe = set(src) | set(self.site.nodes) | set(KIND)
        known = set(deps.nodes) if hasattr(deps, "nodes") else {p for p in universe if p in deps}
        res["files"] = sorted(known)
        from vanillaplusjs.build.file_signature import get_file_signature

        for f in sorted(known):
            try:
                sg = get_file_signature(self.p.abs(f))
                st = os.stat(self.p.abs(f))
                ok = deps.check_file(f, st.st_size, sg.mtime, st.st_ino) and abs(sg.mtime - st.st_mtime) < 1
            except OSError:
                ok = False
            res["sig"][f] = bool(ok)
            ch = list(deps.get_children(f))
            res["deps"][f] = sorted(set(ch))
            if any(f not in deps.get_parents(c) for c in ch):
                res["both"] = False
            if any(f not in deps.get_children(c) for c in deps.get_parents(f)):
                res["both"] = False
            if f in outs:
                oc = list(outs.get_children(f))
                if any(f not in outs.get_parents(c) for c in oc):
                    res["both"] = False
                if any(not os.path.exists(self.p.abs(c)) for c in oc):
                    res["ondisk"] = False
            else:
                oc = []
            res["outs"][f] = sorted({short(o) for o in oc if o.startswith(sitegen.OUT)})
        return res


def short(p):
    """Image variant folders are numbered; the number is not part of the name."""
    return re.sub(r"(/img/(?:[^/]+/)*)\d+/(\d+x\d+\.)", r"\1#/\2", p)


CODES = {
    "D01": ["content", "contentafter", "missing", "missingafter", "extra", "extraafter", "error"],
    "D02": ["none"],
    "B01": ["content", "missing", "extra", "contradiction", "error", "undetected"],
    "B02": ["hash", "version", "unversioned", "content", "contradiction", "error"],
    "B03": ["order", "conflict", "twice", "unneeded", "notbuilt", "error"],
    "B04": ["missing", "extra", "emptydir", "source", "error"],
    "B05": ["noop", "touched", "unneeded", "error"],
    "B06": ["gfiles", "gsig", "gdeps", "gouts", "gends", "gdisk", "error"],
    "B07": ["hang", "falsecycle", "undetectedcycle", "cyclekind", "error", "errorafter", "contentafter"],
    "B09": ["contentconfig", "missingconfig", "extraconfig", "errorconfig", "contradictionconfig", "hash",
            "version", "content", "missing", "extra", "contentafter", "error", "errorafter", "undetected"],
    "B08": ["contentafter", "missingafter", "extraafter", "errorafter", "source", "content", "missing",
            "extra", "hash", "version", "error", "undetected"],
}
