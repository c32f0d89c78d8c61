"""Random site sources whose true dependencies, outputs and validity are known by construction."""
import json

import project

PUB = "src/public/"
OUT = "out/www/"
COLORS = ["primary", "accent"]
HEX = {"primary": "#102030", "accent": "#a0b0c0"}
MAIN = PUB + "css/main.css"

POOL = {
    "txt": ["data/t0.txt", "data/t1.txt", "deep/er/t2.txt", "fonts/f.woff"],
    "png": ["img/p0.png", "img/p1.png", "img/deep/p2.png"],
    "js": ["js/m0.js", "js/m1.js", "js/m2.js", "js/lib/n0.js", "js/lib/n1.js"],
    "css": ["css/main.css", "css/c0.css", "css/lib/c1.css"],
    "html": ["i0.html", "i1.html", "sub/i2.html", "sub/i3.html"],
    "ij": ["js/x0.images.json", "js/lib/x1.images.json"],
    "svg": ["img/icons/ic0.svg", "img/icons/ic1.svg"],
    "const": ["js/constants.js"],
    "partial": ["head/q0.html", "q1.html", "q2.html"],
    "private": ["notes/n0.txt", "publications/n1.txt", "lib/h.js", "style.css", "public-old/o.html", "publicity/x.images.json"],
}
PREFIX = {"partial": "src/partials/", "private": "src/"}


def path_of(kind, name):
    return PREFIX.get(kind, PUB) + name


KIND = {path_of(k, n): k for k, ns in POOL.items() for n in ns}
ALL = sorted(KIND)


class Site:
    """nodes: path -> params.  Every node has a version 'v' making its content unique."""

    def __init__(self, rng, richness=1.0, dangling=0.0, cycles=False, kinds=None):
        self.rng = rng
        self.nodes = {}
        self.v = 0
        self.dangling = dangling
        self.cycles = cycles
        self.richness = richness
        self.kinds = set(kinds or POOL)

    # ---- generation
    def nv(self):
        self.v += 1
        return self.v

    def existing(self, kind):
        return [p for p in sorted(self.nodes) if KIND[p] == kind]

    def refs(self, me, kinds, most):
        """Random references to existing files of the given kinds; acyclic unless allowed."""
        cand = []
        for k in kinds:
            cand += self.existing(k)
        if not self.cycles:
            cand = [p for p in cand if ALL_RANK[p] < ALL_RANK[me]]
        cand = [p for p in cand if p != me]
        n = min(len(cand), self.rng.randint(0, most))
        res = self.rng.sample(cand, n)
        if self.dangling and self.rng.random() < self.dangling:
            miss = [
                p
                for k in kinds
                for p in (path_of(k, n) for n in POOL[k])
                if p not in self.nodes and p != me and (self.cycles or ALL_RANK[p] < ALL_RANK[me])
            ]
            if miss:
                res.append(self.rng.choice(miss))
        return sorted(set(res))

    def gen(self, path):
        k = KIND[path]
        r = self.rng
        n = {"k": k, "v": self.nv()}
        if k == "js":
            n["imports"] = self.refs(path, ["js", "ij", "const"], 3)
            n["rel"] = r.random() < 0.5
        elif k == "css":
            n["urls"] = self.refs(path, ["png", "txt", "svg"], 2)
            n["nest"] = self.refs(path, ["css"], 1) if path != PUB + "css/main.css" else []
            n["icons"] = self.refs(path, ["svg"], 1) if (PUB + "css/main.css") in self.nodes or path == PUB + "css/main.css" else []
            n["data"] = [self.nv() for _ in range(r.choice([0, 0, 1, 2]))]
            if path == MAIN:
                n["colors"] = [c for c in COLORS if r.random() < 0.9]
            n["xref"] = bool(n["icons"]) and r.random() < 0.2
        elif k == "html":
            n["scripts"] = self.refs(path, ["js"], 2)
            n["styles"] = self.refs(path, ["css"], 2)
            n["preloads"] = self.refs(path, ["txt", "png", "html", "ij", "const"], 2)
            n["partials"] = self.refs(path, ["partial"], 2)
            n["ijs"] = [
                {"imports": self.refs(path, ["js", "ij", "const"], 2), "v": self.nv()}
                for _ in range(r.choice([0, 0, 1, 2]))
            ]
            n["icss"] = [
                {"urls": self.refs(path, ["png", "txt"], 1), "v": self.nv()} for _ in range(r.choice([0, 0, 1]))
            ]
            n["images"] = [[p, r.choice([4, 5]), r.choice([4, 6])] for p in self.refs(path, ["png"], 2)]
        elif k == "ij":
            n["images"] = [[p, r.choice([4, 5]), r.choice([4, 6])] for p in self.refs(path, ["png"], 2)]
        elif k == "png":
            n["small"] = r.random() < 0.12
        elif k == "txt":
            n["big"] = r.random() < 0.15
        elif k == "partial":
            n["partials"] = self.refs(path, ["partial"], 1)
            n["preloads"] = self.refs(path, ["txt", "png"], 1)
            n["images"] = (
                [[p, 4, 4] for p in self.refs(path, ["png"], 1)] if r.random() < 0.3 else []
            )
        return n

    def populate(self, count):
        avail = [p for p in ALL if KIND[p] in self.kinds]
        picks = sorted(self.rng.sample(avail, min(count, len(avail))), key=ALL_RANK.get)
        for p in picks:
            self.nodes[p] = self.gen(p)

    # ---- rendering
    def url(self, p):
        if KIND[p] == "ij":
            p = p[: -len(".json")] + ".js"
        return "/" + p[len(PUB) :]

    def render(self, path, node=None):
        n = node or self.nodes[path]
        k, v = n["k"], n["v"]
        if k in ("txt", "private"):
            # large files that only differ at the end
            return (b"0123456789abcde\n" * 20000 if n.get("big") else b"") + f"text {v}\n".encode()
        if k == "png":
            return project.png(3, 3, v) if n.get("small") else project.png(8, 8, v)
        if k == "svg":
            return f'<svg xmlns="http://www.w3.org/2000/svg"><path fill="#102030" d="M{v} 0"/></svg>\n'.encode()
        if k == "const":
            return f"/* documentation {v} */\n".encode()
        if k == "js":
            return self.js(n, path).encode()
        if k == "css":
            return self.css(n, path).encode()
        if k == "ij":
            d = {
                f"i{i}": {"path": "/" + p[len(PUB) :], "width": w, "height": h}
                for i, (p, w, h) in enumerate(n["images"])
            }
            return (json.dumps(d) + "\n" + " " * (v % 97)).encode()
        if k == "html":
            return self.html(n, path).encode()
        if k == "partial":
            s = f"<p>partial {v}</p>\n"
            for p in n["partials"]:
                s += f'<!--[TEMPLATE: ["/{p[len("src/partials/"):]}", {{}}]]-->\n'
            for p in n["preloads"]:
                s += f'<link rel="preload" href="{self.url(p)}" as="fetch">\n'
            for p, w, h in n["images"]:
                s += f"<!--[IMAGE: {self.url(p)} {w} {h}]-->\n"
            return s.encode()
        raise AssertionError(k)

    def js(self, n, path):
        import posixpath

        s = f"// script {n['v']}\n"
        for i, p in enumerate(n["imports"]):
            u = self.url(p)
            if n.get("rel"):
                u = posixpath.relpath(u, posixpath.dirname("/" + path[len(PUB) :]))
                if not u.startswith("."):
                    u = "./" + u
            form = [
                f'import * as a{i} from "{u}";\n',
                f"import b{i} from '{u}';\n",
                f'import "{u}";\n',
                f'import {{ c{i} as d{i} }} from "{u}";\n',
            ][(i + n["v"]) % 4]
            s += form
        s += f'export const V = {n["v"]};\n'
        return s

    def css(self, n, path):
        nm = path[len(PUB) :].replace("/", "-").replace(".css", "")
        s = ""
        if path == PUB + "css/main.css":
            s += ":root {\n"
            for c in n.get("colors", COLORS):
                s += f"    --col-{c}: {HEX[c]};\n"
            s += "    --icon-size-small: 1rem;\n}\n"
        s += f".a-{nm} {{ order: {n['v']}; }}\n"
        for i, p in enumerate(n["urls"]):
            u = self.url(p)
            s += f".u{i} {{ background: " + (f'url("{u}")' if i % 2 else f"url({u})") + "; }\n"
        for i, d in enumerate(n["data"]):
            s += f".d{i} {{ background: url(\"data:image/svg+xml,%3csvg id='{d}'/%3e\"); }}\n"
        for i, p in enumerate(n["nest"]):
            pm = p[len(PUB) :].replace("/", "-").replace(".css", "")
            frm = f" FROM {self.url(p)}" if p != PUB + "css/main.css" else ""
            s += f".n{i} {{\n    /*! PREPROCESSOR: import .a-{pm}{frm} */\n}}\n"
        for p in n["icons"]:
            ic = p.rsplit("/", 1)[1][:-4]
            s += f'/*! PREPROCESSOR: icon {ic} primary ["accent"] all-sizes no-btn */\n'
            if n.get("xref"):
                s += f'.x {{ background: url("/{p[len(PUB):-4]}/accent.svg"); }}\n'
        return s

    def html(self, n, path):
        s = f"<!DOCTYPE html>\n<html>\n<head>\n<title>page {n['v']}</title>\n<link rel=\"canonical\">\n"
        for p in n["styles"]:
            s += f'<link rel="stylesheet" href="{self.url(p)}">\n'
        for p in n["preloads"]:
            s += f'<link rel="preload" href="{self.url(p)}" as="fetch">\n'
        for p in n["scripts"]:
            s += f'<script src="{self.url(p)}" type="module"></script>\n'
        for b in n["icss"]:
            s += f"<style>\n.x {{ order: {b['v']}; }}\n"
            for p in b["urls"]:
                s += f'.y {{ background: url("{self.url(p)}"); }}\n'
            s += "</style>\n"
        s += "</head>\n<body>\n"
        for p in n["partials"]:
            s += f'<!--[TEMPLATE: ["/{p[len("src/partials/"):]}", {{}}]]-->\n'
        for p, w, h in n["images"]:
            s += f"<!--[IMAGE: {self.url(p)} {w} {h}]-->\n"
        for b in n["ijs"]:
            s += '<script type="module">\n' + self.js({"imports": b["imports"], "v": b["v"]}, path) + "</script>\n"
        s += "</body>\n</html>\n"
        return s

    # ---- truth
    def icons_apply(self, path, nodes):
        """Whether the icon commands of a stylesheet refer to declared colours."""
        main = nodes.get(MAIN)
        return main is not None and set(main.get("colors", COLORS)) == set(COLORS)

    def image_applies(self, p, nodes):
        return p in nodes and not nodes[p].get("small")

    def partial_closure(self, ps, nodes):
        seen, stack = [], list(ps)
        while stack:
            p = stack.pop()
            if p in seen:
                continue
            seen.append(p)
            if p in nodes:
                stack += nodes[p]["partials"]
        return seen

    def deps(self, path, nodes=None):
        """Source files the published outputs of `path` are computed from, besides itself."""
        nodes = nodes if nodes is not None else self.nodes
        n = nodes[path]
        k = n["k"]
        d = set()
        if k == "js":
            d |= set(n["imports"])
        elif k == "css":
            d |= set(n["urls"]) | set(n["nest"])
            if n["icons"]:
                d.add(MAIN)
                if self.icons_apply(path, nodes):
                    d |= set(n["icons"])
        elif k == "ij":
            d |= {i[0] for i in n["images"]}
        elif k == "html":
            d |= set(n["scripts"]) | set(n["styles"]) | set(n["preloads"])
            for b in n["ijs"]:
                d |= set(b["imports"])
            for b in n["icss"]:
                d |= set(b["urls"])
            d |= {i[0] for i in n["images"]}
            for q in self.partial_closure(n["partials"], nodes):
                d.add(q)
                if q in nodes:
                    d |= set(nodes[q]["preloads"]) | {i[0] for i in nodes[q]["images"]}
        d.discard(path)
        return d

    def variants(self, path, nodes=None):
        nodes = nodes if nodes is not None else self.nodes
        n = nodes[path]
        res = set()
        if n["k"] in ("html", "ij"):
            res |= {tuple(i) for i in n["images"]}
        if n["k"] == "html":
            for q in self.partial_closure(n["partials"], nodes):
                if q in nodes:
                    res |= {tuple(i) for i in nodes[q]["images"]}
        if n["k"] == "ij" and any(not self.image_applies(i[0], nodes) for i in res):
            return set()
        return {i for i in res if self.image_applies(i[0], nodes)}

    def outs(self, path, nodes=None):
        """Published files (image variant numbers as #)."""
        nodes = nodes if nodes is not None else self.nodes
        n = nodes[path]
        k = n["k"]
        res = set()
        if k in ("partial", "private"):
            return res
        main = OUT + path[len(PUB) :]
        if k == "ij" and any(not self.image_applies(i[0], nodes) for i in n["images"]):
            return res
        if k == "ij":
            main = main[: -len(".json")] + ".js"
        res |= {main, main + ".hash"}
        stem = path[len(PUB) :].rsplit(".", 1)[0]
        if k == "css":
            for i in range(len(n["data"])):
                o = f"{OUT}img/gen/{stem}/{i+1}.svg"
                res |= {o, o + ".hash"}
            for p in n["icons"] if self.icons_apply(path, nodes) else []:
                o = OUT + p[len(PUB) : -4] + "/accent.svg"
                res |= {o, o + ".hash"}
        if k == "html":
            for i in range(len(n["ijs"])):
                o = f"{OUT}js/gen/{stem}/{i+1}.js"
                res |= {o, o + ".hash"}
            for i in range(len(n["icss"])):
                o = f"{OUT}css/gen/{stem}/{i+1}.css"
                res |= {o, o + ".hash"}
        for p, w, h in self.variants(path, nodes):
            res.add(f"{OUT}{p[len(PUB):-4]}/#/{w}x{h}.png")
        return res

    def links(self, path, nodes=None):
        """(published file, published file) pairs: versioned references that must appear."""
        nodes = nodes if nodes is not None else self.nodes
        n = nodes[path]
        k = n["k"]
        if k not in ("js", "css", "html"):
            return set()
        me = OUT + path[len(PUB) :]
        stem = path[len(PUB) :].rsplit(".", 1)[0]
        to = lambda p: OUT + self.url(p)[1:]
        res = set()
        if k == "js":
            res |= {(me, to(p)) for p in n["imports"]}
        if k == "css":
            res |= {(me, to(p)) for p in n["urls"]}
            res |= {(me, f"{OUT}img/gen/{stem}/{i+1}.svg") for i in range(len(n["data"]))}
            if n["icons"] and self.icons_apply(path, nodes):
                res |= {(me, OUT + p[len(PUB) : -4] + "/accent.svg") for p in n["icons"]}
        if k == "html":
            for key in ("scripts", "styles", "preloads"):
                res |= {(me, to(p)) for p in n[key]}
            for i, b in enumerate(n["ijs"]):
                g = f"{OUT}js/gen/{stem}/{i+1}.js"
                res.add((me, g))
                res |= {(g, to(p)) for p in b["imports"]}
            for i, b in enumerate(n["icss"]):
                g = f"{OUT}css/gen/{stem}/{i+1}.css"
                res.add((me, g))
                res |= {(g, to(p)) for p in b["urls"]}
            for q in self.partial_closure(n["partials"], nodes):
                if q in nodes:
                    res |= {(me, to(p)) for p in nodes[q]["preloads"]}
        return res

    def listed(self, p, nodes):
        return [q for q in sorted(self.deps(p, nodes)) if KIND[q] == "ij"]

    def problem(self, nodes=None):
        """None if the sources are buildable, else 'dangling' or 'cycle'."""
        nodes = nodes if nodes is not None else self.nodes
        graph = {p: self.deps(p, nodes) for p in nodes}
        for p, d in graph.items():
            if KIND[p] != "partial" and not d <= set(nodes):
                return "dangling"
            if nodes[p]["k"] in ("js", "html"):
                # scripts and preloads need the list to produce its script
                for q in self.listed(p, nodes):
                    if q in nodes and not self.outs(q, nodes):
                        return "dangling"
            if nodes[p]["k"] == "css" and nodes[p].get("xref") and not self.icons_apply(p, nodes):
                return "dangling"
        def nests(p, above):
            return p in above or (
                p in nodes and any(nests(q, above | {p}) for q in nodes[p]["partials"])
            )

        if any(nests(q, frozenset()) for n in nodes.values() if n["k"] == "html" for q in n["partials"]):
            return "cycle"

        state = {}

        def visit(p):
            if state.get(p) == 1:
                return True
            if state.get(p) == 2:
                return False
            state[p] = 1
            bad = any(visit(q) for q in sorted(graph[p]) if q in graph)
            state[p] = 2
            return bad

        return "cycle" if any(visit(p) for p in sorted(graph)) else None


# references go from higher rank to lower rank unless cycles are wanted
_ORDER = ["txt", "png", "svg", "const", "private", "ij", "partial", "js", "css", "html"]
ALL_RANK = {p: i for i, p in enumerate(sorted(KIND, key=lambda p: (_ORDER.index(KIND[p]), p)))}
# css/main.css is the default stylesheet: every other stylesheet may depend on it
for _p in list(ALL_RANK):
    if _p == PUB + "css/main.css":
        ALL_RANK[_p] = ALL_RANK[PUB + "css/c0.css"] - 0.5
