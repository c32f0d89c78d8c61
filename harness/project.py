"""A project folder on disk whose file signatures are fully controlled, and snapshots of it."""
import base64
import hashlib
import io
import json
import os
import re
import shutil

BASE_CONFIG = {
    "version": "1",
    "host": "example.com",
    "images": {
        "formats": {
            "png": {
                "exports": {
                    "a": {
                        "min_area_px2": None,
                        "max_area_px2": None,
                        "preference": 1,
                        "formatter_kwargs": {},
                    }
                },
                "minimum_unit_size_bytes": 85000,
            }
        },
        "default_format": "png",
        "maximum_resolution": 1,
        "resolution_step": "0.5",
    },
    "auto_generate_images_js_placeholders": True,
    "external_files": {},
    "js_constants": {
        "relpath": "src/public/js/constants.js",
        "shared": {"S": "shared"},
        "dev": {"API_URL": "http://127.0.0.1:8080"},
        "prod": {"API_URL": ""},
    },
}


def base_config():
    import vanillaplusjs.constants

    c = json.loads(json.dumps(BASE_CONFIG))
    c["version"] = vanillaplusjs.constants.CONFIGURATION_VERSION
    return c


_img_cache = {}


def png(w=8, h=8, seed=0):
    key = (w, h, seed)
    if key not in _img_cache:
        from PIL import Image

        im = Image.new("RGB", (w, h), ((seed * 37) % 256, (seed * 91) % 256, (seed * 13 + 5) % 256))
        im.putpixel((0, 0), (seed % 256, 1, 2))
        buf = io.BytesIO()
        im.save(buf, format="PNG")
        _img_cache[key] = buf.getvalue()
    return _img_cache[key]


class Project:
    """All writes get a strictly increasing mtime unless asked otherwise."""

    clock = 1_600_000_000

    def __init__(self, folder, config=None):
        self.folder = folder
        os.makedirs(os.path.join(folder, "src", "public"), exist_ok=True)
        self.config = config or base_config()
        self.write_config()

    def write_config(self):
        with open(os.path.join(self.folder, "vanillaplusjs.json"), "w") as fp:
            json.dump(self.config, fp)

    def abs(self, rel):
        return os.path.join(self.folder, rel)

    def tick(self):
        Project.clock += 7
        return Project.clock

    def write(self, rel, data, mtime=None, replace=False):
        if isinstance(data, str):
            data = data.encode("utf-8")
        p = self.abs(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if replace:
            tmp = os.path.join(self.folder, ".tmp-new")
            with open(tmp, "wb") as fp:
                fp.write(data)
            os.utime(tmp, (mtime or self.tick(),) * 2)
            os.replace(tmp, p)
        else:
            with open(p, "wb") as fp:
                fp.write(data)
            os.utime(p, (mtime or self.tick(),) * 2)

    def read(self, rel):
        with open(self.abs(rel), "rb") as fp:
            return fp.read()

    def delete(self, rel):
        os.unlink(self.abs(rel))
        d = os.path.dirname(rel)
        while d not in ("", "src", "src/public"):
            try:
                os.rmdir(self.abs(d))
            except OSError:
                break
            d = os.path.dirname(d)

    def exists(self, rel):
        return os.path.lexists(self.abs(rel))

    def touch(self, rel):
        t = self.tick()
        os.utime(self.abs(rel), (t, t))

    def sources(self):
        return tree(self.abs("src"), "src")

    def wipe(self):
        shutil.rmtree(self.folder, ignore_errors=True)

    def clone(self, folder, with_artifacts=False, with_out=False):
        """A fresh checkout of the sources (same signatures are not preserved on purpose)."""
        os.makedirs(folder)
        shutil.copytree(self.abs("src"), os.path.join(folder, "src"), symlinks=True)
        shutil.copy(self.abs("vanillaplusjs.json"), os.path.join(folder, "vanillaplusjs.json"))
        if with_artifacts and os.path.isdir(self.abs("artifacts")):
            shutil.copytree(self.abs("artifacts"), os.path.join(folder, "artifacts"))
        if with_out and os.path.isdir(self.abs("out")):
            shutil.copytree(self.abs("out"), os.path.join(folder, "out"), symlinks=True)
        return folder


def tree(root, prefix):
    """path -> bytes of every file below root (following symlinks to files)."""
    res = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            rel = os.path.join(prefix, os.path.relpath(p, root))
            try:
                with open(p, "rb") as fp:
                    res[rel] = fp.read()
            except OSError:
                res[rel] = None  # dangling symlink
    return res


def identities(root, prefix):
    """path -> (inode, mtime_ns, size, is-link) without following symlinks; folders included."""
    res = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            s = os.lstat(p)
            res[os.path.join(prefix, os.path.relpath(p, root))] = (
                s.st_ino,
                s.st_mtime_ns,
                s.st_size,
                os.path.islink(p),
            )
    return res


def empty_dirs(root, prefix):
    res = []
    for dp, dn, fn in os.walk(root):
        if not dn and not fn:
            res.append(os.path.join(prefix, os.path.relpath(dp, root)))
    return res


def www(folder):
    return tree(os.path.join(folder, "out", "www"), "out/www")


def digest(b):
    return base64.urlsafe_b64encode(hashlib.sha256(b).digest()).decode()


_TOKEN = re.compile(rb"[A-Za-z0-9_-]{43}(?:=|%3D)")


def variant_labels(folder):
    """out/www image variant folders and the settings they stand for."""
    res = {}
    art = os.path.join(folder, "artifacts")
    for dp, dn, fn in os.walk(art):
        if "metadata.json" in fn:
            try:
                with open(os.path.join(dp, "metadata.json")) as fp:
                    m = json.load(fp)
            except ValueError:
                continue
            rel = os.path.relpath(dp, art).replace(os.sep, "/")
            key = json.dumps(
                [m["source"]["path"], m["source"]["contents_hash"], m["settings_hash"], m["target"]["settings"]],
                sort_keys=True,
            )
            res[rel] = os.path.dirname(rel) + "/V" + hashlib.sha1(key.encode()).hexdigest()[:10]
    return res


def canonical(files, labels):
    """Canonical form of a published tree: image variant numbers replaced by what they stand for,
    and digests replaced by the canonical digest of the file they identify."""
    subs = [(("/" + k + "/").encode(), ("/" + v + "/").encode()) for k, v in sorted(labels.items())]
    psubs = [("/" + k + "/", "/" + v + "/") for k, v in sorted(labels.items())]

    def cpath(p):
        for a, b in psubs:
            p = p.replace("out/www" + a, "out/www" + b)
        return p

    by_digest = {}
    for p, b in files.items():
        if b is not None and not p.endswith(".hash"):
            by_digest.setdefault(digest(b), p)
    memo = {}
    active = set()

    def content(p):
        if p in memo:
            return memo[p]
        if p in active:
            return b"<cycle>"
        active.add(p)
        b = files[p]
        if b is None:
            memo[p] = b"<dangling>"
            active.discard(p)
            return memo[p]

        def rep(m):
            t = m.group(0).decode().replace("%3D", "=")
            q = by_digest.get(t)
            if q is None:
                return b"<unknown digest>"
            return b"<" + hashlib.sha256(content(q)).hexdigest().encode() + b">"

        if b"\x00" in b[:2000]:
            res = b
        else:
            res = b
            for x, y in subs:
                res = res.replace(x, y)
            res = _TOKEN.sub(rep, res)
        memo[p] = res
        active.discard(p)
        return res

    return {cpath(p): content(p) for p in files}


def same_site(folder_a, folder_b):
    """None if both folders publish the same site, else a description of the difference."""
    a, b = www(folder_a), www(folder_b)
    if a == b:
        return None
    ca = canonical(a, variant_labels(folder_a))
    cb = canonical(b, variant_labels(folder_b))
    if ca == cb:
        return None
    missing = sorted(set(cb) - set(ca))
    extra = sorted(set(ca) - set(cb))
    diff = sorted(p for p in ca if p in cb and ca[p] != cb[p])
    d = {"missing": missing[:5], "extra": extra[:5], "different": diff[:5]}
    if diff:
        d["got"] = ca[diff[0]][:400].decode("latin-1")
        d["want"] = cb[diff[0]][:400].decode("latin-1")
    return d
