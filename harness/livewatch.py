"""Real `dev --watch` processes, with real notifications; the served site has to converge."""
import os
import random
import shutil
import signal
import socket
import subprocess
import sys
import time
import urllib.error
import urllib.request

import buildsim
import common
import history
import project


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def fetch(port, path):
    try:
        with urllib.request.urlopen(f"http://127.0.0.1:{port}{path}", timeout=10) as r:
            return r.status, r.read()
    except urllib.error.HTTPError as e:
        return e.code, b""
    except OSError:
        return None, b""


def served(folder, port):
    """What is wrong with the files the server answers with, None if nothing"""
    for p, b in sorted(project.www(folder).items())[:40]:
        if p.endswith("index.html") or b is None:
            continue
        st, body = fetch(port, p[len("out/www") :])
        if st != 200 or body != b:
            return f"{p} is served as {st} {body[:100]!r}"
    return None


def live(ctx, seed, rounds=4, patience=45):
    """(log, problem or None)"""
    r = random.Random(f"live-{seed}")
    W = history.World(ctx, r, f"live{seed}", dangling=0.0)
    W.mode = "dev"
    index = "src/public/index.html"
    log = W.log
    W.populate(r.choice([6, 14]))
    W.p.write(index, b"<!DOCTYPE html><html><head></head><body><p>0</p></body></html>\n")
    if W.site.problem():
        W.fix()
    port = free_port()
    code = f"import sys; sys.path.insert(0, {common.REPO!r}); from vanillaplusjs.main import main; main()"
    code = (
        f"import sys; sys.path.insert(0, {common.REPO!r})\n"
        "from vanillaplusjs.runners.dev import dev\n"
        f"if __name__ == '__main__': dev(folder={W.folder!r}, host='127.0.0.1', port={port}, watch=True, debounce=100)\n"
    )
    runner = os.path.join(ctx.scratch, f"live{seed}.py")
    with open(runner, "w") as fp:
        fp.write(code)
    with open(os.path.join(ctx.scratch, f"live{seed}.out"), "wb") as out:
        # a folder of its own, since the symlink probe writes to the current folder
        home = os.path.join(ctx.scratch, f"live{seed}.cwd")
        os.makedirs(home, exist_ok=True)
        pr = subprocess.Popen([sys.executable, runner], cwd=home, stdout=out, stderr=out, start_new_session=True)
    try:
        t = time.time()
        while fetch(port, "/index.html")[0] != 200:
            if pr.poll() is not None or time.time() - t > 120:
                with open(os.path.join(ctx.scratch, f"live{seed}.out"), "rb") as fp:
                    tail = fp.read()[-1500:].decode("utf-8", "replace")
                return log, f"the dev server did not start: {tail}"
            time.sleep(0.1)
        time.sleep(1.5)  # the observer starts after the server
        for n in range(rounds):
            if r.random() < 0.4 and n:
                # a state that does not build, for a while
                name = r.choice(["broken.html", "sub/broken.html"])
                W.p.write("src/public/" + name, b'<!DOCTYPE html><html><head><link rel="preload" href="/nothing.txt" as="fetch"></head></html>')
                log.append("broken")
                time.sleep(r.choice([0.05, 1.0]))
                W.p.delete("src/public/" + name)
            for _ in range(r.choice([1, 3, 6])):
                W.random_edit()
                time.sleep(r.choice([0, 0, 0.02, 0.15]))
            if W.site.problem():
                W.fix()
            W.p.write(index, f"<!DOCTYPE html><html><head></head><body><p>{seed} {n}</p></body></html>\n".encode())
            # placeholders belong to the sources from now on
            t = time.time()
            diff = "?"
            while diff is not None and time.time() - t < patience:
                time.sleep(0.5)
                try:
                    d, res = W.clean_reference(dev=True)
                    diff = project.same_site(W.folder, d) if res.outcome == "ok" else res.exc
                    shutil.rmtree(d, ignore_errors=True)
                    if diff is None:
                        # a rebuild may still be going on, in the middle of which files are missing
                        diff = served(W.folder, port)
                except (OSError, ValueError):
                    diff = "changing"
            log.append(("converged", n, round(time.time() - t, 1)))
            if diff is not None:
                return log, f"not converged: {diff}"
            if pr.poll() is not None:
                return log, "the watcher died"
        return log, None
    finally:
        try:
            os.killpg(pr.pid, signal.SIGKILL)
        except OSError:
            pass
        pr.wait()
        W.wipe()
