"""Runs the real build in a forked child with a controllable worker pool.

The worker pool classes of concurrent.futures are replaced (before the code under test is
imported) by SimExecutor: work runs in-process, one task at a time, in an order chosen by a
policy, so every completion order can be produced, recorded and replayed.  Every build runs in
its own forked child; the child is killed at a chosen file system operation to model a crash.
"""
import asyncio
import concurrent.futures
import functools
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading
import time
import traceback

import common

_real_ppe = concurrent.futures.ProcessPoolExecutor
_time = time.time  # tests of the watcher replace it
_mono = time.monotonic

# ------------------------------------------------------------------ executor


class State:
    """Per-child simulation state."""

    def __init__(self):
        self.policy = None
        self.events = []
        self.depth = 0
        self.current = None
        self.pending = []
        self.lock = threading.RLock()
        self.last = _time()
        self.pump_scheduled = None  # the loop it is scheduled on
        self.watch = None
        self.seq = 0
        self.folder = None
        self.scan_names = None


ST = State()


def classify(fn, args):
    """(kind, file) of a submitted task."""
    names = []
    vals = []

    def walk(f, a):
        while isinstance(f, functools.partial):
            a = list(f.args) + list(f.keywords.values()) + list(a)
            f = f.func
        names.append(getattr(f, "__name__", ""))
        for x in a:
            if callable(x) and not isinstance(x, type):
                walk(x, [])
            elif isinstance(x, str):
                vals.append(x)

    walk(fn, args)
    file = None
    for v in vals:
        if v.startswith("src" + os.sep):
            file = v
            break
    j = " ".join(names).lower()
    if "scan" in j:
        kind = "scan"
    elif "produce_image" in j:
        kind = "image"
    elif "extern" in j:
        kind = "external"
    elif file is not None:
        kind = "build"
    else:
        kind = "other"
    return kind, file


class SimExecutor:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(wait=True)
        return False

    def submit(self, fn, *args, **kwargs):
        fut = concurrent.futures.Future()
        kind, file = classify(fn, list(args) + list(kwargs.values()))
        ST.seq += 1
        task = (ST.seq, fut, fn, args, kwargs, kind, file)
        running = None
        try:
            running = asyncio.get_running_loop()
        except RuntimeError:
            pass
        if ST.depth > 0 or running is None:
            run_task(task, nested=True)
            return fut
        ST.events.append({"e": "submit", "k": kind, "f": file, "n": ST.seq})
        with ST.lock:
            ST.pending.append(task)
            ST.last = _time()
            if ST.pump_scheduled is not running:
                ST.pump_scheduled = running
                running.call_soon(pump, running)
        ensure_watch()
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futs = [self.submit(fn, *args) for args in zip(*iterables)]

        def gen():
            for f in futs:
                yield f.result()

        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        if ST.depth == 0:
            # tasks never awaited (for example after an error) still run in a real pool
            drain()


def drain():
    while True:
        with ST.lock:
            if not ST.pending:
                return
            task = ST.pending.pop(0)
        run_task(task)


def ensure_watch():
    """Fallback: if the submitting thread blocks without running the loop, drain from a thread."""
    if ST.watch is not None:
        return

    def watch():
        while True:
            time.sleep(0.1)
            if ST.pending and ST.depth == 0 and _time() - ST.last > 1.0:
                with ST.lock:
                    if ST.pending and ST.depth == 0:
                        task = ST.pending.pop(0)
                        run_task(task)

    ST.watch = threading.Thread(target=watch, daemon=True)
    ST.watch.start()


def pump(loop):
    with ST.lock:
        ST.pump_scheduled = None
        if not ST.pending:
            return
        idx, more = ST.policy.pick(ST.pending)
        task = ST.pending.pop(idx)
        run_task(task)
        while more and ST.pending:
            idx, more = ST.policy.pick(ST.pending)
            run_task(ST.pending.pop(idx))
        if ST.pending and ST.pump_scheduled is None:
            ST.pump_scheduled = loop
            # let the awaiting code observe the completion before the next one
            loop.call_soon(defer, loop, 4)


def defer(loop, n):
    if n <= 0:
        pump(loop)
    else:
        loop.call_soon(defer, loop, n - 1)


def describe(res):
    out = {}
    for k in ("children", "produced", "reused", "dependencies", "produces"):
        v = getattr(res, k, None)
        if isinstance(v, (list, tuple, set)):
            out[k] = sorted(str(x) for x in v)
    ph = getattr(res, "placeholders", None)
    if isinstance(ph, dict):
        out["placeholders"] = sorted(ph)
    return out


def kind_of_result(res, guess):
    """What the task was, judged by what it returned."""
    if hasattr(res, "dependencies") and hasattr(res, "produces"):
        return "scan"
    if hasattr(res, "children") and hasattr(res, "produced"):
        return "build"
    return guess


def relabel(events):
    """Submissions are of the kind their completion turned out to be."""
    kinds = {e["n"]: e["k"] for e in events if e["e"] == "done"}
    for e in events:
        if e["e"] == "submit":
            e["k"] = kinds.get(e["n"], e["k"])
    return events


def run_task(task, nested=False):
    seq, fut, fn, args, kwargs, kind, file = task
    ST.depth += 1
    prev = ST.current
    if not nested or prev is None:
        ST.current = (kind, file)
    if not fut.set_running_or_notify_cancel():
        ST.depth -= 1
        ST.current = prev
        return
    top = not nested
    if top and kind == "build" and ST.policy.crash_after is not None:
        if ST.policy.built >= ST.policy.crash_after:
            os._exit(137)
        ST.policy.built += 1
    try:
        if ST.policy is not None and ST.policy.fails(kind, file):
            raise RuntimeError("injected failure")
        res = fn(*args, **kwargs)
    except Exception as e:
        if top:
            ST.events.append({"e": "fail", "k": kind, "f": file, "n": seq, "x": f"{type(e).__name__}: {e}"[:300]})
        exc, res = e, None
    else:
        exc = None
        if top:
            ev = {"e": "done", "k": kind_of_result(res, kind), "f": file, "n": seq}
            ev.update(describe(res))
            ST.events.append(ev)
    finally:
        ST.depth -= 1
        ST.current = prev
        ST.last = _time()
    if exc is not None:
        fut.set_exception(exc)
    else:
        fut.set_result(res)


def install():
    """Must run before vanillaplusjs is imported."""
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    common.setup_repo_path()
    import vanillaplusjs.main  # noqa: F401
    import vanillaplusjs.runners.build
    import vanillaplusjs.runners.clean
    import vanillaplusjs.runners.dev
    import vanillaplusjs.runners.init  # noqa: F401

    try:
        import loguru

        loguru.logger.remove()
    except Exception:
        pass


# ------------------------------------------------------------------ policies


class Policy:
    """order: fifo | lifo | random:<seed> | list of files (priority)."""

    def __init__(self, order="fifo", burst=0.0, fail=(), crash_after=None):
        self.order = order
        self.crash_after = crash_after  # killed once this many files were built
        self.built = 0
        self.fail = set(fail)
        self.rng = None
        self.burst = burst
        if isinstance(order, str) and order.startswith("random"):
            self.rng = random.Random(order)
        elif burst:
            self.rng = random.Random(str(order))
        self.rank = {f: i for i, f in enumerate(order)} if not isinstance(order, str) else None

    def pick(self, pending):
        more = bool(self.rng and self.burst and self.rng.random() < self.burst)
        if self.rank is not None:
            best = min(range(len(pending)), key=lambda i: (self.rank.get(pending[i][6], 10**6), i))
            return best, more
        if self.order == "lifo":
            return len(pending) - 1, more
        if self.order.startswith("random"):
            return self.rng.randrange(len(pending)), more
        return 0, more

    def fails(self, kind, file):
        return (kind, file) in self.fail


# ------------------------------------------------------------------ audit hook / crash

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Audit:
    def __init__(self, folder, crash_at=None, crash_trunc=False, record=True):
        self.folder = os.path.abspath(folder) + os.sep
        self.count = 0
        self.crash_at = crash_at
        self.crash_trunc = crash_trunc
        self.record = record
        self.on = False
        self.deny = None

    def rel(self, p):
        if isinstance(p, int) or p is None:
            return None
        try:
            p = os.fsdecode(p)
        except TypeError:
            return None
        p = os.path.abspath(p)
        if p.startswith(self.folder):
            return p[len(self.folder) :]
        return None

    def __call__(self, event, args):
        if not self.on:
            return
        op = None
        if event == "open":
            path, mode, flags = args
            if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
                mode is None and isinstance(flags, int) and flags & WRITE_FLAGS
            ):
                op, paths = "open_w", [path]
            elif isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                op, paths = "open_w", [path]
        elif event in ("os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.utime", "os.chmod"):
            op, paths = event[3:], [args[0]]
        elif event in ("os.rename", "os.link", "os.symlink"):
            op, paths = event[3:], [args[1]] if event != "os.rename" else [args[0], args[1]]
        if op is None:
            return
        rels = [self.rel(p) for p in paths]
        if all(r is None for r in rels):
            return
        self.count += 1
        if self.record:
            ST.events.append({"e": "fs", "op": op, "p": rels, "t": list(ST.current) if ST.current else None})
        if self.crash_at is not None and self.count == self.crash_at:
            if self.crash_trunc and op == "open_w" and rels[0] is not None:
                # the file was opened for writing but nothing reached the disk
                self.on = False
                try:
                    fd = os.open(os.path.join(self.folder, rels[0]), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.close(fd)
                except OSError:
                    pass
            os._exit(137)


# ------------------------------------------------------------------ fork runner


class Result:
    def __init__(self, outcome, events=(), fs_ops=0, exc=None, value=None):
        self.outcome = outcome  # ok | error | crash | hang | exit
        self.events = list(events)
        self.fs_ops = fs_ops
        self.exc = exc
        self.value = value

    def __repr__(self):
        return f"<{self.outcome} {self.exc or ''}>"


def run_forked(fn, timeout=60.0):
    """Runs fn() in a forked child; fn returns a picklable value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            val = fn()
            data = pickle.dumps(val)
            with os.fdopen(w, "wb") as fp:
                fp.write(struct.pack("<Q", len(data)) + data)
        except BaseException:
            code = 99
            try:
                with os.fdopen(w, "wb") as fp:
                    data = pickle.dumps(("__internal__", traceback.format_exc()))
                    fp.write(struct.pack("<Q", len(data)) + data)
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    deadline = _mono() + timeout
    hung = False
    while True:
        left = deadline - _mono()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            hung = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return "hang", None
    _, status = os.waitpid(pid, 0)
    if len(buf) >= 8:
        (n,) = struct.unpack("<Q", buf[:8])
        val = pickle.loads(buf[8 : 8 + n])
        if isinstance(val, tuple) and val and val[0] == "__internal__":
            raise common.MachineryError(val[1])
        return "value", val
    return "crash", os.WEXITSTATUS(status) if os.WIFEXITED(status) else -1


def sim(
    folder,
    op,
    policy=None,
    crash_at=None,
    crash_trunc=False,
    record=True,
    timeout=60.0,
    cwd=None,
):
    """Runs op() (a call into the code under test) for the project `folder`."""

    def child():
        global ST
        ST.policy = policy or Policy()
        ST.events = []
        ST.folder = folder
        audit = Audit(folder, crash_at, crash_trunc, record)
        sys.addaudithook(audit)
        if cwd is not None:
            os.chdir(cwd)
        audit.on = True
        outcome, exc, value = "ok", None, None
        try:
            value = op()
        except SystemExit as e:
            outcome, exc = "exit", f"SystemExit: {e}"
        except Exception as e:
            outcome = "error"
            exc = f"{type(e).__name__}: {e}"[:500]
            exc += " @ " + str(common.innermost_repo_frame(e))
        audit.on = False
        return outcome, ST.events, audit.count, exc, value

    kind, val = run_forked(child, timeout)
    if kind == "hang":
        return Result("hang")
    if kind == "crash":
        return Result("crash", exc=str(val))
    return Result(val[0], relabel(val[1]), val[2], val[3], val[4])


def do_build(folder, dev=False, symlinks=False):
    from vanillaplusjs.runners.build import build

    return lambda: build(folder, dev=dev, symlinks=symlinks, delay_files=[])


def do_clean(folder, placeholders):
    from vanillaplusjs.runners.clean import clean

    return lambda: clean(folder, placeholders)
