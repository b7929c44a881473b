"""Scheduling of cases over worker processes, recording of observations, verdicts and evidence.

A check is a module checks/<id>.py with
    PROPERTY, RULE           strings
    GROUPS                   list of Group(name, fn, quick=n, thorough=n, ...)
A case function fn(rec, rng, tier) drives the real library and reports to the recorder:
    rec.ok(cond, key, msg, **detail)     one oracle evaluation; a false one is a violation `key`
    rec.event(name, n)                   something the monitor observed
    rec.seen(*sig)                       signature of a distinct non-trivial case
Everything random comes from rng, which is derived from (seed, group, index).
"""
import faulthandler
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

import numpy as np

REPO = os.environ.get("VM_REPO", "/repo")
NPROC = int(os.environ.get("VM_NPROC", "8"))


class Group:
    def __init__(self, name, fn, quick, thorough=None, timeout=240, chunk=None, weight=1.0):
        self.name, self.fn = name, fn
        self.n = {"quick": quick, "thorough": thorough if thorough is not None else quick * 6}
        self.timeout = timeout
        self.chunk = chunk
        self.weight = weight


class Skip(Exception):
    """The generated case is outside the property's domain."""


READABLE = (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, RuntimeError)


class Rec:
    MAXV = 40

    def __init__(self):
        self.evals = 0
        self.events = Counter()
        self.sigs = set()
        self.viol = []
        self.samples = []
        self.skipped = 0

    def ok(self, cond, key, msg="", **detail):
        self.evals += 1
        if not bool(cond):
            if len(self.viol) < self.MAXV:
                self.viol.append((str(key), str(msg)[:1500], {k: _plain(v) for k, v in detail.items()}))
            return False
        return True

    def close(self, a, b, key, msg="", rtol=1e-6, atol=1e-8, **detail):
        """Numerical agreement of two arrays, shapes included (up to squeezing)."""
        try:
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            return self.ok(False, key, f"{msg}: not numeric ({e})", a=a, b=b, **detail)
        if a.size != b.size or tuple(s for s in a.shape if s != 1) != tuple(s for s in b.shape if s != 1):
            return self.ok(False, key, f"{msg}: shape {a.shape} instead of {b.shape}", **detail)
        a, b = a.reshape(-1), b.reshape(-1)
        scale = max(1e-300, float(np.nanmax(np.abs(b))) if b.size and np.isfinite(b).any() else 1.0)
        bad = ~(np.isclose(a, b, rtol=rtol, atol=atol + rtol * scale, equal_nan=True))
        if bad.any():
            i = int(np.argmax(bad))
            return self.ok(False, key, f"{msg}: {int(bad.sum())} of {a.size} values differ, e.g. [{i}] "
                                       f"{a[i]!r} instead of {b[i]!r}", **detail)
        return self.ok(True, key)

    def event(self, name, n=1):
        self.events[name] += n

    def seen(self, *sig):
        self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: _plain(v) for k, v in kw.items()})


def _plain(v, depth=0):
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 60 else f"array{v.shape} {np.array2string(v.ravel()[:8], precision=5)}..."
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {str(k): _plain(x, depth + 1) for k, x in list(v.items())[:40]}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [_plain(x, depth + 1) for x in list(v)[:60]]
    if isinstance(v, (int, float, bool)) or v is None:
        return v
    return str(v)[:600]


def where(exc):
    """'Type@file:function' of the innermost frame inside the library, or None."""
    fr = None
    for f in traceback.extract_tb(exc.__traceback__):
        if "/ylearn/" in f.filename.replace("\\", "/"):
            fr = f
    if fr is None:
        return None
    fn = fr.filename.replace("\\", "/")
    return f"{type(exc).__name__}@{fn[fn.rindex('/ylearn/') + 1:]}:{fr.name}"


def case_rng(seed, group, index):
    h = hashlib.sha256(f"{seed}/{group}/{index}".encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def run_case(group, index, seed, tier):
    rec = Rec()
    rng = case_rng(seed, group.name, index)
    s = int(rng.integers(0, 2**31 - 1))
    np.random.seed(s)
    random.seed(s)
    torch = sys.modules.get("torch")
    if torch is not None:
        torch.manual_seed(s)
    err = None
    try:
        group.fn(rec, rng, tier)
    except Skip as e:
        rec.skipped += 1
        rec.event("skipped")
    except Exception as e:
        w = where(e)
        tb = traceback.format_exc()[-2500:]
        if w is not None:
            rec.ok(False, "exc:" + w, f"unexpected exception on valid input: {type(e).__name__}: {e}", tb=tb)
        elif isinstance(e, READABLE):
            # the check could not interpret what the library returned (None, wrong type, wrong length, missing column)
            rec.ok(False, f"unreadable:{type(e).__name__}", f"the result could not be read: {type(e).__name__}: {e}", tb=tb)
        else:
            err = tb
    return rec, err


def _worker(conn, group, indices, seed, tier):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    faulthandler.enable(open(os.devnull, "w"))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VM_DEBUG"):
        os.dup2(devnull, 2)
    if "VM_SAN_DEST" in os.environ:
        from vm import sanitize
        sys.stderr = os.fdopen(os.dup(2), "w", buffering=1)
        sanitize.attend()
    for i in indices:
        conn.send(("start", i))
        rec, err = run_case(group, i, seed, tier)
        conn.send(("done", i, rec.evals, dict(rec.events), rec.sigs, rec.viol, rec.samples, rec.skipped, err))
    conn.send(("end",))
    conn.close()
    os._exit(0)


class Ctx:
    def __init__(self, prop, seed, tier, deadline):
        self.prop, self.seed, self.tier, self.deadline = prop, seed, tier, deadline
        self.evals = 0
        self.events = Counter()
        self.sigs = set()
        self.viol = {}
        self.samples = []
        self.cases = Counter()
        self.planned = Counter()
        self.errors = []
        self.timeouts = []
        self.t0 = time.time()

    def add(self, group, i, evals, events, sigs, viol, samples, skipped, err):
        self.cases[group.name] += 1
        self.evals += evals
        self.events.update(events)
        self.sigs |= sigs
        for key, msg, detail in viol:
            self.viol.setdefault(key, []).append((group.name, i, msg, detail))
        for s in samples:
            if sum(1 for x in self.samples if x["group"] == group.name) < 2:
                self.samples.append(dict(group=group.name, index=i, **s))
        if err:
            self.errors.append((group.name, i, err))

    def run(self, groups):
        """Runs all groups over a pool of forked workers, one chunk of cases per process."""
        queue = []
        for g in groups:
            n = g.n[self.tier]
            self.planned[g.name] = n
            if n == 0:
                continue
            chunk = g.chunk or max(1, min(25, n // (NPROC * 3) or 1))
            for a in range(0, n, chunk):
                queue.append((g, list(range(a, min(n, a + chunk)))))
        # interleave the groups so that a deadline trims every group rather than the last ones
        byg = {}
        for g, c in queue:
            byg.setdefault(g.name, []).append((g, c))
        total = {k: len(v) for k, v in byg.items()}
        order = sorted(((j / total[k], k, j) for k in byg for j in range(total[k])))
        queue = [byg[k][j] for _, k, j in order]
        queue.reverse()
        ctx = mp.get_context("fork")
        live = []
        while queue or live:
            while queue and len(live) < NPROC and time.time() < self.deadline:
                g, idx = queue.pop()
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=_worker, args=(b, g, idx, self.seed, self.tier))
                p.start()
                b.close()
                live.append(dict(p=p, c=a, g=g, idx=idx, cur=None, t=time.time(), done=set()))
            if time.time() >= self.deadline and queue:
                self.events["chunks_not_started"] += len(queue)
                queue = []
            mp.connection.wait([w["c"] for w in live], timeout=0.5)
            for w in list(live):
                ended = False
                try:
                    while w["c"].poll():
                        m = w["c"].recv()
                        if m[0] == "start":
                            w["cur"], w["t"] = m[1], time.time()
                        elif m[0] == "done":
                            w["done"].add(m[1])
                            w["cur"] = None
                            self.add(w["g"], *m[1:])
                        else:
                            ended = True
                            break
                except EOFError:
                    ended = None
                rest = [i for i in w["idx"] if i not in w["done"] and i != w["cur"]]
                if ended is True:
                    w["p"].join(5)
                    live.remove(w)
                elif ended is None:
                    w["p"].join(5)
                    code = w["p"].exitcode
                    live.remove(w)
                    self.dead(w, code)
                    if rest:
                        queue.append((w["g"], rest))
                elif time.time() - w["t"] > w["g"].timeout or time.time() > self.deadline + 40:
                    try:
                        os.killpg(w["p"].pid, signal.SIGKILL)
                    except OSError:
                        w["p"].kill()
                    w["p"].join(5)
                    live.remove(w)
                    if time.time() > self.deadline + 40:
                        self.events["cases_cut_by_deadline"] += 1
                    else:
                        self.timeouts.append((w["g"].name, w["cur"]))
                        if rest:
                            queue.append((w["g"], rest))

    def dead(self, w, code):
        if code is not None and code < 0 and -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            self.evals += 1
            self.viol.setdefault(f"crash:{signal.Signals(-code).name}", []).append(
                (w["g"].name, w["cur"], f"the interpreter was killed by {signal.Signals(-code).name}", {}))
        else:
            self.errors.append((w["g"].name, w["cur"], f"worker ended with exit code {code}"))
