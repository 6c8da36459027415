"""Bounded exhaustive exploration of the real hpelm code: case runner, recorder, evidence.

A check module (checks/cNN.py) provides
    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)      -> iterable of JSON-able case descriptors: the enumerated space, complete within its bounds
    run(case, ctx)   -> executes one case (an operation history, schedule set, input family...) on the real code,
                        comparing every step with a reference model through ctx
Cases are independent and deterministic; they are spread over forked worker processes.
"""
import fcntl
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("MC_PROCS", "0")) or max(1, min(8, os.cpu_count() or 1))


def h64(obj):
    """Stable 64-bit hash of a (nested, picklable/printable) state."""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class CaseFailed(Exception):
    """The case cannot continue after a violation."""


class Ctx(object):
    """Recorder of one case: counts explored transitions and states, collects violations."""

    def __init__(self):
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.violations = []
        self.extra = {}

    def step(self, n=1):
        """`n` operations were executed on the implementation and compared with the reference model."""
        self.transitions += n

    def state(self, *key):
        """A reference state was reached, given by any printable key."""
        self.states.add(h64(key))

    def trace(self, n=1):
        """`n` complete executions (histories, schedules) were run on the implementation."""
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, msg, sub=None):
        self.violations.append({"msg": str(msg)[:2000], "sub": sub})

    def ok(self, cond, msg, sub=None):
        if not cond:
            self.fail(msg, sub)
        return bool(cond)

    def close(self, got, want, what, tol=1e-9, sub=None):
        """Numeric agreement up to rounding; shapes must agree, everything must be finite."""
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail("%s: shape %s instead of %s" % (what, got.shape, want.shape), sub)
            return False
        if got.dtype == object:
            self.fail("%s: object array" % what, sub)
            return False
        if got.size == 0:
            return True
        if not np.all(np.isfinite(got)):
            self.fail("%s: not finite: %s" % (what, short(got)), sub)
            return False
        d = np.abs(got.astype(float) - want.astype(float)).max()
        if not d <= tol * (1 + np.abs(want).max()):
            self.fail("%s: differs by %.3g: got %s, expected %s" % (what, d, short(got), short(want)), sub)
            return False
        return True

    def raises(self, fn, what, sub=None, kinds=(Exception,)):
        """The call must raise an ordinary exception."""
        try:
            r = fn()
        except kinds as e:
            return e
        self.fail("%s: accepted (returned %s) instead of raising an error" % (what, short(r)), sub)
        return None


def short(a):
    try:
        s = np.array2string(np.asarray(a), precision=6, threshold=12, max_line_width=200)
    except Exception:
        s = repr(a)
    return " ".join(s.split())[:200]


def run_one(mod, case):
    """Runs one case in a private scratch directory; unexpected exceptions are violations too."""
    ctx = Ctx()
    d = tempfile.mkdtemp(prefix="case.")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        mod.run(case, ctx)
    except CaseFailed:
        pass
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        ctx.fail("unexpected %s: %s | %s" % (type(e).__name__, str(e)[:300],
                                             " <- ".join(l.strip() for l in tb[-9:-1][::-1])[:900]))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return ctx


class Queue(object):
    """Hands out the items of a list to several forked processes, one by one; survives killed processes."""

    def __init__(self, items):
        self.items = items
        self.f = tempfile.TemporaryFile()
        self.f.write(b"\0" * 8)
        self.f.flush()

    def __iter__(self):
        fd = self.f.fileno()
        while True:
            fcntl.lockf(fd, fcntl.LOCK_EX)
            try:
                i = int.from_bytes(os.pread(fd, 8, 0), "big")
                os.pwrite(fd, (i + 1).to_bytes(8, "big"), 0)
            finally:
                fcntl.lockf(fd, fcntl.LOCK_UN)
            if i >= len(self.items):
                return
            yield self.items[i]


def _worker(mod, cases, todo, wfd, limit):
    """Body of a forked worker: runs cases, reports on a pipe."""
    os.setsid()
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(null, 2)
    out = os.fdopen(wfd, "wb")

    def send(kind, data):
        b = pickle.dumps((kind, data))
        out.write(len(b).to_bytes(4, "big") + b)
        out.flush()

    total = Ctx()
    nbad = 0
    for i in todo:
        send("start", i)
        last = time.time()
        ctx = run_one(mod, cases[i])
        if os.environ.get("MC_TIMES"):
            with open(os.environ["MC_TIMES"], "a") as f:
                f.write("%8.2f %s\n" % (time.time() - last, json.dumps(cases[i])[:200]))
        total.transitions += ctx.transitions
        total.traces += ctx.traces
        total.states |= ctx.states
        for k, v in ctx.extra.items():
            total.extra[k] = total.extra.get(k, 0) + v
        if ctx.violations:
            send("bad", (i, ctx.violations[:5]))
            nbad += 1
        send("done", i)
        if nbad >= limit:
            break
    send("end", (total.transitions, total.traces, total.states, total.extra, nbad >= limit))
    out.close()
    os._exit(0)


class Pool(object):
    """Forks workers over the cases; kills and reports a worker that hangs or dies."""

    def __init__(self, mod, cases, timeout, limit=3, nproc=None):
        self.mod, self.cases, self.limit = mod, cases, limit
        self.timeout = timeout if callable(timeout) else (lambda case: timeout)
        self.nproc = nproc or NPROC
        self.bad = []            # (case index, violations)
        self.transitions = self.traces = self.done = 0
        self.states = set()
        self.extra = {}
        self.capped = False

    def spawn(self, todo):      # todo is shared by all the workers
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                _worker(self.mod, self.cases, todo, w, self.limit)
            finally:
                os._exit(99)
        os.close(w)
        return {"pid": pid, "fd": r, "buf": b"", "cur": None, "t": time.time(), "ended": False}

    def run(self, order):
        n = min(self.nproc, max(1, len(order)))
        self.todo = Queue(order)
        ws = [self.spawn(self.todo) for i in range(n)]
        while ws:
            if len(self.bad) >= 2 * self.limit:      # enough: stop the others
                self.capped = True
                for w in ws:
                    self._kill(w)
                    os.waitpid(w["pid"], 0)
                    os.close(w["fd"])
                break
            ready, _, _ = select.select([w["fd"] for w in ws], [], [], 1.0)
            now = time.time()
            for w in list(ws):
                if w["fd"] in ready:
                    data = os.read(w["fd"], 1 << 20)
                    if data:
                        w["buf"] += data
                        self._parse(w, now)
                    else:                       # pipe closed: worker ended or died
                        self._reap(w, ws)
                elif w["cur"] is not None and now - w["t"] > self.timeout(self.cases[w["cur"]]):
                    self._kill(w)
                    self.bad.append((w["cur"], [{"msg": "no result within %d s: the operation hangs" % (now - w["t"]),
                                                 "sub": None}]))
                    self._restart(w, ws)

    def _kill(self, w):
        for f in (os.killpg, os.kill):
            try:
                f(w["pid"], signal.SIGKILL)
            except OSError:
                pass

    def _parse(self, w, now):
        while len(w["buf"]) >= 4:
            n = int.from_bytes(w["buf"][:4], "big")
            if len(w["buf"]) < 4 + n:
                return
            kind, data = pickle.loads(w["buf"][4:4 + n])
            w["buf"] = w["buf"][4 + n:]
            w["t"] = now
            if kind == "start":
                w["cur"] = data
            elif kind == "done":
                self.done += 1
            elif kind == "bad":
                self.bad.append(data)
            elif kind == "end":
                self.transitions += data[0]
                self.traces += data[1]
                self.states |= data[2]
                for k, v in data[3].items():
                    self.extra[k] = self.extra.get(k, 0) + v
                self.capped |= data[4]
                w["ended"] = True

    def _reap(self, w, ws):
        _, status = os.waitpid(w["pid"], 0)
        if w["ended"]:
            os.close(w["fd"])
            ws.remove(w)
            return
        self.bad.append((w["cur"], [{"msg": "the process died (status %d) during this case" % status, "sub": None}]))
        self._restart(w, ws, reaped=True)

    def _restart(self, w, ws, reaped=False):
        if not reaped:
            try:
                os.waitpid(w["pid"], 0)
            except OSError:
                pass
        os.close(w["fd"])
        ws.remove(w)
        if w["cur"] is None:
            return
        ws.append(self.spawn(self.todo))


def known_findings():
    """Lines 'finding: property=<id> key=<key> <text>' of known_findings.txt; 'fixed:' lines suppress nothing."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property="):
                f = line.split(None, 3)
                res.append((f[1].split("=", 1)[1], f[2].split("=", 1)[1], f[3].strip()))
    return res


def confirm(mod, cases, timeout, bad):
    """The same case must fail again when run alone."""
    confirmed, unrep = [], []
    t0 = time.time()
    for i, viol in sorted(bad, key=lambda b: (b[0] is None, b[0] if b[0] is not None else -1)):
        if i is None:
            confirmed.append((i, viol))
            break
        again = None
        for _ in range(3):
            p = Pool(mod, cases, timeout, nproc=1)
            p.run([i])
            if p.bad:
                again = p.bad[0][1]
                break
        if again:
            confirmed.append((i, again))
            if len(confirmed) >= 3 or time.time() - t0 > 60:
                break
        else:
            unrep.append((i, viol))
    return confirmed, unrep


def main_check(mod, tier, seed):
    t0 = time.time()
    cases = list(mod.cases(tier))
    timeout = getattr(mod, "TIMEOUT", 60)
    pool = Pool(mod, cases, timeout, nproc=getattr(mod, "NPROC", None))
    pool.run(list(range(len(cases))))
    confirmed, unrep = confirm(mod, cases, timeout, pool.bad)
    if pool.capped and not confirmed:       # nothing of it reproduces: look at all the cases
        pool = Pool(mod, cases, timeout, limit=10 ** 9, nproc=getattr(mod, "NPROC", None))
        pool.run(list(range(len(cases))))
        confirmed, unrep = confirm(mod, cases, timeout, pool.bad)
    findings = [(k, txt) for pid, k, txt in known_findings() if pid == mod.ID]
    new, seen_known = [], set()
    for i, viol in confirmed:
        for v in viol:
            hit = [(k, txt) for k, txt in findings if k in v["msg"] or (v["sub"] and k in json.dumps(v["sub"]))]
            if hit:
                seen_known.update(hit)
            else:
                new.append((i, v))
    for k, txt in findings:
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, txt))
    rc = 0
    if new:
        rc = 1
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, v in new[:3]:
            case = cases[i] if i is not None else None
            path = os.path.join(rdir, "%s-%016x.json" % (mod.ID, h64((case, v["sub"]))))
            with open(path, "w") as f:
                json.dump({"property": mod.ID, "tier": tier, "case": case, "sub": v["sub"], "message": v["msg"]}, f,
                          indent=1)
            print("VIOLATION property=%s replay=%s" % (mod.ID, path))
            print("   case %s" % json.dumps(case)[:600])
            print("   %s" % v["msg"])
    cov = {
        "states": len(pool.states),
        "transitions": pool.transitions,
        "traces_validated_against_impl": pool.traces,
        "evaluations": pool.done,
        "exhaustive": not pool.capped,
        "rule": mod.RULE,
        "samples": [cases[int(j)] for j in np.linspace(0, len(cases) - 1, 5)] if cases else [],
    }
    if mod.LEVEL in ("exploration", "fault_enumeration"):
        cov["distinct_nontrivial"] = len(pool.states)
    cov.update({k: v for k, v in pool.extra.items()})
    if unrep:
        cov["unreproduced"] = [{"case": cases[i], "violations": v} for i, v in unrep[:5]]
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d cases, %d states, %d transitions, %d traces%s, %.1f s, %d violations%s" % (
        mod.ID, tier, pool.done, len(pool.states), pool.transitions, pool.traces,
        "".join(", %s %s" % kv for kv in sorted(pool.extra.items())), time.time() - t0, len(new),
        " (%d not reproduced)" % len(unrep) if unrep else ""))
    return rc
