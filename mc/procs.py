"""Real forked processes whose file, lock and matrix operations are scheduled one at a time by the explorer.

Inside a worker the operations below are hooked at library level (PyTables, fcntl, os), not in hpelm, so that any way
of writing the code is observed. Before each one the worker reports a label and waits for a grant.
"""
import builtins
import fcntl
import os
import select
import signal
import socket
import struct
import time
import traceback

import fasteners
import numpy as np
import tables

STEP_TIMEOUT = 30


class InjectedFault(IOError):
    """A read error injected by the explorer."""


class _Hooks(object):
    """Installed in the worker process only; `point(kind, name)` is called before each visible operation."""

    def __init__(self, point):
        self.point = point
        self.inside = 0

    def wrap(self, owner, attr, kind, name=lambda *a, **k: ""):
        real = getattr(owner, attr)

        def hooked(*a, **k):
            if not self.inside:
                self.inside += 1
                try:
                    self.point(kind, name(*a, **k))
                finally:
                    self.inside -= 1
            return real(*a, **k)
        hooked.__wrapped__ = real
        setattr(owner, attr, hooked)

    def install(self, extra=()):
        base = lambda p, *a, **k: os.path.basename(str(p))
        fname = lambda self_, *a, **k: os.path.basename(str(getattr(self_, "filename", "")))
        node = lambda self_, *a, **k: os.path.basename(str(self_._v_file.filename))
        F = tables.File
        real_init = F.__init__

        def init(f, filename, mode="r", *a, **k):
            if not self.inside:
                self.point("open-" + mode, os.path.basename(str(filename)))
            self.inside += 1            # PyTables' own existence checks are part of this operation
            try:
                return real_init(f, filename, mode, *a, **k)
            finally:
                self.inside -= 1
        F.__init__ = init
        self.wrap(F, "flush", "flush", fname)
        real_close = F.close

        def close(f):
            if not self.inside and f.isopen:
                self.point("close", os.path.basename(str(f.filename)))
            return real_close(f)
        F.close = close
        A = tables.Array
        self.wrap(A, "__getitem__", "get", node)
        self.wrap(A, "__setitem__", "set", node)
        self.wrap(A, "read", "get", node)
        self.wrap(os.path, "isfile", "isfile", base)
        self.wrap(os.path, "exists", "isfile", base)
        for f in ("remove", "unlink", "rename", "replace"):
            self.wrap(os, f, f, base)
        for attr in ("lockf", "flock"):
            self._lock(attr)
        # a lock acquired with a time-out may always time out: another process can hold it longer
        L = fasteners.InterProcessLock
        real_acquire, real_linit = L.acquire, L.__init__

        def acquire(self_, blocking=True, delay=0.01, max_delay=0.1, timeout=None):
            self_.sleep_func = lambda s: None       # waiting happens at the hooked lock call
            return real_acquire(self_, blocking and timeout is None, delay, max_delay, None)
        L.acquire = acquire
        real_sleep = time.sleep

        def sleep(s):
            self.point("sleep", "")
        time.sleep = sleep
        for owner, attr, kind in extra:
            self.wrap(owner, attr, kind)

    def _lock(self, attr):
        real = getattr(fcntl, attr)

        def hooked(fd, op, *a):
            name = os.path.basename(str(getattr(fd, "name", fd)))
            if op & fcntl.LOCK_UN:
                self.point("unlock", name)
                return real(fd, op, *a)
            self.point("lock", name)
            while True:
                try:
                    return real(fd, op | fcntl.LOCK_NB, *a)
                except (IOError, OSError):
                    self.point("blocked", name)
                    if op & fcntl.LOCK_NB:
                        raise
        setattr(fcntl, attr, hooked)


class Worker(object):
    """A forked process that runs fn() step by step."""

    def __init__(self, fn, extra_hooks=(), quiet=True, private=()):
        """`private`: names of files nobody writes; operations on them are not scheduling points."""
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            a.close()
            rc = 0
            try:
                if quiet:
                    null = os.open(os.devnull, os.O_RDWR)
                    os.dup2(null, 1)
                def point(kind, name):
                    if isinstance(name, bytes):
                        name = name.decode()
                    if name in private:
                        return
                    self._send(b, "P", "%s %s" % (kind, name))
                    g = b.recv(1)
                    if g == b"x":
                        raise InjectedFault("injected at %s %s" % (kind, name))
                    if g == b"i":
                        raise KeyboardInterrupt()
                    if g == b"m":
                        raise MemoryError("injected at %s %s" % (kind, name))
                    if g != b"g":
                        os._exit(98)
                _Hooks(point).install(extra_hooks)
                while True:
                    point("start", "")
                    fn()
                    self._send(b, "D", "done")
                    d = b.recv(4096)
                    if not d or d == b"quit":
                        break
                    os.chdir(d.decode())    # run again in another directory
            except BaseException as e:
                rc = 1
                tb = traceback.format_exc().strip().splitlines()
                self._send(b, "E", "%s: %s | %s" % (type(e).__name__, e, " <- ".join(x.strip() for x in tb[-7:-1][::-1])))
            finally:
                os._exit(rc)
        b.close()
        self.sock = a
        self.status = "run"      # run / blocked / done / error / dead
        self.label = None
        self.log = []
        self.error = None
        self.wait()

    @staticmethod
    def _send(s, kind, text):
        t = text.encode()[:1500]
        s.sendall(kind.encode() + struct.pack("<H", len(t)) + t)

    def _read(self, n):
        buf = b""
        while len(buf) < n:
            r, _, _ = select.select([self.sock], [], [], STEP_TIMEOUT)
            if not r:
                raise TimeoutError()
            d = self.sock.recv(n - len(buf))
            if not d:
                raise EOFError()
            buf += d
        return buf

    def wait(self):
        """Waits for the next report of the worker."""
        try:
            h = self._read(3)
            t = self._read(struct.unpack("<H", h[1:])[0]).decode()
        except TimeoutError:
            self.status, self.error = "error", "no progress within %d s after %s" % (STEP_TIMEOUT, self.label)
            self.kill()
            return
        except EOFError:
            self.status, self.error = "dead", "process died after %s" % self.label
            self.reap()
            return
        k = h[:1].decode()
        if k == "P":
            self.label = t
            self.log.append(t)
            self.status = "blocked" if t.split()[0] in ("blocked", "sleep") else "run"
        elif k == "D":
            self.status = "done"
        else:
            self.status, self.error = "error", t
            self.reap()

    def rerun(self, d):
        self.sock.sendall(d.encode())
        self.status, self.log = "run", []
        self.wait()

    def end(self):
        if self.status == "done":
            self.sock.sendall(b"quit")
            self.reap()
        elif self.alive:
            self.kill()
        self.status = "ended"

    def step(self, how=b"g"):
        self.sock.sendall(how)
        self.wait()

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        self.reap()

    def reap(self):
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        self.sock.close()

    @property
    def alive(self):
        return self.status in ("run", "blocked")


class Execution(object):
    """Result of one scheduled run."""
    __slots__ = ("choices", "enabled", "preempt", "error", "labels", "pcs")


def execute(fns, choices, max_steps=2000, pool=None, private=()):
    """`pool`: list of workers that finished a previous run of the same functions, used again and updated.
    Runs the functions in worker processes following `choices`; afterwards the current worker keeps running
    until it ends or blocks, then the lowest runnable one takes over."""
    if pool:
        ws = pool[:]
        for w in ws:
            w.rerun(os.getcwd())
    else:
        ws = [Worker(f, private=private) for f in fns]
    ex = Execution()
    ex.choices, ex.enabled, ex.preempt, ex.labels, ex.pcs, ex.error = [], [], [], [], [], None
    cur = None
    npre = 0
    released = True
    try:
        while any(w.alive for w in ws):
            runnable = [i for i, w in enumerate(ws) if w.status == "run"]
            if not runnable:
                # everybody waits: let each retry once; nothing moves -> deadlock
                for i, w in enumerate(ws):
                    if w.status == "blocked":
                        w.step()
                runnable = [i for i, w in enumerate(ws) if w.status == "run"]
                stuck = [w for w in ws if w.status == "blocked"]
                if not runnable and stuck:
                    # an unsuccessful retry reports "lock" first, then "blocked" again
                    ex.error = "deadlock: %s" % "; ".join(w.label for w in stuck)
                    break
                continue
            k = len(ex.choices)
            if k < len(choices) and choices[k] in runnable:
                c = choices[k]
            elif cur in runnable:
                c = cur
            else:
                c = runnable[0]
            if cur in runnable and c != cur:
                npre += 1
            ex.choices.append(c)
            ex.enabled.append(runnable)
            ex.preempt.append(npre)
            ex.labels.append(ws[c].label)
            ex.pcs.append(tuple(len(w.log) for w in ws))
            was = ws[c].label
            ws[c].step()
            cur = c
            if was.startswith("unlock") or not ws[c].alive or was.startswith("close"):
                for i, w in enumerate(ws):      # waiters try again
                    if w.status == "blocked":
                        _retry(w)
            if len(ex.choices) > max_steps:
                ex.error = "no end after %d steps" % max_steps
                break
        for i, w in enumerate(ws):
            if w.status in ("error", "dead") and ex.error is None:
                ex.error = "worker %d failed: %s" % (i, w.error)
    finally:
        if pool is not None and ex.error is None and all(w.status == "done" for w in ws):
            pool[:] = ws
        else:
            for w in ws:
                w.end()
            if pool is not None:
                pool[:] = []
    return ex


def _retry(w):
    """A blocked worker is simply runnable again: its next step is another attempt."""
    w.status = "run"


def explore(run, first, bound, on_exec, root=(), part=(0, 1)):
    """Depth-first enumeration of all schedules with at most `bound` preemptions that leave the default schedule for
    the first time at step `first` (None: only the default one itself). part=(r, n): every n-th of the branches that
    deviate twice, and with r=0 also those that deviate once."""
    base = run(list(root))
    if first is None:
        on_exec(base)
        return 1
    n = 0
    stack = []

    def branch(ex, start):
        for k in range(start, len(ex.choices)):
            prev = ex.choices[k - 1] if k else None
            before = ex.preempt[k - 1] if k else 0
            for alt in ex.enabled[k]:
                if alt == ex.choices[k]:
                    continue
                cost = before + (1 if prev in ex.enabled[k] and alt != prev else 0)
                if cost <= bound:
                    stack.append(ex.choices[:k] + [alt])

    if first >= len(base.choices):
        return 0
    k = first
    prev = base.choices[k - 1] if k else None
    before = base.preempt[k - 1] if k else 0
    for alt in base.enabled[k]:
        if alt != base.choices[k] and before + (1 if prev in base.enabled[k] and alt != prev else 0) <= bound:
            stack.append(base.choices[:k] + [alt])
    seen = 0
    for pre in stack[:]:
        ex = run(pre)
        if part[0] == 0:
            n += 1
            if on_exec(ex) is False:
                return n
        stack[:] = []
        branch(ex, len(pre))
        mine = [p for i, p in enumerate(stack) if (seen + i) % part[1] == part[0]]
        seen += len(stack)
        stack[:] = mine
        while stack:
            pre = stack.pop()
            ex = run(pre)
            n += 1
            if on_exec(ex) is False:
                return n
            branch(ex, len(pre))
    return n
