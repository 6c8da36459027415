"""multiprocessing under a controlled scheduler: processes are threads of which exactly one runs at a time.

A Queue keeps the semantics of multiprocessing.Queue: put() takes a slot of the bounded queue and appends the live object
to a buffer; a feeder (its own actor) later pickles the object and moves it to the pipe; get() takes from the pipe and
frees the slot; a process ends only when everything it has put has left its buffers (and, for large objects, the pipe).
"""
import copy
import hashlib
import multiprocessing
import pickle
import queue
import sys
import threading

import numpy as np


class Unsupported(Exception):
    pass


class Abort(BaseException):
    """Unwinds an actor thread at the end of an execution."""


def digest(o):
    if isinstance(o, bytes):
        return hashlib.blake2b(o, digest_size=8).hexdigest()
    return hashlib.blake2b(pickle.dumps(o), digest_size=8).hexdigest()


class Actor(object):
    def __init__(self, sim, name, fn):
        self.sim, self.name, self.fn = sim, name, fn
        self.go = threading.Semaphore(0)
        self.pending = None     # (description, enabled predicate)
        self.done = False
        self.timeouts = 0
        self.result = None
        self.error = None
        self.hist = hashlib.blake2b(name.encode(), digest_size=8)
        self.thread = threading.Thread(target=self._body, daemon=True)

    def _body(self):
        self.sim.local.actor = self
        self.go.acquire()
        try:
            if self.sim.aborting:
                raise Abort()
            self.result = self.fn()
        except Abort:
            pass
        except BaseException as e:
            import traceback
            tb = traceback.format_exc().strip().splitlines()
            self.error = "%s: %s | %s" % (type(e).__name__, e, " <- ".join(x.strip() for x in tb[-5:-1][::-1]))
            self.exc = e
        self.done = True
        self.pending = None
        self.sim.back.release()

    def observe(self, what):
        self.hist.update(what.encode() + b"|")

    def wait(self, desc, enabled, timeout=False):
        """Scheduling point of this actor; a timeout may elapse at any moment once, afterwards only when nothing else can happen."""
        self.pending = (desc, enabled, timeout)
        self.sim.back.release()
        self.go.acquire()
        if self.sim.aborting:
            raise Abort()
        if timeout and not enabled():
            self.timeouts += 1
        self.pending = None
        self.observe(desc)


class SimQueue(object):
    def __init__(self, sim, maxsize=0, *a, **k):
        self.sim, self.maxsize = sim, maxsize if maxsize and maxsize > 0 else 0
        self.id = len(sim.queues)
        self.buffer, self.pipe, self.slots = [], [], 0      # slots: items put and not yet gotten
        self.log = hashlib.blake2b(digest_size=8)
        sim.queues.append(self)

    def _actor(self):
        return self.sim.local.actor

    def put(self, obj, block=True, timeout=None):
        a = self._actor()
        free = lambda: not self.maxsize or self.slots < self.maxsize
        a.wait("put q%d" % self.id, free if block else lambda: True, timeout is not None)
        if not free():
            a.observe("full")
            raise queue.Full()
        self.slots += 1
        self.buffer.append((a, obj))

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        a = self._actor()
        ready = lambda: bool(self.pipe)
        a.wait("get q%d" % self.id, ready if block else lambda: True, timeout is not None)
        if not ready():
            a.observe("empty")
            raise queue.Empty()
        _, data = self.pipe.pop(0)
        self.slots -= 1
        a.observe(digest(data))
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        a = self._actor()
        a.wait("empty q%d" % self.id, lambda: True)
        a.observe(str(not self.pipe))
        return not self.pipe

    def full(self):
        a = self._actor()
        a.wait("full q%d" % self.id, lambda: True)
        r = bool(self.maxsize) and self.slots >= self.maxsize
        a.observe(str(r))
        return r

    def qsize(self):
        a = self._actor()
        a.wait("qsize q%d" % self.id, lambda: True)
        a.observe(str(self.slots))
        return self.slots

    def close(self):
        pass

    def cancel_join_thread(self):
        self.sim.detached.add(self.id)

    def join_thread(self):
        a = self._actor()
        a.wait("join_thread q%d" % self.id, lambda: not self.buffer)

    # feeder
    def can_feed(self):
        return bool(self.buffer) and (not self.sim.large or not self.pipe)

    def feed(self):
        a, obj = self.buffer.pop(0)
        self.pipe.append((a, pickle.dumps(obj, -1)))        # pickled now, whatever happened to it since put()

    def __deepcopy__(self, memo):
        return self


class SimProcess(object):
    def __init__(self, sim, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.sim, self.target, self.args, self.kwargs = sim, target, args, kwargs or {}
        self.daemon, self.actor = daemon, None
        self.name = name or "p%d" % len(sim.procs)
        self.killed = False
        sim.procs.append(self)

    def start(self):
        target, args, kwargs = self.target, copy.deepcopy(self.args), copy.deepcopy(self.kwargs)    # fork: own memory
        if target is None:
            target, args, kwargs = self.run, (), {}
        self.actor = Actor(self.sim, "child%d" % self.sim.procs.index(self), lambda: target(*args, **kwargs))
        self.sim.actors.append(self.actor)
        self.actor.pending = ("begin", lambda: True, False)
        self.actor.thread.start()

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def ended(self):
        """The function returned and everything this process has put is flushed."""
        if self.killed:
            return True
        a = self.actor
        return a.done and not any(x is a for q in self.sim.queues if q.id not in self.sim.detached
                                  for x, _ in (q.buffer + (q.pipe if self.sim.large else [])))

    def join(self, timeout=None):
        if self.actor is None:
            raise AssertionError("can only join a started process")
        me = self.sim.local.actor
        me.wait("join %s" % self.name, self.ended, timeout is not None)
        me.observe(str(self.ended()))

    def is_alive(self):
        me = self.sim.local.actor
        me.wait("is_alive %s" % self.name, lambda: True)
        r = self.actor is not None and not self.ended()
        me.observe(str(r))
        return r

    def terminate(self):
        me = self.sim.local.actor
        me.wait("terminate %s" % self.name, lambda: True)
        self.killed = self.killed or not self.ended()

    kill = terminate

    def close(self):
        pass

    @property
    def exitcode(self):
        if self.actor is None or not self.ended():
            return None
        return 1 if self.actor.error else (-15 if self.killed else 0)

    @property
    def pid(self):
        return 10000 + self.sim.procs.index(self)


class Sim(object):
    """One controlled execution."""

    def __init__(self, large=False):
        self.local = threading.local()
        self.back = threading.Semaphore(0)
        self.queues, self.procs, self.actors = [], [], []
        self.detached = set()
        self.aborting = False
        self.large = large

    # the faked module
    def Queue(self, maxsize=0, **k):
        return SimQueue(self, maxsize)

    def JoinableQueue(self, maxsize=0, **k):
        raise Unsupported("JoinableQueue")

    def Process(self, *a, **k):
        return SimProcess(self, *a, **k)

    def enabled(self):
        """Names of enabled transitions, in a canonical order."""
        res, late = [], []
        for i, a in enumerate(self.actors):
            p = [x for x in self.procs if x.actor is a]
            if a.done or (p and p[0].killed):
                continue
            if a.pending[1]():
                res.append(("a", i))
            elif a.pending[2]:
                (res if a.timeouts < 1 else late).append(("a", i))
        for q in self.queues:
            if q.can_feed():
                res.append(("f", q.id))
        return res or late

    def do(self, tr):
        if tr[0] == "f":
            self.queues[tr[1]].feed()
        else:
            self.actors[tr[1]].go.release()
            self.back.acquire()

    def describe(self, tr):
        if tr[0] == "f":
            return "feeder of q%d" % tr[1]
        a = self.actors[tr[1]]
        return "%s %s" % (a.name, a.pending[0])

    def key(self):
        """State: what every actor has observed and is about to do, plus the contents of the queues."""
        h = hashlib.blake2b(digest_size=10)
        for a in self.actors:
            h.update(a.hist.digest() + (b"D" if a.done else a.pending[0].encode()) + b";")
        h.update("".join("K" if p.killed else "-" for p in self.procs).encode())
        for q in self.queues:
            h.update(("Q%d %d:" % (q.id, q.slots)).encode())
            for _, o in q.buffer:
                h.update(digest(o).encode())
            h.update(b"/")
            for _, d in q.pipe:
                h.update(digest(d).encode())
        return h.digest()

    def abort(self):
        self.aborting = True
        for a in self.actors:
            for _ in range(50):
                if a.done or not a.thread.is_alive():
                    break
                a.go.release()
                self.back.acquire()


class patched(object):
    """Replaces multiprocessing in the package under test by the simulated one."""
    NAMES = ("Queue", "JoinableQueue", "Process")
    OTHER = ("SimpleQueue", "Pool", "Pipe", "Event", "Semaphore", "BoundedSemaphore", "Condition", "Lock", "RLock", "Value",
             "Array", "Manager", "Barrier")

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        sim = self.sim
        self.undo = []

        def other(*a, **k):
            raise Unsupported("multiprocessing object")
        new = {n: getattr(sim, n) for n in self.NAMES}
        new.update({n: other for n in self.OTHER})
        real = {n: getattr(multiprocessing, n) for n in new}
        for n in new:
            self._set(multiprocessing, n, new[n])

        class Ctx(object):
            pass
        c = Ctx()
        for n in new:
            setattr(c, n, new[n])
        self._set(multiprocessing, "get_context", lambda method=None: c)
        for name, mod in list(sys.modules.items()):
            if name == "hpelm" or name.startswith("hpelm."):
                for k, v in list(vars(mod).items()):
                    for n in new:
                        try:
                            same = v is real[n] or (callable(v) and v == real[n])
                        except Exception:
                            same = False
                        if same:
                            self._set(mod, k, new[n])
        return self

    def _set(self, o, n, v):
        self.undo.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v in reversed(self.undo):
            setattr(o, n, v)


def execute(fn, choices, large, max_steps=3000, seen=None, failing=False):
    """Runs fn() (the main process) following `choices`, then the first enabled transition; returns
    (status, payload, trace) where trace = [(enabled, choice, state key)]."""
    sim = Sim(large)
    main = Actor(sim, "main", fn)
    sim.actors.append(main)
    main.pending = ("begin", lambda: True, False)
    trace = []
    with patched(sim):
        main.thread.start()
        try:
            while not main.done:
                en = sim.enabled()
                if not en:
                    blocked = ["%s: %s" % (a.name, a.error or ("ended" if a.done else a.pending[0])) for a in sim.actors]
                    return "deadlock", "; ".join(blocked), trace, sim
                k = len(trace)
                if k < len(choices):
                    c = choices[k]
                    if c not in en:
                        return "diverged", "transition %s not enabled at step %d: %s" % (c, k, en), trace, sim
                else:
                    c = en[0]
                key = sim.key()
                trace.append((en, c, key, sim.describe(c)))
                if seen is not None and k >= len(choices):
                    if key in seen:
                        return "pruned", None, trace, sim
                    seen.add(key)
                sim.do(c)
                if k > max_steps:
                    return "endless", "no end after %d steps" % k, trace, sim
            if main.error:
                if isinstance(getattr(main, "exc", None), Unsupported):
                    raise main.exc
                return "error", main.error, trace, sim
            for p in sim.procs:
                if p.actor is not None and p.actor.error and not failing:
                    return "error", "helper failed: " + p.actor.error, trace, sim
                if p.actor is not None and not p.ended():
                    return "leftover", "a helper process is still running at return (%s)" % (
                        "flushing" if p.actor.done else p.actor.pending[0]), trace, sim
            return "ok", main.result, trace, sim
        finally:
            sim.abort()


def explore(fn, check, large, limit=10 ** 9, failing=False):
    """Visits every reachable state (up to the deduplication key) and calls check(status, payload, trace) for every
    execution that reaches an end; returns the number of executions."""
    seen, n = set(), 0
    stack = [[]]
    while stack:
        pre = stack.pop()
        status, payload, trace, sim = execute(fn, pre, large, seen=seen, failing=failing)
        n += 1
        if status != "pruned":
            if check(status, payload, trace) is False:
                return n, seen
        # alternatives at every state first visited by this execution
        last = len(trace) - (1 if status == "pruned" else 0)
        for k in range(len(pre), last):
            for alt in trace[k][0]:
                if alt != trace[k][1]:
                    stack.append([t[1] for t in trace[:k]] + [alt])
        if n >= limit:
            return n, seen
    return n, seen
