"""C19: every access to a data file is monitored: rows per access, rows touched, times each row is read."""
import json
import multiprocessing
import os

from mc.lib import *

ID = "C19"
LEVEL = "model_checking"
RULE = ("case 'range' = (operation, N): all starts, counts and batch sizes up to N+1 of small files; case 'large' = files of some batches of "
        "up to 1000 rows; case 'async' = the asynchronous operations with real helper processes; reads and writes of the data files are "
        "recorded at the PyTables interface in the calling and all helper processes and compared with batch size and range")
ASSUMPTIONS = ["a needed row is read at most 4 times per operation", "access goes through PyTables arrays"]
TIMEOUT = 200

D, C = 2, 2
SYNC = ("train", "train c", "train wc", "train w", "train ml", "add_data", "add wc", "add files", "predict", "predict arr", "predict h5", "project",
        "project arr", "project h5", "error", "error c", "error wc", "error ml", "confusion", "confusion ml", "valcorr", "valcorr c", "valcorr wc")
ASYNC = ("train", "train wc", "add files", "predict")
NORANGE = ("confusion", "confusion ml", "valcorr", "valcorr c", "valcorr wc")


def cases(tier):
    deep = tier == "thorough"
    for op in SYNC:
        for N in range(1, 9 if deep else 6):
            for how in ("carray", "earray") if N in (4, 5) or deep else ("carray",):
                yield {"k": "range", "op": op, "N": N, "how": how}
        for N, batch in ((2500, None), (1001, 1000), (700, 64), (333, 1), (5000, 999)) + (((30000, None), (12345, 100)) if deep else ()):
            yield {"k": "large", "op": op, "N": N, "batch": batch}
        yield {"k": "set", "op": op}
    for op in ASYNC:
        for N in (1, 4, 5) + ((7,) if deep else ()):
            yield {"k": "async", "op": op, "N": N}


LOG = os.path.abspath


class Monitor(object):
    """Hooks PyTables arrays; records go to a file, so that forked helper processes are seen too."""

    def __init__(self):
        self.path = os.path.abspath("access.log")
        self.real = {}

    def note(self, kind, node, rows, whole=False):
        rows = [int(r) for r in rows]
        line = json.dumps([kind, os.path.basename(node._v_file.filename), rows]) + "\n"
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, line.encode())
        os.close(fd)

    @staticmethod
    def rows(node, key):
        n = int(node.nrows)
        if isinstance(key, tuple):
            key = key[0] if key else slice(None)
        if key is Ellipsis or key is None:
            return range(n)
        if isinstance(key, slice):
            return range(*key.indices(n))
        if np.ndim(key) == 0:
            return [int(key) % n if n else 0]
        a = np.asarray(key)
        return np.nonzero(a)[0] if a.dtype.kind == "b" else [int(i) % n for i in a.ravel()]

    def __enter__(self):
        A, E = tables.Array, tables.EArray
        self.real = {(A, n): getattr(A, n) for n in ("__getitem__", "__setitem__", "read", "__iter__", "iterrows", "__array__") if hasattr(A, n)}
        self.real[(E, "append")] = E.append
        mon, busy = self, [0]

        def wrap(owner, name, kind, rows):
            f = self.real[(owner, name)]

            def g(node, *a, **k):
                if busy[0]:
                    return f(node, *a, **k)
                mon.note(kind, node, rows(node, *a, **k))
                busy[0] += 1
                try:
                    return f(node, *a, **k)
                finally:
                    busy[0] -= 1
            setattr(owner, name, g)
        wrap(A, "__getitem__", "r", lambda n, key: self.rows(n, key))
        wrap(A, "__setitem__", "w", lambda n, key, v: self.rows(n, key))
        wrap(A, "read", "r", lambda n, start=None, stop=None, step=None, out=None:
             range(*slice(start, start + 1 if start is not None and stop is None and step is None else stop, step).indices(int(n.nrows))))
        wrap(A, "__iter__", "r", lambda n: range(int(n.nrows)))     # e.g. np.array(node)
        if hasattr(A, "__array__"):
            wrap(A, "__array__", "r", lambda n, *a, **k: range(int(n.nrows)))
        wrap(A, "iterrows", "r", lambda n, start=None, stop=None, step=None: range(*slice(start, stop, step).indices(int(n.nrows))))
        wrap(E, "append", "w", lambda n, rows_: range(int(n.nrows), int(n.nrows) + len(rows_)))
        return self

    def __exit__(self, *a):
        for (o, n), f in self.real.items():
            setattr(o, n, f)

    def take(self):
        try:
            with open(self.path) as f:
                r = [json.loads(l) for l in f]
        except IOError:
            return []
        os.remove(self.path)
        return r


def files(N, how, mode="r"):
    for f in ("X.h5", "T.h5", "Y.h5"):
        if os.path.exists(f):
            os.remove(f)
    X, T = data(N, D, "c19"), targets(N, C, "c", "c19")
    h5put("X.h5", X, earray=how == "earray")
    h5put("T.h5", T, earray=how == "earray")
    h5put("Y.h5", T * 0.9 + 0.01, earray=how == "earray")


def prepare(op, batch, trained):
    m = mk("hp", D, C, **({} if batch is None else {"batch": batch}))
    add(m, spec_mix(D, "tanh:2,lin:1", "c19"))
    m.loads(trained["wc" if "wc" in op else "c" if op.endswith(" c") or op == "confusion" else "ml" if "ml" in op else "r"])
    return m


def models(N):
    r = {}
    for mode in ("r", "c", "wc", "ml"):
        m = add(mk("elm", D, C), spec_mix(D, "tanh:2,lin:1", "c19"))
        m.train(data(9, D, "c19"), targets(9, C, "c", "c19"), mode)
        r[mode] = m.dumps()
    return r


def call(m, op, rng, n, nosync=False):
    """Runs one operation; returns {file: (kinds of access, rows allowed)} of the data files."""
    s = {"X.h5": "r"}
    st = {"T.h5": "r", "X.h5": "r"}
    a = "_async" if nosync else ""
    if op.startswith("train"):
        mode = op.split()[1:]
        kw = dict(rng)
        if mode == ["w"]:
            mode, kw["w"] = ["wc"], [1, 2]
        getattr(m, "train" + a)("X.h5", "T.h5", *mode, **kw)
        return st
    if op.startswith("add"):
        kw = dict(rng)
        if op == "add files":
            kw.update(fHH="HH.h5", fHT="HT.h5")
        if op == "add wc":
            m.wc = None
        getattr(m, "add_data" + a)("X.h5", "T.h5", **kw)
        return st
    if op.startswith("predict"):
        if nosync:
            m.predict_async("X.h5", "out.h5", **rng)
            return {"X.h5": "r", "out.h5": "w"}
        out = None if op == "predict" else np.zeros((n, C)) if op == "predict arr" else "out.h5"
        m.predict("X.h5", out, **rng)
        return {"X.h5": "r", "out.h5": "w"} if isinstance(out, str) else s
    if op.startswith("project"):
        out = None if op == "project" else np.zeros((n, 3)) if op == "project arr" else "out.h5"
        m.project("X.h5", out, **rng)
        return {"X.h5": "r", "out.h5": "w"} if isinstance(out, str) else s
    if op.startswith("error"):
        m.error("T.h5", "Y.h5", **rng)
        return {"T.h5": "r", "Y.h5": "r"}
    if op.startswith("confusion"):
        m.confusion("T.h5", "Y.h5")
        return {"T.h5": "r", "Y.h5": "r"}
    m.validation_corr("HHv.h5", "HTv.h5", "X.h5", "T.h5", 3)
    return st


def judge(ctx, log, want, start, stop, batch, what, out=None):
    """`want`: file -> 'r' or 'w'; rows start..stop-1 of inputs, 0..stop-start-1 of the output."""
    times = {f: {} for f in want}
    for kind, f, rows in log:
        if f.startswith("H"):
            continue
        if not ctx.ok(f in want, "%s: %s of the file %s" % (what, kind, f)):
            return False
        if not ctx.ok(len(rows) <= batch, "%s: %d rows of %s in one access (%s), batch is %d" % (what, len(rows), f, kind, batch)):
            return False
        lo, hi = (0, stop - start) if f == "out.h5" else (start, stop)
        if rows and not ctx.ok(min(rows) >= lo and max(rows) < hi, "%s: rows %d..%d of %s (%s) are outside of %d..%d" % (what, min(rows), max(rows), f, kind, lo, hi - 1)):
            return False
        if rows and not ctx.ok(kind == want[f], "%s: %s is %s" % (what, f, "written" if kind == "w" else "read")):
            return False
        for r in rows:
            times[f][r] = times[f].get(r, 0) + 1
    for f in want:
        lo, hi = (0, stop - start) if f == "out.h5" else (start, stop)
        ctx.ok(set(times[f]) == set(range(lo, hi)), "%s: rows of %s never accessed: %s" % (what, f, sorted(set(range(lo, hi)) - set(times[f]))[:9]))
        if times[f]:
            ctx.ok(max(times[f].values()) <= 4, "%s: a row of %s accessed %d times" % (what, f, max(times[f].values())))
    return not ctx.violations


def run(case, ctx):
    op = case["op"]
    trained = models(9)
    h5put("HHv.h5", np.eye(3) * 2)
    h5put("HTv.h5", np.ones((3, C)))
    if case["k"] == "set":
        return later(case, ctx, trained)
    N = case["N"]
    files(N, case.get("how", "carray"))
    if case["k"] == "large":
        ranges = [(None, None)] + ([] if op in NORANGE else [(N // 3, N // 2), (N - 1, 5), (0, N)])
        batches = [case["batch"]]
    elif op in NORANGE:
        ranges, batches = [(None, None)], range(1, N + 3)
    else:
        ranges = [(None, None)] + [(s, None) for s in range(N)] + [(None, c) for c in range(1, N + 2)] + [(s, c) for s in range(N) for c in range(1, N + 2)]
        batches = range(1, N + 3)
        if case["k"] == "async":
            ranges = [(None, None), (1, None), (0, 2), (2, 2), (N - 1, 1), (1, N)]
            ranges = [(s, c) for s, c in ranges if s is None or s < N]
            batches = sorted({1, 2, 3, N, N + 1})
    for batch in batches:
        for s, c in ranges:
            for f in ("out.h5", "HH.h5", "HT.h5"):
                if os.path.exists(f):
                    os.remove(f)
            m = prepare(op, batch, trained)
            rng = {}
            if s is not None:
                rng["istart"] = s
            if c is not None:
                rng["icount"] = c
            start = s or 0
            stop = N if c is None else min(N, start + c)
            what = "%s%s N=%d batch=%s start=%s count=%s" % (op, "_async" if case["k"] == "async" else "", N, batch, s, c)
            with Monitor() as mon:
                want = call(m, op, rng, stop - start, case["k"] == "async")
            log = mon.take()
            ctx.step(len(log))
            ctx.state(op, case["k"], N, batch, s, c)
            ctx.trace()
            if not judge(ctx, log, want, start, stop, 1000 if batch is None else batch, what):
                return
            if case["k"] == "async":
                ctx.ok(not multiprocessing.active_children(), what + ": a helper process is left")


def later(case, ctx, trained):
    """The batch size changed on the model or by train(); several operations in a row; the last batch size counts."""
    op = case["op"]
    files(11, "carray")
    for b1 in (None, 1, 4, 100):
        for how in ("attribute", "train"):
            for b2 in (1, 2, 3, 5, 11, 12):
                m = prepare(op, b1, trained)
                if how == "attribute":
                    m.batch = b2
                else:
                    x = m.dumps()
                    m.train(data(9, D, "c19"), targets(9, C, "c", "c19"), batch=b2)
                    m.loads(x)
                for i in range(2):
                    for f in ("out.h5", "HH.h5", "HT.h5"):
                        if os.path.exists(f):
                            os.remove(f)
                    what = "%s, batch %s set by %s to %d, call %d" % (op, b1, how, b2, i + 1)
                    with Monitor() as mon:
                        want = call(m, op, {}, 11)
                    log = mon.take()
                    ctx.step(len(log))
                    if not judge(ctx, log, want, 0, 11, b2, what):
                        return
                    if op.startswith("valcorr"):
                        m = prepare(op, b2, trained)
                ctx.state(op, b1, how, b2)
                ctx.trace()
    # batch given to train() itself
    if op.startswith("train"):
        for b in (1, 2, 7):
            m = prepare(op, 100, trained)
            with Monitor() as mon:
                want = call(m, op, {"batch": b}, 11)
            judge(ctx, mon.take(), want, 0, 11, b, "%s with batch=%d" % (op, b))
            ctx.trace()
