"""C06: all interleavings of the asynchronous methods on simulated processes and queues; conformance with real processes."""
import gc
import itertools
import multiprocessing
import time

from mc.lib import *
from mc import sim

ID = "C06"
LEVEL = "model_checking"
RULE = ("case 'sim' = (method, rows, batch, range, mode, small/large objects): every reachable state of main process, readers, "
        "writer and queue feeders (the real hpelm code of each, on simulated multiprocessing), result compared with the "
        "synchronous method at the moment of return, no deadlock, helpers ended; case 'real' = every (rows, range, batch) in a "
        "grid with real processes, also with slowed readers, writers or main process; case "
        "'types' = every number type of the input file x of the target file")
ASSUMPTIONS = ["a process is determined by what it received from queues (states are merged on that)",
               "queue transport: unbounded pipe for small objects, one object for large ones"]


def TIMEOUT(case):
    return 60 if case["k"] != "sim" else (3000 if case.get("deep") else 240)


D, C = 2, 2
TYPES = ("int8", "uint8", "int16", "int32", "int64", "uint32", "bool", "float32", ">f8", ">i4", "float64")


def cases(tier):
    deep = tier == "thorough"
    # (N, batch, istart, icount)
    cfg = [(4, 2, 0, None), (4, 4, 0, None), (5, 2, 0, None), (5, 3, 1, 3), (3, 1, 0, None), (3, 5, 0, None), (6, 2, 2, 10)]
    if deep:
        cfg += [(4, 1, 0, None), (7, 2, 0, None), (8, 3, 2, 5), (2, 1, 1, 1), (5, 1, 1, 4), (9, 2, 0, None), (1, 1, 0, None)]
    quick = {"train_async": ((0, "wc", True), (4, "r", False), (6, "r", True)), "files": ((0, "r", True), (3, "wc", False)),
             "add_data_async": ((2, "r", False), (3, "wc", False)), "predict_async": tuple((j, "r", j % 2 == 0) for j in range(7))}
    for method in ("train_async", "add_data_async", "predict_async", "files"):
        for j, c in enumerate(cfg):
            for large in (False, True):
                for mode in (("r", "wc") if method != "predict_async" else ("r",)):
                    if deep or (j, mode, large) in quick[method]:
                        yield {"k": "sim", "m": method, "cfg": c, "large": large, "mode": mode, "deep": deep}
    for method in ("train_async", "add_data_async", "predict_async", "files"):
        for N in (1, 2, 4, 5) if not deep else (1, 2, 3, 4, 5, 6, 8):
            for b in range(1, N + 2):
                yield {"k": "real", "m": method, "N": N, "b": b}
        for slow in ("reader", "writer", "main"):
            yield {"k": "slow", "m": method, "slow": slow}
        for b in (1000, 700, 1001, 333):
            yield {"k": "long", "m": method, "b": b}
    yield {"k": "mix"}
    for x in TYPES:
        yield {"k": "types", "x": x}


class World(object):
    def __init__(self, N, mode, kind="hp", spec="tanh:2,lin:1", c=C):
        self.kind, self.mode, self.N, self.c = kind, mode, N, c
        self.G = spec_mix(D, spec)
        self.X, self.T = data(N, D, "c6"), targets(N, c, "r" if mode == "r" else "c", "c6")
        self.H = h_ref(self.X, self.G)
        self.w = np.array([0.7, 3.1, 1.0][:c])
        self.fx, self.ft = os.path.abspath(h5put("x.h5", self.X)), os.path.abspath(h5put("t.h5", self.T))
        m = add(mk(kind, D, c, norm=0.5), self.G)
        m.train(data(12, D, "c6t"), targets(12, c, "r", "c6t"))
        self.blob = m.dumps()
        self.B = np.array(m.nnet.get_B())

    def model(self, batch):
        m = "" if self.mode == "r" else self.mode
        return add(mk(self.kind, D, self.c, m, w=self.w if m == "wc" else None, norm=0.5, batch=batch), self.G)

    def trained(self, batch):
        m = mk(self.kind, D, self.c, batch=batch)
        m.loads(self.blob)
        return m

    def call(self, method, batch, i, n):
        """Runs the method; returns what it produced."""
        kw = {}
        if i:
            kw["istart"] = i
        if n is not None:
            kw["icount"] = n
        if method == "predict_async":
            m = self.trained(batch)
            m.predict_async(self.fx, "y.h5", **kw)
            return {"Y": h5get("y.h5")}
        m = self.model(batch)
        if method == "train_async":
            if self.mode == "wc":
                kw["w"] = self.w
            m.train_async(self.fx, self.ft, self.mode, **kw)
            return {"B": np.array(m.nnet.get_B())}
        if method == "files":
            m.add_data_async(self.fx, self.ft, fHH="HH.h5", fHT="HT.h5", **kw)
            return {"fHH": h5get("HH.h5"), "fHT": h5get("HT.h5")}
        m.add_data_async(self.fx, self.ft, **kw)
        HH, HT = m.nnet.get_corr()
        return {"HH": np.array(HH), "HT": np.array(HT)}

    def expect(self, method, i, n):
        e = self.N if n is None else min(self.N, i + n)
        H, T = self.H[i:e], self.T[i:e]
        if method == "predict_async":
            return {"Y": H.dot(self.B)}
        sw = self.w[T.argmax(1)] if self.mode == "wc" else None
        if method == "train_async":
            return {"B": ridge(H, T, 0.5, sw)}
        HH, HT = corr(H, T, 0.5, sw)
        return {"fHH": HH, "fHT": HT} if method == "files" else {"HH": HH, "HT": HT}

    def compare(self, ctx, got, want, what, sub=None):
        ctx.step()
        for k in want:
            if not ctx.close(got[k], want[k], what + ": " + k, 1e-8, sub):
                return False
        return True


def clean():
    for f in ("y.h5", "HH.h5", "HT.h5", "HH.h5.lock", "HT.h5.lock"):
        if os.path.exists(f):
            os.remove(f)


def run(case, ctx):
    {"sim": simulate, "real": real, "slow": slow, "long": long_, "mix": mix_, "types": types}[case["k"]](case, ctx)


def simulate(case, ctx):
    N, batch, i, n = case["cfg"]
    w = World(N, case["mode"])
    want = w.expect(case["m"], i, n)
    what = "%s N=%d batch=%d rows %s+%s" % (case["m"], N, batch, i, n)

    def fn():
        close_all()         # left open by an execution that was cut off
        clean()
        return w.call(case["m"], batch, i, n)

    def check(status, payload, trace):
        ctx.trace()
        path = {"schedule": [list(t[1]) for t in trace]}
        if status == "ok":
            ok = w.compare(ctx, payload, want, what + " (simulated)", path)
        else:
            ok = False
            ctx.fail("%s: %s: %s | %s" % (what, status, payload, ", ".join(t[3] for t in trace[-14:])), path)
        return ok

    gc.disable()
    try:
        execs, seen = sim.explore(fn, check, case["large"])
    except sim.Unsupported:
        ctx.count("not simulated")      # other primitives: the runs with real processes decide
        return
    finally:
        gc.enable()
        close_all()
    ctx.count("executions", execs)
    ctx.step(execs)
    for k in seen:
        ctx.states.add(int.from_bytes(k[:8], "big") ^ hash((case["m"], N, batch, i)))


def close_all():
    import tables
    tables.file._open_files.close_all()


def helpers():
    return multiprocessing.active_children()


def one_real(w, ctx, method, b, i, n, what):
    clean()
    before = set(p.pid for p in helpers())
    got = w.call(method, b, i, n)
    left = [p for p in helpers() if p.pid not in before]
    ctx.ok(not left, what + ": helper processes still running at return: %s" % left)
    w.compare(ctx, got, w.expect(method, i, n), what)
    ctx.trace()
    ctx.count("real runs")
    ctx.state(method, w.N, b, i, n)
    for p in left:
        p.terminate()


def real(case, ctx):
    N, b = case["N"], case["b"]
    w = World(N, "r", "hp:b" if (N + b) % 3 == 0 else "hp")
    for i in range(N):
        for n in list(range(1, N - i + 2)) + [None]:
            if N > 3 and (i + (n or 0) + b) % 3:
                continue
            one_real(w, ctx, case["m"], b, i, n, "%s N=%d batch=%d rows %d+%s" % (case["m"], N, b, i, n))


def slow(case, ctx):
    """Real processes, with one side much slower than the others."""
    import tables
    from hpelm.nnets.slfn import SLFN
    undo = []
    me = os.getpid()

    def slowed(o, name, who):
        real = getattr(o, name)

        def f(*a, **k):
            if (os.getpid() == me) == (who == "main"):
                time.sleep(0.03)
            return real(*a, **k)
        undo.append((o, name, real))
        setattr(o, name, f)
    if case["slow"] == "reader":
        slowed(tables.Array, "__getitem__", "child")
    elif case["slow"] == "writer":
        slowed(tables.Array, "__setitem__", "child")
        slowed(tables.File, "close", "child")
    else:
        slowed(SLFN, "_project", "main")
    try:
        for N, b, i, n in ((5, 1, 0, None), (6, 2, 1, 4), (4, 4, 0, None), (7, 3, 2, None)):
            for mode in ("r", "wc"):
                if mode == "wc" and case["m"] == "predict_async":
                    continue
                w = World(N, mode)
                one_real(w, ctx, case["m"], b, i, n, "%s slow %s N=%d batch=%d rows %s+%s" % (
                    case["m"], case["slow"], N, b, i, n))
    finally:
        for o, name, real in undo:
            setattr(o, name, real)


def long_(case, ctx):
    """More rows than the default batch; objects larger than the capacity of a pipe."""
    w = World(2500, "r", spec="tanh:5,rbf_l1:2", c=3)
    for i, n in ((0, None), (1000, 1000), (999, None), (1, 2001)):
        one_real(w, ctx, case["m"], case["b"], i, n, "%s N=2500 batch=%d rows %d+%s" % (case["m"], case["b"], i, n))
    w = World(1025, "r")
    one_real(w, ctx, case["m"], 1 if case["b"] % 2 else 2, 0, None, "%s N=1025 batch=1, 2" % case["m"])
    w = World(9000, "r", spec="tanh:5,rbf_l1:2", c=3)
    one_real(w, ctx, case["m"], case["b"] * 7, 0, None, "%s N=9000 batch=%d" % (case["m"], case["b"] * 7))


def mix_(case, ctx):
    """Sequences of asynchronous and synchronous calls on one model."""
    w = World(7, "r")
    ops = ("train_async", "train", "predict_async", "predict", "add_async", "files")
    for seq in itertools.product(ops, repeat=3):
        clean()
        m = w.trained(3)
        m.nnet.reset()
        B, HH, HT = w.B, 0.5 * np.eye(3), np.zeros((3, C))
        FH, FT = HH, HT
        for j, o in enumerate(seq):
            what = "sequence %s" % (seq[:j + 1],)
            if o.startswith("train"):
                getattr(m, o)(w.fx, w.ft)
                B = ridge(w.H, w.T, 0.5)
                HH, HT = corr(w.H, w.T, 0.5)
                ctx.close(m.nnet.get_B(), B, what, 1e-8)
            elif o == "predict_async":
                m.predict_async(w.fx, "y.h5", istart=j)
                ctx.close(h5get("y.h5"), w.H[j:].dot(B), what, 1e-8)
            elif o == "predict":
                ctx.close(m.predict(w.fx, istart=j), w.H[j:].dot(B), what, 1e-8)
            elif o == "add_async":
                m.add_data_async(w.fx, w.ft, istart=1, icount=3)
                d = corr(w.H[1:4], w.T[1:4], 0)
                HH, HT = HH + d[0], HT + d[1]
                a, b = m.nnet.get_corr()
                ctx.close(a, HH, what + " HH")
                ctx.close(b, HT, what + " HT")
            else:
                m.add_data_async(w.fx, w.ft, istart=2, fHH="HH.h5", fHT="HT.h5")
                d = corr(w.H[2:], w.T[2:], 0)
                FH, FT = FH + d[0], FT + d[1]
                ctx.close(h5get("HH.h5"), FH, what + " fHH")
                ctx.close(h5get("HT.h5"), FT, what + " fHT")
                HH, HT = 0.5 * np.eye(3) + d[0], d[1]
            ctx.ok(not helpers(), what + ": helper processes left")
            ctx.step()
            ctx.state("mix", seq[:j + 1])
        ctx.trace()


def types(case, ctx):
    """Number types of data files, with values that need all their digits."""
    N = 7

    def numbers(dt, n, key):
        dt = np.dtype(dt)
        u = rs("c06types", key).rand(N, n)
        if dt.kind == "b":
            return u > 0.5
        if dt.kind == "f":
            return (u * 2 - 1).astype(dt)
        i = np.iinfo(dt)
        lo, hi = max(i.min, -10 ** 10), min(i.max, 10 ** 10)
        return (lo + u * (hi - lo)).astype(dt)
    X = numbers(case["x"], D, "x")
    top = max(1.0, np.abs(X.astype(float)).max())
    G = [(n, f, W / top, B) for n, f, W, B in spec_mix(D, "tanh:2,lin:1")]
    H = h_ref(X.astype(float), G)
    fx = os.path.abspath(h5put("x.h5", X))
    for t in TYPES:
        T = numbers(t, C, "t")
        ft = os.path.abspath(h5put("t.h5", T))
        T = T.astype(float)
        for b in (3, 7):
            what = "inputs %s targets %s batch %d " % (case["x"], t, b)
            m = add(mk("hp", D, C, norm=0.5, batch=b), G)
            m.train_async(fx, ft)
            B = ridge(H, T, 0.5)
            ctx.close(m.nnet.get_B() / np.abs(B).max(), B / np.abs(B).max(), what + "train_async", 1e-9)
            m.predict_async(fx, "y.h5")
            ctx.close(h5get("y.h5") / np.abs(B).max(), H.dot(B) / np.abs(B).max(), what + "predict_async", 1e-9)
            m = add(mk("hp", D, C, norm=0.5, batch=b), G)
            clean()
            m.add_data_async(fx, ft, istart=1, fHH="HH.h5", fHT="HT.h5")
            HH, HT = corr(H[1:], T[1:], 0.5)
            ctx.close(h5get("HH.h5"), HH, what + "add_data_async HH")
            ctx.close(h5get("HT.h5"), HT, what + "add_data_async HT")
            ctx.step(3)
            ctx.state("types", case["x"], t, b)
            ctx.trace()
