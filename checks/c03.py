"""C03: breadth-first exploration of operation histories of one model against a small reference state machine."""
import hashlib
import sys
import types

from mc.lib import *
from mc.core import h64

ID = "C03"
LEVEL = "model_checking"
RULE = ("case = (class:solver, construction, first operation(s)): all histories up to the depth bound over the alphabet "
        "{3 add_neurons, add_data A/B, reset, solve, train r/c/ml/wc/wc automatic/default on A or B, train V/LOO/CV "
        "with and without OP, predict, project+error+confusion, batch 1/3, self reload, reload into a fresh object}, "
        "breadth first, states merged on the full contents of model, solver, package globals and reference state")
ASSUMPTIONS = ["classification mode and (given or computed) class weights are settings: they last until the next train()",
               "random rankings: the random generator is reset before each training", "quick: the fifth operation is one of nine", "states are merged after rounding "
               "stored numbers to 9 digits"]
TIMEOUT = 300
D, C, NORM = 2, 2, 0.25

ADDS = {"n0": group(D, "tanh", 2, "c3a"), "n1": group(D, "tanh", 1, "c3b"), "n2": group(D, "rbf_l2", 1, "c3c")}
SETS = {"A": (data(6, D, "c3A"), targets(6, C, "c", "c3A")), "B": (data(5, D, "c3B"), onehot([0, 0, 1, 0, 0], C))}
Z = data(4, D, "c3Z")
TZ = onehot([0, 1, 1, 0], C)
W1 = np.array([0.7, 3.1])
BASE = ["n0", "n1", "n2", "addA", "addB", "reset", "solve", "predict", "observe", "batch1", "batch3", "selfload",
        "reload", "trainA:r", "trainB:c", "trainB:ml", "trainA:wcw", "trainA:wc", "trainB:wc", "trainB:"]
MSS = ["trainA:V+OP", "trainA:V", "trainB:LOO+OP+kmax", "trainA:c+CV"]
LAST = ["n1", "addB", "reset", "solve", "predict", "observe", "reload", "trainB:", "trainA:wc"]
CTOR = {"plain": ("", None), "wcw": ("wc", (2.1, 1.3)), "c": ("c", None)}


def cases(tier):
    deep = tier == "thorough"
    for kind in ("elm", "hp", "elm:b", "hp:b"):
        for ctor in ("plain", "wcw", "c"):
            if ctor == "c" and kind != "elm":
                continue
            ops = BASE + (MSS if kind.startswith("elm") else [])
            for start in ("", "n0"):
                depth = (6 if deep else 5) if start else (5 if deep else 3)
                if not deep and start and (kind, ctor) != ("elm", "plain"):
                    depth -= 1
                if not deep and kind.endswith("b") and ctor != "plain":
                    continue
                for o1 in ops:
                    if deep and start:
                        for o2 in ops:
                            yield {"kind": kind, "ctor": ctor, "prefix": [start, o1, o2], "depth": depth, "deep": deep}
                    else:
                        yield {"kind": kind, "ctor": ctor, "prefix": ([start] if start else []) + [o1], "depth": depth, "deep": deep}


class Ref(object):
    """What the documentation promises about the state of a model."""

    def __init__(self, ctor):
        self.ctor = ctor
        self.neurons = []       # flat list in hidden layer order
        self.log = []           # (set, mode, weights) since the last reset
        self.B = None
        self.used = set()
        self.mode, self.wc = (CTOR[ctor][0] or None), CTOR[ctor][1]

    def key(self):
        return (repr([(f, w.tolist(), float(b)) for f, w, b in self.neurons]), repr(self.log),
                None if self.B is None else np.round(self.B, 9).tolist(), self.mode, self.wc)

    def H(self, X):
        return np.stack([h_col(X, *n) for n in self.neurons], 1)

    def solution(self):
        Hs, Ts, ws = [], [], []
        for s, mode, w in self.log:
            X, T = SETS[s]
            Hs.append(self.H(X))
            Ts.append(T)
            ws.append(np.array(w)[T.argmax(1)] if mode == "wc" else np.ones(len(T)))
        return ridge(np.vstack(Hs), np.vstack(Ts), NORM, np.hstack(ws))

    def see(self, s):
        if self.mode == "wc" and self.wc is None:
            n = SETS[s][1].sum(0)
            self.wc = tuple(n.sum() / n)
        self.log.append((s, self.mode, self.wc if self.mode == "wc" else None))


def regroup(neurons):
    return merged_flat(neurons)


def merged_flat(neurons):
    order = []
    for f, _, _ in neurons:
        if f not in order:
            order.append(f)
    return [n for f in order for n in neurons if n[0] == f]


def make(kind, ctor):
    m, w = CTOR[ctor]
    return mk(kind, D, C, m, w=None if w is None else list(w), norm=NORM, batch=4)


_mss_cache = {}


def mss_ref(kind, ctor, neurons, op):
    """Model selection on a fresh object with the same neurons."""
    k = (kind, ctor, op, repr([(f, w.tolist(), float(b)) for f, w, b in neurons]))
    if k not in _mss_cache:
        m = make(kind, ctor)
        for f, w, b in neurons:
            m.add_neurons(1, f, w[:, None].copy(), np.array([b]))
        train(m, op)
        _mss_cache[k] = (pruned(m), np.array(m.nnet.get_B()))
    return _mss_cache[k]


def train(m, op):
    s, args = op[5], op[7:].split("+") if op[7:] else []
    X, T = SETS[s]
    kw = {}
    if "wcw" in args:
        args[args.index("wcw")] = "wc"
        kw["w"] = W1.copy()
    if "kmax" in args:
        args.remove("kmax")
        kw["kmax"] = 2
    if "V" in args:
        kw.update(Xv=Z.copy(), Tv=TZ.copy())
    if "CV" in args:
        kw["k"] = 3
    np.random.seed(5)
    return m.train(X.copy(), T.copy(), *args, **kw)


class Run(object):
    def __init__(self, kind, ctor, ctx):
        self.kind, self.ctor, self.ctx = kind, ctor, ctx
        self.m, self.r = make(kind, ctor), Ref(ctor)
        self.path = []

    def apply(self, op, check=True):
        """Runs one operation on the implementation and on the reference; returns False if it is disabled."""
        m, r, ctx = self.m, self.r, self.ctx
        self.path.append(op)
        sub = {"history": list(self.path)}
        what = "%s(%s) after %s: " % (self.kind, self.ctor, " ".join(self.path))
        if op in ADDS:
            if len(r.neurons) > 4:
                return False
            n, f, W, B = ADDS[op]
            m.add_neurons(n, f, W.copy(), B.copy())
            old = [x[0] for x in r.neurons]
            r.neurons = merged_flat(r.neurons + [(f, W[:, j], B[j]) for j in range(n)])
            if f not in old and f in r.used:    # a type that lost all its neurons may keep its place or get a new one
                got = [x[0] for x in pruned(m)]
                if f in got and [g for g in got if g != f] == old:
                    rank = {g: got.index(g) for g in set(got)}
                    r.neurons = sorted(r.neurons, key=lambda x: rank[x[0]])
            r.used.add(f)
            r.B, r.log = None, []
        elif op in ("addA", "addB"):
            X, T = SETS[op[3]]
            if not r.neurons:
                ctx.raises(lambda: m.add_data(X.copy(), T.copy()), what + "add_data without neurons", sub)
            else:
                if len(r.log) > 3:
                    return False
                m.add_data(X.copy(), T.copy())
                r.see(op[3])
        elif op == "reset":
            m.nnet.reset()
            r.log = []
        elif op == "solve":
            if not r.log:
                ctx.raises(m.nnet.solve, what + "solve without data", sub)
            else:
                m.nnet.solve()
                r.B = r.solution()
        elif op == "predict":
            if r.B is None:
                ctx.raises(lambda: m.predict(Z.copy()), what + "predict without a valid solution", sub)
            else:
                ctx.close(m.predict(Z.copy()), r.H(Z).dot(r.B), what + "predictions", 1e-9, sub)
        elif op == "observe":
            if r.neurons:
                ctx.close(m.project(Z.copy()), r.H(Z), what + "projection", 1e-9, sub)
            Y = np.array([[0.75, 0.25], [0.125, 0.5], [2, 1], [1, 0.625]])
            mode = r.mode
            if not (mode == "wc" and r.wc is None):
                e = err_ref(TZ, Y, mode, r.wc)[0]
                ctx.ok(abs(float(m.error(TZ.copy(), Y.copy())) - e) < 1e-9, what + "error() is not %r" % e, sub)
            if mode:
                Cf = m.confusion(TZ.copy(), Y.copy())
                ctx.ok(np.array_equal(Cf, conf_ref(TZ, Y, mode)), what + "confusion %s" % np.asarray(Cf).tolist(), sub)
        elif op in ("batch1", "batch3"):
            m.batch = int(op[5])
        elif op in ("selfload", "reload"):
            s = m.dumps()
            if op == "reload":
                self.m = m = make(self.kind, self.ctor)
            m.loads(s)
            r.log = []
        elif op.startswith("train"):
            args = op[7:].split("+") if op[7:] else []
            if not r.neurons:
                ctx.raises(lambda: train(m, op), what + "train without neurons", sub)
            else:
                train(m, op)
                init, w = CTOR[self.ctor]
                r.mode, r.wc = init or None, w
                for a in args:
                    if a in ("r", "c", "ml", "wc", "wcw"):
                        r.mode = {"r": None, "wcw": "wc"}.get(a, a)
                        if a == "wcw":
                            r.wc = tuple(W1)
                mss = any(a in ("V", "CV", "LOO") for a in args)
                if mss:
                    neurons, B = mss_ref(self.kind, self.ctor, r.neurons, op)
                    r.neurons, r.B = neurons, B
                r.log = []
                r.see(op[5])
                if not mss:
                    r.B = r.solution()
                else:
                    ctx.close(r.B, r.solution(), what + "weights of the selected network", 1e-9, sub)
        else:
            raise ValueError(op)
        ctx.step()
        if not check:
            return True
        # passive comparison of what the model holds
        got = pruned(m)
        same = len(got) == len(r.neurons) and all(
            f1 == f2 and np.array_equal(w1, w2) and b1 == b2 for (f1, w1, b1), (f2, w2, b2) in zip(got, r.neurons))
        ctx.ok(same, what + "neurons are %s, expected %s" % ([g[0] for g in got], [n[0] for n in r.neurons]), sub)
        B = m.nnet.get_B()
        if r.B is None:
            ctx.ok(B is None, what + "a stale solution is kept", sub)
        elif ctx.ok(B is not None, what + "the solution is lost", sub):
            ctx.close(B, r.B, what + "weights", 1e-9, sub)
        return True

    def digest(self):
        return h64((deep(self.m), deep(self.m.nnet), module_state(), self.r.key()))


def deep(o, depth=0):
    if isinstance(o, np.ndarray):
        if o.dtype.kind == "f":
            return (o.shape, (np.round(o.astype(float), 9) + 0.0).tobytes())
        return (o.shape, o.tobytes())
    if isinstance(o, (int, float, str, bytes, bool, type(None), np.generic)):
        return repr(round(o, 9)) if isinstance(o, float) else repr(o)
    if isinstance(o, dict):
        return tuple(sorted((str(k), deep(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple, set)):
        return tuple(deep(v, depth + 1) for v in o)
    if hasattr(o, "__dict__") and depth < 3 and not callable(o):
        return (type(o).__name__, deep(vars(o), depth + 1))
    return getattr(o, "__name__", type(o).__name__)


_plan = []


def module_state():
    """Mutable globals and class attributes of the package."""
    if not _plan:
        for name, mod in sorted(sys.modules.items()):
            if name == "hpelm" or name.startswith("hpelm."):
                classes = [v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == name]
                _plan.append((vars(mod), {k for k, v in vars(mod).items() if k.startswith("__") or isinstance(
                    v, (types.ModuleType, types.FunctionType, type)) or callable(v)}, classes))
    res = []
    for d, skip, classes in _plan:
        for k, v in d.items():
            if k not in skip:
                res.append((k, deep(v)))
        for c in classes:
            for k, v in vars(c).items():
                if k[:2] != "__" and not isinstance(v, types.FunctionType) and not callable(v):
                    res.append((k, deep(v)))
    return res


def run(case, ctx):
    kind, ctor = case["kind"], case["ctor"]
    ops = BASE + (MSS if kind.startswith("elm") else [])
    prefix = [o for o in case["prefix"] if o]
    frontier, seen = [prefix], set()
    for o in range(len(prefix)):        # the prefix itself, checked at each step
        pass
    r = Run(kind, ctor, ctx)
    for o in prefix:
        if not r.apply(o):
            return
    seen.add(r.digest())
    ctx.states.add(r.digest())
    while frontier and len(frontier[0]) < case["depth"]:
        nxt = []
        if len(frontier[0]) == 4 and not case["deep"]:
            ops = LAST
        for path in frontier:
            for op in ops:
                r = Run(kind, ctor, ctx)
                for o in path:
                    r.apply(o, check=False)
                ctx.transitions -= len(path)        # replayed, not explored
                if not r.apply(op):
                    continue
                ctx.trace()
                if len(ctx.violations) > 3:
                    return
                dg = r.digest()
                if dg not in seen:
                    seen.add(dg)
                    ctx.states.add(dg)
                    nxt.append(path + [op])
        frontier = nxt
