"""C27: a read error, interrupt or lack of memory at every file access and matrix product of every operation."""
import itertools
import pickle

from mc.lib import *
from hpelm import make_hdf5, normalize_hdf5
from hpelm.modules.rbf_param import rbf_param

ID = "C27"
LEVEL = "fault_enumeration"
RULE = ("case = (operation, model kind, classification, batch size, fault); the fault (I/O error, KeyboardInterrupt, MemoryError) is raised "
        "at every opening, node creation, read, write and flush of an HDF5 file and, where nothing is pruned, at every matrix product "
        "and new zero matrix of the operation, by a new or a trained model: it must surface as an exception, leave no "
        "file open and the model as it was (operations that do not train), and the operation repeated with the same model must have the undisturbed outcome; thorough: also every pair of fault points in a row")
ASSUMPTIONS = ["processing steps are calls of np.dot", "closing a file does not fail",
               "out of scope: in-memory add_data, asynchronous methods (see C28), normalize_hdf5 (checked only for the error and open files)"]
TIMEOUT = 300
D, C, N, NORM = 2, 2, 7, 0.5
FAULTS = ("io", "interrupt", "memory")
NODOT = ("train V", "train CV", "train LOO", "train V OP")


class Injected(IOError):
    pass


def error(kind):
    return {"io": Injected("injected"), "interrupt": KeyboardInterrupt(), "memory": MemoryError("injected")}[kind]


class Faults(object):
    """Counts the accesses of an operation and raises at one of them."""

    def __init__(self, at=None, kind=None, dots=True):
        self.at, self.kind, self.n, self.inside, self.saved, self.log, self.dots = at, kind, 0, 0, [], [], dots

    def point(self, label):
        if self.inside:
            return
        self.log.append(label)
        self.n += 1
        if self.at is not None and self.n - 1 == self.at:
            raise error(self.kind)

    def wrap(self, owner, attr, label):
        real = getattr(owner, attr)
        self.saved.append((owner, attr, real, attr in vars(owner)))

        def hooked(*a, **k):
            self.point(label)
            self.inside += 1
            try:
                return real(*a, **k)
            finally:
                self.inside -= 1
        setattr(owner, attr, hooked)

    def __enter__(self):
        self.wrap(tables.File, "__init__", "open")
        for a in ("create_carray", "create_earray", "create_array"):
            self.wrap(tables.File, a, "create")
        self.wrap(tables.File, "flush", "flush")
        for a, l in (("__getitem__", "get"), ("read", "get"), ("__setitem__", "set")):
            self.wrap(tables.Array, a, l)
        self.wrap(tables.EArray, "append", "set")
        if self.dots:
            self.wrap(np, "dot", "dot")
            self.wrap(np, "zeros", "zeros")
        self.close = tables.File.close

        def close(f):
            self.inside += 1        # what closing does is one step that does not fail
            try:
                return self.close(f)
            finally:
                self.inside -= 1
        tables.File.close = close
        return self

    def __exit__(self, *a):
        tables.File.close = self.close
        for owner, attr, real, own in reversed(self.saved):
            if own:
                setattr(owner, attr, real)
            else:
                delattr(owner, attr)


HP = ("train", "train range", "predict", "predict file", "predict array", "project", "project file", "project array", "error", "confusion",
      "validation", "validation list", "solve_corr", "predict range file")
FRESH = ("train", "train range", "train V", "train CV", "train LOO", "train V OP", "solve_corr", "project", "project file")
EL = ("train", "train V", "train CV", "train LOO", "train V OP", "predict", "project", "error", "confusion")
FN = ("make array", "make txt", "make csv", "make npy", "make shape", "rbf", "rbf l1", "normalize")


def cases(tier):
    deep = tier == "thorough"
    for op in HP:
        for kind in ("hp", "hp:b") + (("hp:32",) if deep else ()):
            for cl in ("", "c", "wc", "ml"):
                if op == "confusion" and not cl:
                    continue
                for batch in (3, 100) if not deep else (1, 2, 3, 7, 100):
                    for f in FAULTS:
                        for fresh in (False, True) if op in FRESH else (False,):
                            if kind != "hp" and not deep and (f == "io" and op not in FRESH or fresh and f != "memory"):
                                continue
                            yield {"op": op, "kind": kind, "cl": cl, "batch": batch, "fault": f, "fresh": fresh, "pairs": deep and kind == "hp"}
    for op in EL:
        for kind in ("elm", "elm:b"):
            for cl in ("", "c", "wc", "ml"):
                if op == "confusion" and not cl:
                    continue
                for batch in (3, 100):
                    for f in FAULTS:
                        for fresh in (False, True) if op in FRESH else (False,):
                            if kind != "elm" and not deep and (f == "io" and op not in FRESH or fresh and f != "memory"):
                                continue
                            yield {"op": op, "kind": kind, "cl": cl, "batch": batch, "fault": f, "fresh": fresh, "pairs": deep and not fresh}
    for op in FN:
        for f in FAULTS:
            yield {"op": op, "kind": "", "cl": "", "batch": 0, "fault": f, "pairs": op != "normalize"}


class World(object):
    def __init__(self, case):
        self.op, self.kind, self.cl, self.batch = case["op"], case["kind"], case["cl"], case["batch"]
        self.fresh = case.get("fresh", False)
        self.G = spec_mix(D, "tanh:3,lin:1,sigm:1", "c27")
        self.X, self.T = data(N, D, "c27"), targets(N, C, self.cl or "r", "c27")
        self.Y = targets(N, C, self.cl or "r", "c27y") * 0.75 + dyadic((N, C), "c27y") / 64
        self.P = data(4, D, "c27p")
        self.fx, self.ft, self.fy = [h5put(os.path.abspath(n), A, name="anything") for n, A in (("x.h5", self.X), ("t.h5", self.T), ("y.h5", self.Y))]
        H = h_ref(self.X, self.G)
        HH, HT = corr(H, self.T, NORM)
        self.fHH, self.fHT = h5put(os.path.abspath("HH.h5"), HH), h5put(os.path.abspath("HT.h5"), HT)
        self.out = os.path.abspath("out.h5")
        np.savetxt("a.txt", self.X)
        np.savetxt("a.csv", self.X, delimiter=",")
        np.save("a.npy", self.X)

    def model(self):
        if not self.kind:
            return None
        m = add(mk(self.kind, D, C, self.cl, norm=NORM, batch=self.batch, w=[1, 3] if self.cl == "wc" else None), self.G)
        if not self.fresh:
            m.train(self.X[:5], self.T[:5])
        return m

    def snapshot(self, m):
        """Everything a user can see of a trained model: outputs, errors, and what is saved."""
        if m is None or self.fresh:
            return None
        s = pickle.loads(m.dumps())
        saved = repr([(k, tuple(np.asarray(a).tobytes() if isinstance(a, np.ndarray) else str(a) for n in s[k] for a in n) if k == "neurons"
                       else np.asarray(s[k], float).tolist() if isinstance(s[k], (np.ndarray, list, tuple)) else str(s[k])) for k in sorted(s)])
        return m.predict(self.P).tobytes(), m.project(self.P).tobytes(), float(m.error(self.T, self.Y)), saved

    def clear(self):
        if os.path.exists(self.out):
            os.remove(self.out)
        h5put(os.path.abspath("n.h5"), self.X)

    def do(self, m):
        """One operation; returns what it produces (the contents of the output file are read by outcome)."""
        op, fx, ft, fy = self.op, self.fx, self.ft, self.fy
        np.random.seed(5)
        if op == "train":
            return m.train(fx, ft)
        if op == "train range":
            return m.train(fx, ft, istart=1, icount=5)
        if op.startswith("train"):
            a = op.split()[1:]
            kw = {"Xv": fx, "Tv": fy} if "V" in a else {"k": 3} if "CV" in a else {}
            return m.train(fx, ft, *a, **kw)
        if op == "predict":
            return m.predict(fx)
        if op == "project":
            return m.project(fx)
        if op in ("predict file", "project file"):
            return getattr(m, op.split()[0])(fx, self.out)
        if op == "predict range file":
            return m.predict(fx, self.out, istart=2, icount=4)
        if op in ("predict array", "project array"):
            A = np.zeros((N, C if op.startswith("pre") else 5))
            getattr(m, op.split()[0])(fx, A)
            return A
        if op in ("error", "confusion"):
            return getattr(m, op)(ft, fy)
        if op == "validation":
            return m.validation_corr(self.fHH, self.fHT, fx, fy, steps=3)
        if op == "validation list":
            return m.validation_corr(self.fHH, self.fHT, fx, ft, steps=[1, 2, 4])
        if op == "solve_corr":
            return m.solve_corr(self.fHH, self.fHT)
        if op == "make array":
            return make_hdf5(self.X, self.out)
        if op == "make txt":
            return make_hdf5("a.txt", self.out)
        if op == "make csv":
            return make_hdf5("a.csv", self.out, delimiter=",")
        if op == "make npy":
            return make_hdf5("a.npy", self.out)
        if op == "make shape":
            return make_hdf5((4, 3), self.out)
        if op == "rbf":
            return rbf_param(fx, 3)
        if op == "rbf l1":
            return rbf_param(fx, 2, "rbf_l1")
        if op == "normalize":
            return normalize_hdf5("n.h5")
        raise ValueError(op)

    def outcome(self, m, res):
        res = [] if res is None else list(res) if isinstance(res, tuple) else [res]
        flat = []
        for r in res:
            flat += [np.array(a, float) for a in (r if isinstance(r, list) else [r])]
        if os.path.exists(self.out):
            flat.append(np.array(h5get(self.out), float))
        if m is not None:
            if not (self.fresh and self.op.startswith("project")):
                flat.append(np.array(m.predict(self.P), float))
            flat.append(np.array(m.project(self.P), float))
        return flat


def same(a, b, tol):
    return len(a) == len(b) and all(x.shape == y.shape and relclose(x, y, tol) for x, y in zip(a, b))


def run(case, ctx):
    W = World(case)
    dots = case["op"] not in NODOT
    tol = 1e-5 if case["kind"].endswith("32") else 1e-9
    # undisturbed
    W.clear()
    m = W.model()
    with Faults(dots=dots) as F:
        res = W.do(m)
    good = W.outcome(m, res)
    ctx.ok(not held_open(), "files open after the undisturbed operation: %s" % held_open())
    n, log = F.n, F.log
    ctx.ok(all(np.isfinite(a).all() for a in good) and n > 0, "harness: undisturbed operation")
    plans = [(p,) for p in range(n)]
    if case["pairs"] and n <= 40:
        plans += list(itertools.product(range(n), repeat=2))
    for plan in plans:
        W.clear()
        m = W.model()
        before = W.snapshot(m)
        what = "%s: %s %s %s batch %d, %s at %s" % (case["fault"], case["kind"], case["cl"], case["op"], case["batch"],
                                                    "", ", ".join("%d:%s" % (p, log[p]) for p in plan))
        for p in plan:
            caught = None
            try:
                with Faults(p, case["fault"], dots) as F:
                    W.do(m)
            except (Exception, KeyboardInterrupt) as e:
                caught = e
            if F.n <= p and caught is None:     # ends earlier than before
                continue
            if caught is None:
                ctx.fail("%s: the error was swallowed" % what)
                return
            if case["fault"] == "interrupt" and F.n > p and F.log[p] != "open" and not isinstance(caught, KeyboardInterrupt):
                ctx.fail("%s: the interrupt became %r" % (what, caught))
                return
            del caught
            left = held_open()
            if left:
                ctx.fail("%s: files left open: %s" % (what, left))
                return
            if m is not None and not case["op"].startswith("train"):
                if W.snapshot(m) != before:
                    ctx.fail("%s: the model has changed" % what)
                    return
        if case["op"] == "normalize":
            ctx.step()
            continue
        res = W.do(m)
        if not same(W.outcome(m, res), good, tol):
            ctx.fail("%s: repeated operation gives something else" % what)
            return
        left = held_open()
        if left:
            ctx.fail("%s: files left open by the repeated operation: %s" % (what, left))
            return
        ctx.step(1 + len(plan))
        ctx.state(case["op"], case["kind"], case["cl"], case["batch"], case["fault"], plan)
    ctx.count("fault points", n)
    ctx.trace()
