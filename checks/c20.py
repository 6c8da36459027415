"""C20: sequences of operations of two models over shared HDF5 files against shadow models working on arrays."""
import itertools
import os

from mc.lib import *
from hpelm import make_hdf5
from hpelm.modules.hdf5_tools import normalize_hdf5

ID = "C20"
LEVEL = "model_checking"
RULE = ("case 'seq' = first operation(s) of a sequence, class and solver of two models: all operation sequences up to the depth over shared "
        "files (inputs, targets, outputs, matrices); after each operation its result equals that of a shadow model on arrays, the files hold "
        "the shadow's contents and no file is held open; case 'names' = file names and folders; case 'same' = one file in two roles; "
        "case 'wrap' = models created and deleted between operations")
ASSUMPTIONS = ["a file is not input and output of the same operation", "one process"]
TIMEOUT = 400

FULL = ("data", "X", "Y", "tA", "tB", "pA", "pB", "hA", "eA", "eB", "cB", "mA", "sA", "vA", "norm", "rB", "aA", "newB", "asyncA", "ptA", "lB")
CORE = ("data", "Y", "tA", "tB", "pA", "pB", "eA", "cB", "mA", "sA", "norm")
PAIRS = (("hp", "hp"), ("hp", "elm"), ("hp:b", "hp:32"))


def cases(tier):
    deep = tier == "thorough"
    for i, pair in enumerate(PAIRS):
        for o in FULL:
            yield {"k": "seq", "pair": pair, "prefix": [o], "ops": "full", "depth": 2 if deep else 1}
        for o in CORE:
            if deep:
                for o2 in CORE:
                    yield {"k": "seq", "pair": pair, "prefix": [o, o2], "ops": "core", "depth": 2 if i == 0 else 1}
            else:
                yield {"k": "seq", "pair": pair, "prefix": [o], "ops": "core", "depth": 2 if i == 0 else 1}
        yield {"k": "names", "pair": pair}
        yield {"k": "same", "pair": pair}
        yield {"k": "wrap", "pair": pair}


D, C = 2, 2
NET = "tanh:2,lin:1"


class World(object):
    """Files and models, and the same on arrays."""

    def __init__(self, pair, ctx):
        self.ctx, self.pair = ctx, pair
        for f in os.listdir("."):
            if f.endswith((".h5", ".lock", ".m")):
                os.remove(f)
        self.v = 0
        self.A, self.sA = self.new(0, "A"), self.new(0, "A", True)
        self.B, self.sB = self.new(1, "B"), self.new(1, "B", True)
        self.Y = self.H = None
        self.M = False
        self.data()

    def new(self, i, key, shadow=False):
        kind = self.pair[i]
        if shadow:
            kind = "hp" + ("" if ":" not in kind else ":" + kind.split(":")[1])
        return add(mk(kind, D, C, norm=0.5, batch=3), spec_mix(D, NET, key))

    def data(self):
        """New inputs and targets with another number of rows."""
        n = (5, 7, 4, 6)[self.v % 4]
        self.X, self.T = data(n, D, ("c20", self.v)), targets(n, C, "c", ("c20", self.v))
        self.v += 1
        make_hdf5(self.X, "X.h5", comp_level=self.v % 2)
        make_hdf5(self.T, "T.h5")
        self.normed = False

    def tol(self, i):
        return 2e-4 if self.pair[i].endswith("32") else 1e-8

    def do(self, o, what):
        """Returns False if the operation has no meaning in this state."""
        ctx = self.ctx
        i = 1 if o.endswith("B") else 0
        m, s = (self.A, self.sA) if i == 0 else (self.B, self.sB)
        trained = s.nnet.get_B() is not None
        elm = self.pair[i].startswith("elm")
        if o == "data":
            self.data()
        elif o == "X":
            self.X = data(len(self.X), D, ("only", self.v))
            self.v += 1
            make_hdf5(self.X, "X.h5")
            self.normed = False
        elif o == "Y":
            self.Y = targets(len(self.X), C, "r", ("y", self.v))
            make_hdf5(self.Y, "Y.h5")
        elif o == "norm":
            if not self.normed:
                sd = self.X.std(0)
                mean = self.X.mean(0)
                self.X = (self.X - mean) / np.where(sd == 0, 1, sd)
                # a rewritten file is normalised again, a normalised one is not
            self.normed = True
            normalize_hdf5("X.h5")
            ctx.close(h5get("X.h5"), self.X, what + ": normalised file", 1e-10)
            self.X = h5get("X.h5")
        elif o in ("tA", "tB"):
            mode = ["c"] if i else []
            m.train("X.h5", "T.h5", *mode)
            s.train(self.X, self.T, *mode)
        elif o == "ptA":
            if len(self.X) < 5:
                return False
            m.train("X.h5", "T.h5", "wc", istart=1, icount=4)
            s.train(self.X, self.T, "wc", istart=1, icount=4)
        elif o == "asyncA":
            m.train_async("X.h5", "T.h5")
            s.train(self.X, self.T)
        elif o in ("pA", "pB", "rB"):
            if not trained:
                return False
            self_y = s.predict(self.X)
            if elm or o == "rB":
                y = m.predict("X.h5")
                ctx.close(y, self_y, what + ": predictions", self.tol(i))
                if elm and o == "pB":
                    make_hdf5(np.asarray(y, float), "Y.h5")
                    self.Y = h5get("Y.h5")
            else:
                m.predict("X.h5", "Y.h5")
                ctx.close(h5get("Y.h5"), self_y, what + ": predictions", self.tol(i))
                self.Y = h5get("Y.h5").astype(float)
        elif o == "hA":
            m.project("X.h5", "H.h5")
            ctx.close(h5get("H.h5"), s.project(self.X), what + ": projections", self.tol(i))
        elif o in ("eA", "eB"):
            if self.Y is None or len(self.Y) != len(self.T):
                return False
            if i == 0 and s.classification == "wc" and np.abs(np.diff(self.Y)).min() < 1e-3 or i and np.abs(np.diff(self.Y)).min() < 1e-3:
                return False
            a, b = m.error("T.h5", "Y.h5"), s.error(self.T, self.Y)
            ctx.ok(abs(a - b) <= self.tol(i) * (1 + abs(b)), "%s: error %s instead of %s" % (what, a, b))
        elif o == "cB":
            if self.Y is None or len(self.Y) != len(self.T) or s.classification is None or np.abs(np.diff(self.Y)).min() < 1e-3:
                return False
            ctx.close(m.confusion("T.h5", "Y.h5"), conf_ref(self.T, self.Y, "c"), what + ": confusion")
        elif o == "mA":
            m.add_data("X.h5", "T.h5", fHH="HH.h5", fHT="HT.h5")
            s.add_data(self.X, self.T, fHH="sHH.h5", fHT="sHT.h5")
            self.M = True
            ctx.close(h5get("HH.h5"), h5get("sHH.h5"), what + ": HH", self.tol(i))
            ctx.close(h5get("HT.h5"), h5get("sHT.h5"), what + ": HT", self.tol(i))
        elif o == "sA":
            if not self.M or len(pruned(s)) != 3:
                return False
            m.solve_corr("HH.h5", "HT.h5")
            s.solve_corr("sHH.h5", "sHT.h5")
        elif o == "vA":
            if not self.M or len(pruned(s)) != 3:
                return False
            a = m.validation_corr("HH.h5", "HT.h5", "X.h5", "T.h5", [2, 3])
            b = s.validation_corr("sHH.h5", "sHT.h5", self.X, self.T, [2, 3])
            ctx.close(a[1], b[1], what + ": errors", self.tol(i))
            self.M = False
            for f in ("HH.h5", "HT.h5", "sHH.h5", "sHT.h5"):
                os.remove(f)
        elif o == "aA":
            m.nnet.reset(), s.nnet.reset()
            m.add_data("X.h5", "T.h5"), s.add_data(self.X, self.T)
            m.nnet.solve(), s.nnet.solve()
        elif o == "newB":
            self.B, self.sB = self.new(1, "B"), self.new(1, "B", True)
        elif o == "lB":
            m.save("b.m")
            self.B = mk(self.pair[1], D, C, norm=0.5, batch=3)
            self.B.load("b.m")
            self.sB = mk("hp" + ("" if ":" not in self.pair[1] else ":" + self.pair[1].split(":")[1]), D, C, norm=0.5, batch=3)
            self.sB.loads(s.dumps())
        return True

    def agree(self, what):
        ctx = self.ctx
        ok = True
        left = held_open()
        if left:
            ok = ctx.ok(False, "%s: files held open: %s" % (what, left)) and False
            tables.file._open_files.close_all()
        P = data(3, D, "c20p")
        for i, (m, s) in enumerate(((self.A, self.sA), (self.B, self.sB))):
            if s.nnet.get_B() is not None:
                ok = ctx.close(m.predict(P), s.predict(P), what + ": model " + "AB"[i], self.tol(i)) and ok
        return ok


def run(case, ctx):
    {"seq": seq, "names": names, "same": same, "wrap": wrap}[case["k"]](case, ctx)


def seq(case, ctx):
    ops = FULL if case["ops"] == "full" else CORE
    start = ("tA", "tB", "pA") if case["ops"] == "full" else ()
    for tail in itertools.product(ops, repeat=case["depth"]):
        s = tuple(case["prefix"]) + tail
        if s.count("asyncA") > 1:
            continue
        w = World(case["pair"], ctx)
        for o in start:
            w.do(o, "start " + o)
        for i, o in enumerate(s):
            what = "%s on %s: after %s" % (s[:i + 1], case["pair"], o)
            if not w.do(o, what):
                break
            ctx.step()
            if not w.agree(what) or len(ctx.violations) > 3:
                return
            ctx.state(case["pair"], start, s[:i + 1])
        else:
            ctx.trace()


def names(case, ctx):
    """The same sequence with other names: relative, absolute, in folders, with dots and spaces, without an extension."""
    os.mkdir("sub")
    os.mkdir("other dir")
    for n, (fx, ft, fy) in enumerate([("x", "t", "y"), ("./x.h5", "sub/../t.h5", "sub/y.h5"), ("sub/a.h5", "other dir/a.h5", "a.h5"),
                                      (os.path.abspath("q.h5"), "q.hdf5", "q.2.h5"), ("file one.h5", "file two", "other dir/out put.h5"),
                                      ("data.1", "data.2", "data.3"), ("\u00e4.h5", "\u00f6.h5", "\u00fc.h5")]):
        for i, kind in enumerate(case["pair"]):
            for rep in range(3):
                X, T = data(6 + rep, D, ("n", rep)), targets(6 + rep, C, "c", ("n", rep))
                make_hdf5(X, fx)
                make_hdf5(T, ft)
                m, s = add(mk(kind, D, C, batch=4), spec_mix(D, NET, "n")), add(mk("elm", D, C), spec_mix(D, NET, "n"))
                m.train(fx, ft, "c"), s.train(X, T, "c")
                tol = 3e-3 if kind.endswith("32") else 1e-6
                if kind.startswith("hp"):
                    m.predict(fx, fy)
                    m.add_data(fx, ft, fHH=fy + "HH", fHT=fy + "HT")
                    m.solve_corr(fy + "HH", fy + "HT")
                    for f in ("HH", "HT"):
                        os.remove(fy + f)
                else:
                    make_hdf5(m.predict(fx), fy)
                what = "%s names %s, %s, %s" % (kind, fx, ft, fy)
                ctx.close(h5get(fy), s.predict(X), what, tol)
                ctx.ok(m.confusion(ft, fy).sum() == len(X), what + ": confusion")
                ctx.ok(held_open() == [], "%s: files held open: %s" % (what, held_open()))
                ctx.step(5)
                ctx.state(n, kind, rep)
                ctx.trace()


def same(case, ctx):
    """One file in two roles of an operation: inputs as targets, targets as predictions; and reading it between."""
    for i, kind in enumerate(case["pair"]):
        for batch in (1, 3, 100):
            X = data(7, D, "same")
            make_hdf5(X, "X.h5")
            m, s = [add(mk(k, D, D, batch=batch, norm=0.5), spec_mix(D, "tanh:3", "same")) for k in (kind, "elm")]
            tol = 2e-4 if kind.endswith("32") else 1e-8
            for rep in range(2):
                what = "%s batch %d: X as T, %d" % (kind, batch, rep)
                m.train("X.h5", "X.h5"), s.train(X, X)
                ctx.close(m.predict("X.h5"), s.predict(X), what, tol)
                ctx.ok(abs(m.error("X.h5", "X.h5")) < 1e-12, what + ": error")
                with tables.open_file("X.h5", "r") as h:        # a reader of the caller's own
                    ctx.close(m.predict("X.h5"), s.predict(X), what + ", open for reading", tol)
                    ctx.ok([n[:] for n in h.walk_nodes("/", "Leaf")][0].shape == X.shape, what + ": the caller's file was closed")
                ctx.ok(held_open() == [], what + ": files held open")
                X = X * 2
                make_hdf5(X, "X.h5")
                ctx.step(3)
                ctx.state(kind, batch, rep)
            ctx.trace()


def wrap(case, ctx):
    """Many short-lived models: nothing piles up."""
    import gc
    X, T = data(6, D, "w"), targets(6, C, "c", "w")
    for kind in case["pair"]:
        keep = []
        for n in range(30):
            make_hdf5(X + n, "X.h5")
            make_hdf5(T, "T.h5")
            m = add(mk(kind, D, C, norm=0.5), spec_mix(D, NET, "w"))
            m.train("X.h5", "T.h5")
            s = add(mk("elm", D, C, norm=0.5), spec_mix(D, NET, "w"))
            s.train(X + n, T)
            ctx.close(m.predict("X.h5"), s.predict(X + n), "%s model %d" % (kind, n), 3e-3 if kind.endswith("32") else 1e-6)
            ctx.ok(held_open() == [], "%s model %d: files held open" % (kind, n))
            if n % 3:
                keep.append(m)
            if n % 7 == 0:
                del m
                gc.collect()
            ctx.step()
            ctx.state(kind, n)
        for m in keep:      # each model keeps its own solution
            m.predict("X.h5")
        ctx.trace()
