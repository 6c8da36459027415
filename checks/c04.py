"""C04: every ordered partition of the rows added to matrix files gives norm*I + H'H and H'T, and the full model."""
import itertools
import shutil

from mc.lib import *

ID = "C04"
LEVEL = "model_checking"
RULE = ("case = (partition of N rows, class:solver, use of model objects): all orders of the parts x batch sizes x sources "
        "(range of a file, own file, array slice) x files absent/existing x norms, files compared after every part, then "
        "solve_corr in a fresh and in a used model; repeated parts; parts added asynchronously; two file pairs at once")
ASSUMPTIONS = ["class weights are given explicitly", "agreement 1e-9 (single precision 1e-4) relative"]
TIMEOUT = 300
D, C = 2, 2


def cases(tier):
    deep = tier == "thorough"
    for N in (1, 2, 3, 4, 5) + ((6,) if deep else ()):
        for parts in compositions(N):
            for kind in ("hp", "hp:b", "hp:32"):
                if kind != "hp" and N in (2, 5) and not deep:
                    continue
                yield {"k": "parts", "parts": parts, "kind": kind, "deep": deep}
    for kind in ("hp", "hp:b"):
        for a in range(4 if not deep else 12):
            yield {"k": "async", "kind": kind, "a": a}
        for spec in ("tanh:2,lin:1", "rbf_l1:1") + (("sigm:3",) if deep else ()):
            yield {"k": "twice", "kind": kind, "spec": spec, "deep": deep}
        yield {"k": "pairs", "kind": kind}
        yield {"k": "big", "kind": kind}
        yield {"k": "names", "kind": kind}


def orders(k):
    if k <= 3:
        return list(itertools.permutations(range(k)))
    ids = list(range(k))
    return [tuple(ids), tuple(ids[::-1]), tuple(ids[1:] + ids[:1]), tuple(ids[::2] + ids[1::2])]


class World(object):
    def __init__(self, ctx, kind, spec, norm, mode, N, key, c=C):
        self.ctx, self.kind, self.norm, self.mode, self.c = ctx, kind, norm, mode, c
        self.G = spec_mix(D, spec)
        self.L = sum(g[0] for g in self.G)
        self.X, self.T = data(N, D, key), targets(N, c, "c" if mode else "r", key)
        self.w = np.array([0.7, 3.1, 1.0][:c])
        self.H = h_ref(self.X, self.G)
        self.sw = self.w[self.T.argmax(1)] if mode == "wc" else np.ones(N)
        self.tol = 1e-9 if not kind.endswith("32") else 1e-4
        self.norm_v = 50 * np.finfo(prec(kind)).eps if norm is None else norm

    def fresh(self, batch=1000):
        return add(mk(self.kind, D, self.c, self.mode or "", w=self.w if self.mode == "wc" else None, norm=self.norm,
                      batch=batch), self.G)

    def part(self, i, n):
        Hs, s = self.H[i:i + n], self.sw[i:i + n, None]
        return (Hs * s).T.dot(Hs), (Hs * s).T.dot(self.T[i:i + n])

    def check(self, HH0, HT0, what, fHH="HH.h5", fHT="HT.h5"):
        self.ctx.step()
        HH, HT = h5get(fHH), h5get(fHT)
        self.ctx.close(HH, HH0, what + ": HH", self.tol)
        self.ctx.close(HT, HT0, what + ": HT", self.tol)
        self.ctx.ok(np.array_equal(HH, HH.T) or relclose(HH, HH.T, 1e-12), what + ": HH is not symmetric")

    def zero(self):
        return self.norm_v * np.eye(self.L), np.zeros((self.L, self.c))

    def solved(self, m, HH, HT, what, fHH="HH.h5", fHT="HT.h5"):
        self.ctx.step()
        m.solve_corr(fHH, fHT)
        B = np.linalg.solve(HH, HT)
        tol = 1e-7 if not self.kind.endswith("32") else 5e-3
        if np.linalg.cond(HH) < (1e8 if not self.kind.endswith("32") else 1e3):
            self.ctx.close(m.nnet.get_B(), B, what + ": solution", tol)
            self.ctx.close(m.predict(self.X), self.H.dot(B), what + ": predictions", tol)


def run(case, ctx):
    {"parts": parts, "async": asyn, "twice": twice, "pairs": pairs, "big": big, "names": names}[case["k"]](case, ctx)


def wipe():
    for f in os.listdir("."):
        if f.startswith("H") or f.endswith(".lock"):
            os.remove(f)


def parts(case, ctx):
    ps, kind, deep = case["parts"], case["kind"], case["deep"]
    N = sum(ps)
    starts = [sum(ps[:i]) for i in range(len(ps))]
    n = 0
    for mode, norm, spec in ((None, 0.5, "tanh:2,lin:1"), ("wc", 3.0, "lin:1"), (None, None, "rbf_l2:2,sigm:1")):
        w = World(ctx, kind, spec, norm, mode, N, "c4")
        h5put("x.h5", w.X)
        h5put("t.h5", w.T)
        for i, (s, p) in enumerate(zip(starts, ps)):
            h5put("x%d.h5" % i, w.X[s:s + p])
            h5put("t%d.h5" % i, w.T[s:s + p])
        blob = w.fresh().dumps()
        for order in orders(len(ps)):
            for batch in sorted({1, 2, N, N + 1}):
                models = [("one", "range"), ("copies", "range"), ("used", "array"), ("loaded", "own")]
                for usage, how in models if deep else [models[n % 4]]:
                    n += 1
                    wipe()
                    HH, HT = w.zero()
                    exist = n % 3 == 0
                    if exist:       # files of an earlier session
                        pre = np.arange(float(w.L)) + 1
                        HH, HT = HH + np.outer(pre, pre), HT + 2.0
                        h5put("HH.h5", HH, prec(kind))
                        h5put("HT.h5", HT, prec(kind))
                    what = "parts %s order %s batch %d %s %s%s" % (ps, order, batch, usage, how,
                                                                   " existing files" if exist else "")
                    one = w.fresh(batch)
                    if usage == "used":     # the model has trained and collected data before
                        one.train(w.X, w.T)
                        one.add_data(w.X, w.T)
                    for j, i in enumerate(order):
                        if usage in ("one", "used"):
                            m = one
                        elif usage == "copies":
                            m = w.fresh(batch)
                        else:
                            m = mk(kind, 1, 1, batch=batch)
                            m.loads(blob)
                        if how == "range":
                            m.add_data("x.h5", "t.h5", istart=starts[i], icount=ps[i], fHH="HH.h5", fHT="HT.h5")
                        elif how == "own":
                            m.add_data("x%d.h5" % i, "t%d.h5" % i, fHH="HH.h5", fHT="HT.h5")
                        else:
                            sl = slice(starts[i], starts[i] + ps[i])
                            m.add_data(w.X[sl], w.T[sl], fHH="HH.h5", fHT="HT.h5")
                        dHH, dHT = w.part(starts[i], ps[i])
                        HH, HT = HH + dHH, HT + dHT
                        w.check(HH, HT, what + " after part %d" % (j + 1))
                        if j == 0 and len(order) > 1 and n % 4 == 0:    # an intermediate solution changes nothing
                            w.solved(m, HH, HT, what + " (first part only)")
                        ctx.state(ps, order[:j + 1], batch, usage, how, exist, mode, kind)
                    w.solved(m, HH, HT, what)
                    if usage in ("loaded", "copies"):
                        w.solved(w.fresh(), HH, HT, what + " (other model)")
                    if not exist and norm:
                        m2 = w.fresh(batch)
                        m2.train(w.X, w.T)
                        if not kind.endswith("32"):
                            ctx.close(m.nnet.get_B(), m2.nnet.get_B(), what + ": differs from train()", 1e-9)
                    ctx.trace()
                    if len(ctx.violations) > 3:
                        return


def asyn(case, ctx):
    kind, a = case["kind"], case["a"]
    for t, (N, ps, batch) in enumerate([(5, (2, 3), 2), (5, (5,), 5), (6, (1, 4, 1), 3), (4, (3, 1), 1), (7, (2, 2, 3), 2),
                                        (3, (1, 1, 1), 1), (8, (8,), 3), (6, (3, 3), 4), (9, (4, 5), 5), (2, (1, 1), 7),
                                        (5, (4, 1), 4), (6, (2, 2, 2), 6)]):
        if t % (4 if a < 4 else 1) != a % 4 and a < 4 or (a >= 4 and t != a):
            continue
        for mode in (None, "wc"):
            w = World(ctx, kind, "tanh:2,lin:1", 0.5, mode, N, "c4a")
            h5put("x.h5", w.X)
            h5put("t.h5", w.T)
            for order in orders(len(ps))[:3]:
                for which in ("async", "mixed"):
                    wipe()
                    HH, HT = w.zero()
                    one = w.fresh(batch)
                    for j, i in enumerate(order):
                        s = sum(ps[:i])
                        f = one.add_data_async if which == "async" or j % 2 else one.add_data
                        f("x.h5", "t.h5", istart=s, icount=ps[i], fHH="HH.h5", fHT="HT.h5")
                        d = w.part(s, ps[i])
                        HH, HT = HH + d[0], HT + d[1]
                        what = "%s parts %s order %s batch %d" % (which, ps, order, batch)
                        w.check(HH, HT, what)
                        ctx.state("async", ps, order[:j + 1], batch, mode, which)
                    w.solved(one, HH, HT, what)
                    ctx.trace()


def twice(case, ctx):
    """A part added k times counts k times; a model that solved and trained in between stays usable."""
    kind = case["kind"]
    for spec in (case["spec"],):
        for N, batch in ((3, 2), (4, 4), (1, 1)) if case["deep"] else ((3, 2),):
            w = World(ctx, kind, spec, 0.25, None, N, "c4t")
            for seq in itertools.product(("all", "first", "train", "solve"), repeat=3):
                wipe()
                HH, HT = w.zero()
                m = w.fresh(batch)
                for o in seq:
                    if o in ("all", "first"):
                        n = N if o == "all" else 1
                        m.add_data(w.X, w.T, icount=n, fHH="HH.h5", fHT="HT.h5")
                        d = w.part(0, n)
                        HH, HT = HH + d[0], HT + d[1]
                    elif o == "train":
                        m.train(w.X, w.T)
                        ctx.close(m.nnet.get_B(), ridge(w.H, w.T, 0.25), "train() between parts %s" % (seq,), 1e-8)
                        if not os.path.exists("HH.h5"):
                            continue
                    elif os.path.exists("HH.h5"):
                        w.solved(m, HH, HT, "sequence %s" % (seq,))
                    else:
                        continue
                    w.check(HH, HT, "sequence %s" % (seq,))
                    ctx.state("twice", spec, N, batch, seq)
                ctx.trace()


def pairs(case, ctx):
    """One model feeding two pairs of files alternately; networks of other shapes are independent."""
    kind = case["kind"]
    w = World(ctx, kind, "tanh:2,lin:1", 0.5, None, 6, "c4p")
    for seq in itertools.product((0, 1), repeat=4):
        wipe()
        m = w.fresh(2)
        st = [w.zero(), w.zero()]
        for j, k in enumerate(seq):
            i, n = ((0, 2), (2, 1), (3, 3), (1, 4))[j]
            m.add_data(w.X, w.T, istart=i, icount=n, fHH="HH%d.h5" % k, fHT="HT%d.h5" % k)
            d = w.part(i, n)
            st[k] = (st[k][0] + d[0], st[k][1] + d[1])
            for q in set(seq[:j + 1]):
                w.check(st[q][0], st[q][1], "pairs %s" % (seq[:j + 1],), "HH%d.h5" % q, "HT%d.h5" % q)
            ctx.state("pairs", seq[:j + 1])
        for q in set(seq):
            w.solved(m, st[q][0], st[q][1], "pairs %s" % (seq,), "HH%d.h5" % q, "HT%d.h5" % q)
        ctx.trace()


def big(case, ctx):
    kind = case["kind"]
    for N, spec, c in ((2500, "tanh:20,lin:2,rbf_l2:8", 3), (1300, "sigm:65", 2), (300, "np.sin:7,tanh:2", 12), (40, "tanh:257", 2), (40, "sigm:200,lin:1", 1), (9, "tanh:513", 2)):
        w = World(ctx, kind, spec, 0.5, None, N, "c4b", c=c)
        h5put("x.h5", w.X)
        h5put("t.h5", w.T)
        for cuts in ((0, N), (0, 1000, N), (0, 1, N // 2, N - 1, N), (0, N // 3, N // 2, N)):
            if sorted(cuts) != list(cuts) or cuts[1] > N:
                continue
            for order in (1, -1) if w.L < 100 else (1,):
                for batch in (1000, 64) if w.L < 100 else (1000,):
                    wipe()
                    HH, HT = w.zero()
                    m = w.fresh(batch)
                    for a, b in list(zip(cuts, cuts[1:]))[::order]:
                        m.add_data("x.h5", "t.h5", istart=a, icount=b - a, fHH="HH.h5", fHT="HT.h5")
                        d = w.part(a, b - a)
                        HH, HT = HH + d[0], HT + d[1]
                        w.check(HH, HT, "N=%d cuts %s batch %d" % (N, cuts, batch))
                    w.solved(m, HH, HT, "N=%d cuts %s batch %d" % (N, cuts, batch))
                    ctx.state("big", N, cuts, order, batch)
                    ctx.trace()


def names(case, ctx):
    """Relative and absolute names, other directories, one existing and one absent file, lock files left over."""
    kind = case["kind"]
    w = World(ctx, kind, "tanh:2", 0.5, None, 4, "c4n")
    os.makedirs("sub dir", exist_ok=True)
    for a, b in (("HH.h5", "HT.h5"), (os.path.abspath("HH.h5"), os.path.abspath("HT.h5")), ("./HH.h5", "sub dir/HT.h5"),
                 ("sub dir/HH.hdf5", "sub dir/HT.hdf5"), ("HHmatrix", "HTmatrix")):
        for exist in itertools.product((0, 1), repeat=2):
            for stale in (0, 1):
                for f in (a, b, a + ".lock", b + ".lock"):
                    if os.path.exists(f):
                        os.remove(f)
                HH, HT = w.zero()
                if exist[0]:
                    HH = HH + 2
                    h5put(a, HH, prec(kind), name="whatever")
                if exist[1]:
                    HT = HT + 3
                    h5put(b, HT, prec(kind), name="other")
                if stale:
                    open(a + ".lock", "w").close()
                    open(b + ".lock", "w").close()
                m = w.fresh(3)
                for i, n in ((0, 1), (1, 3)):
                    m.add_data(w.X, w.T, istart=i, icount=n, fHH=a, fHT=b)
                    d = w.part(i, n)
                    HH, HT = HH + d[0], HT + d[1]
                    w.check(HH, HT, "files %s %s existing %s" % (a, b, exist), a, b)
                w.solved(m, HH, HT, "files %s %s existing %s" % (a, b, exist), a, b)
                ctx.state("names", a, exist, stale)
                ctx.trace()
