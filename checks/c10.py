"""C10: every model state saved and loaded into every kind of object, chained, then used and trained further."""
import itertools
import pickle

from mc.lib import *

ID = "C10"
LEVEL = "model_checking"
RULE = ("case = (saved state, class:solver it was saved from, depth): the state is saved (file, bytes, over an existing file) and "
        "loaded into every class x solver x precision x earlier state of the loading object, chained through up to `depth` "
        "objects; after each load all attributes, projections, predictions, errors, settings of the loading object, and "
        "further training (new data, more neurons, every mode) are compared with the reference")
ASSUMPTIONS = ["further training is given the same explicit options", "single precision: agreement up to 1e-4"]
TIMEOUT = 200
D, N = 3, 14
KINDS = ("elm", "hp", "elm:b", "hp:b", "elm:32", "hp:b32")
STATES = ("empty", "untrained", "data", "r", "c", "wc", "wcauto", "ml", "initc", "initwc", "initwc2", "norm0", "zeronorm", "pruned", "cv", "retrained", "more",
          "async", "setB", "ufunc", "one", "wide", "big", "zero", "cw", "cwuntrained")
PRIOR = ("fresh", "dims", "neurons", "trained", "data", "wc", "norm")


def cases(tier):
    deep = tier == "thorough"
    for s in STATES:
        for k in KINDS if deep else ("elm", "hp:b", "elm:32"):
            if s == "async" and not k.startswith("hp"):
                k = k.replace("elm", "hp")
            yield {"s": s, "kind": k, "depth": 3 if deep else 2, "deep": deep}


def tol(kind):
    return 1e-4 if kind.endswith("32") else 1e-9


class Ref(object):
    """What a model consists of."""
    mode = wc = B = own = None
    joins = "tanh"
    d, c, norm = D, 2, 0.3

    def __init__(self):
        self.G = []

    def H(self, X):
        return h_ref(X, self.G)


def build(s, kind):
    """A model in the given state and its reference."""
    r = Ref()
    X, tr = data(N, D, "c10"), lambda mode, c=2: targets(N, c, mode, "c10")
    spec = {"ufunc": "np.sin:2,scipy.expit:2,np.exp2:1", "one": "lin:1", "big": "tanh:270,rbf_l2:20", "pruned": "tanh:5,lin:2",
            "cv": "tanh:4,sigm:3,rbf_l1:2"}.get(s, "tanh:3,lin:2,rbf_linf:2,sigm:1")
    if s == "wide":
        r.d, r.c = 9, 5
        X = data(N, 9, "c10")
    if s == "big":
        r.norm = 0.125
    if s == "zeronorm":
        r.norm = 0.0
    if s == "norm0":
        r.norm = 1e-3 / 3
    cls, w = "", None
    if s == "initc":
        cls = "c"
    if s.startswith("initwc"):      # initwc2: other weights in training
        cls, w = "wc", np.array([0.7, 4.1])
    if s.startswith("cw"):      # class weights given for later
        cls, w = "c", np.array([0.7, 4.1])
    m = mk(kind, r.d, r.c, cls, w=w, norm=r.norm, batch=5)
    r.mode, r.wc = cls or None, w
    if s == "empty":
        return m, r
    r.G = spec_mix(r.d, spec, s)
    if s != "one":          # values that need all the digits of their precision
        r.G = [(n, f, W * (1 + 2.0 ** -40) / 0.7, B * (1 + 2.0 ** -40) / 0.7) for n, f, W, B in r.G]
    add(m, r.G)
    if s in ("untrained", "cwuntrained"):
        return m, r
    if s == "data":
        m.add_data(X, tr("r"))
        return m, r
    if s == "setB":
        r.B = dyadic((sum(g[0] for g in r.G), r.c), "setB")
        m.nnet.set_B(r.B.copy())
        return m, r
    if s in ("pruned", "cv"):
        T = np.stack([np.sin(X[:, 0]), X[:, 1]], 1)
        if s == "pruned":
            m.train(X, T, "V", "OP", Xv=data(9, D, "v"), Tv=targets(9, 2, "r", "v"), kmax=4)
        else:
            m.train(X, T, "CV", "OP", k=4)
        left = pruned(m)
        r.joins = "np.arctan"       # an emptied type may keep its place
        r.G = [(1, f, np.asarray(w, float)[:, None], np.array([b], float)) for f, w, b in left]
        r.B = ridge(r.H(X), T, r.norm)
        return m, r
    mode = {"c": "c", "wc": "wc", "wcauto": "wc", "ml": "ml", "initc": "c", "initwc": "wc", "initwc2": "wc", "cw": "c"}.get(s, "r")
    if s == "wide":
        T = tr("r", 5)
    else:
        T = tr(mode) * (s != "zero")        # zero: trained, all output weights are zero
    kw = {}
    if s in ("wc", "initwc2"):
        kw["w"] = np.array([3.0, 0.25])
    if s == "async":
        m.train_async(h5put(os.path.abspath("ax.h5"), X), h5put(os.path.abspath("at.h5"), T), "r")
    elif s in ("initc", "initwc", "cw"):
        m.train(X, T)
    else:
        m.train(X, T, mode, **kw)
    r.mode = None if mode == "r" else mode
    if mode == "wc":
        r.wc = kw.get("w", w if w is not None else len(T) / T.sum(0))
    sw = r.wc[T.argmax(1)] if mode == "wc" else None
    r.B = ridge(r.H(X), T, r.norm, sw)
    if s == "retrained":
        T = T[::-1].copy()
        m.train(X, T, "c")
        r.mode, r.B = "c", ridge(r.H(X), T, r.norm)
    if s == "more":
        g = group(D, "tanh", 2, "more")
        add(m, [g])
        r.G.append(g)
        r.B = None
    return m, r


def prior(p, kind):
    """A loading object with some past."""
    batch = 4
    if p == "dims":
        m = add(mk(kind, 5, 4, norm=9.0, batch=batch), spec_mix(5, "tanh:2"))
        m.train(data(8, 5), targets(8, 4))
        return m
    m = mk(kind, D, 2, norm=7.0 if p == "norm" else None, batch=batch)
    if p == "fresh" or p == "norm":
        return m
    add(m, spec_mix(D, "lin:1,tanh:2,np.negative:1", "prior"))
    if p == "trained":
        m.train(data(8, D), targets(8, 2), "r")
    if p == "data":
        m.add_data(data(8, D), targets(8, 2))
    if p == "wc":
        m.train(data(8, D), targets(8, 2, "c"), "wc", w=np.array([1.0, 9.0]))
    return m


def check(ctx, m, r, kind, what, tl, further):
    ctx.step()
    n = m.nnet
    ctx.ok(n.inputs == r.d and n.outputs == r.c, "%s: %s inputs, %s outputs" % (what, n.inputs, n.outputs))
    exact = 1e-6 if tl > 1e-6 else 1e-15
    ctx.ok(abs(n.norm - r.norm) <= exact * r.norm, "%s: norm %r instead of %r" % (what, n.norm, r.norm))
    ctx.ok(m.classification == r.mode, "%s: classification %r instead of %r" % (what, m.classification, r.mode))
    if r.wc is None:
        ctx.ok(m.wc is None, "%s: class weights %s" % (what, m.wc))
    elif ctx.ok(m.wc is not None, what + ": class weights lost"):
        ctx.close(m.wc, r.wc, what + ": class weights", max(exact, 1e-15))
    got, ref = n.get_neurons(), merged(r.G)
    got = [g for g in got if g[0]]
    if not ctx.ok(len(got) == len(ref), "%s: %d neuron types instead of %d" % (what, len(got), len(ref))):
        return False
    L = sum(W.shape[1] for _, W, _ in ref)
    ctx.ok(n.L == L or not L and not n.L, "%s: L=%s instead of %d" % (what, n.L, L))
    for (k, f, W, B), (f2, W2, B2) in zip(got, ref):
        ctx.ok(f == func_of(f2) and k == W2.shape[1], "%s: %s %s instead of %s %s" % (what, k, f, W2.shape[1], f2))
        ctx.close(W, W2, what + ": W of %s" % f2, exact)
        ctx.close(B, B2, what + ": B of %s" % f2, exact)
    P = prec(kind)
    ctx.ok(m.precision == P and n.precision == P, "%s: precision %s/%s" % (what, m.precision, n.precision))
    E = data(7, r.d, "eval")
    if L:
        ctx.close(m.project(E), r.H(E), what + ": projection", max(tl, 1e-9) * 10)
    if r.B is None:
        ctx.ok(n.get_B() is None, what + ": has output weights")
        ctx.raises(lambda: m.predict(E), what + ": predict without a solution")
    else:
        if not ctx.ok(n.get_B() is not None, what + ": output weights lost"):
            return False
        ctx.close(n.get_B(), r.B, what + ": output weights", max(tl, 1e-8) * 30)
        ctx.ok(np.asarray(n.get_B()).dtype == P, "%s: output weights are %s" % (what, np.asarray(n.get_B()).dtype))
        Y = m.predict(E)
        ctx.close(Y, r.H(E).dot(r.B), what + ": predictions", max(tl, 1e-8) * 100)
        T = targets(7, r.c, r.mode or "r", "evalT")
        e = m.error(T, np.asarray(Y))
        lo, hi = err_ref(T, np.asarray(Y), r.mode, r.wc)
        ctx.ok(lo - 1e-5 <= e <= hi + 1e-5 * (1 + hi), "%s: error %r, expected %r" % (what, e, lo))
    if further and L and not ctx.violations:
        train_further(ctx, m, r, what, tl, further)
    return True


def train_further(ctx, m, r, what, tl, how):
    X = data(11, r.d, "further")
    HX = r.H(X)
    t = max(tl, 1e-8) * (300 if tl < 1e-5 else 100)
    fit = lambda B: HX.dot(B)
    E = lambda: np.asarray(m.predict(X))
    if how == 1:        # accumulate from nothing
        T = targets(11, r.c, "r" if r.mode != "wc" else "c", "further")
        sw = None if r.mode != "wc" else r.wc[T.argmax(1)]
        m.add_data(X[:6], T[:6])
        m.add_data(X[6:], T[6:])
        HH, HT = corr(HX, T, r.norm, sw)
        got = m.nnet.get_corr()
        ctx.close(got[1], HT, what + ": HT of further data", t)
        m.nnet.solve()
        ctx.close(E(), fit(ridge(HX, T, r.norm, sw)), what + ": further data", t)
    for mode in ("r", "c", "wc", "wcauto", "ml")[how % 2::2]:
        T = targets(11, r.c, mode[:2], "further2")
        sw = None
        kw = {}
        if mode.startswith("wc"):
            if mode == "wc":
                w = kw["w"] = np.arange(1.0, r.c + 1)
            else:
                w = r.own if r.own is not None else len(T) / T.sum(0)
            sw = w[T.argmax(1)]
        mode = mode[:2]
        m.train(X, T, mode, **kw)
        ctx.close(E(), fit(ridge(HX, T, r.norm, sw)), "%s: trained again as %s" % (what, mode), t)
        ctx.ok(m.classification == (None if mode == "r" else mode), "%s: trained as %s, is %s" % (what, mode, m.classification))
    g = group(r.d, r.joins, 1, "joined")
    add(m, [g])
    H2 = h_ref(X, r.G + [g])
    ctx.close(m.project(X), H2, what + ": one more neuron", max(tl, 1e-9) * 10)
    T = targets(11, r.c, "r", "further3")
    m.train(X, T, "r")
    ctx.close(E(), H2.dot(ridge(H2, T, r.norm)), what + ": trained with one more neuron", t)
    ctx.step(4)


def transfer(a, b, via, i):
    if via == "bytes":
        s = a.dumps()
        if not isinstance(s, bytes):
            raise TypeError("dumps() returned %s" % type(s))
        b.loads(s)
    else:
        f = "model%s.bin" % ("" if via == "same" else i)
        a.save(f)
        b.load(f)


def run(case, ctx):
    s, kind, deep = case["s"], case["kind"], case["deep"]
    m0, r0 = build(s, kind)
    t0 = max(tol(kind), 1e-8 if kind.endswith("b") else 0)
    check(ctx, m0, r0, kind, "%s %s before saving" % (s, kind), t0, 0)
    if ctx.violations:
        return
    i = 0
    for k1 in KINDS:
        for p1 in PRIOR:
            for via in ("bytes", "file", "same"):
                i += 1
                if via == "same" and p1 not in ("fresh", "wc"):
                    continue
                b = prior(p1, k1)
                solver = type(b.nnet)
                transfer(m0, b, via, i)
                what = "%s %s -> %s (%s) by %s" % (s, kind, k1, p1, via)
                tl = max(t0, tol(k1), 1e-8 if k1.endswith("b") else 0)
                ctx.ok(type(b.nnet) is solver, what + ": solver became %s" % type(b.nnet).__name__)
                ctx.ok(b.batch == 4, what + ": batch became %s" % b.batch)
                ok = check(ctx, b, r0, k1, what, tl, 0)
                ctx.state(s, kind, k1, p1, via)
                if not ok or ctx.violations:
                    return
                if case["depth"] > 1 and (via == "bytes" or p1 == "fresh"):
                    chain(ctx, b, r0, k1, what, tl, case["depth"] - 1, i, deep)
                check(ctx, b, r0, k1, what + " then", tl, 1 + i % 2)
                ctx.trace()
                if ctx.violations:
                    return
    # the saved model is as it was, and goes on
    check(ctx, m0, r0, kind, "%s %s after saving and loading elsewhere" % (s, kind), t0, 0)
    if s == "data":
        m0.nnet.solve()
        X, T = data(N, D, "c10"), targets(N, 2, "r", "c10")
        ctx.close(m0.predict(X), r0.H(X).dot(ridge(r0.H(X), T, r0.norm)), "data lost by saving", 1e-4 if kind.endswith("32") else 1e-7)
        r0.B = ridge(r0.H(X), T, r0.norm)
    m0.nnet.reset()
    own = np.array([0.7, 4.1]) if s in ("initwc", "initwc2", "cw", "cwuntrained") else None
    r0.own = own            # constructed with these
    check(ctx, m0, r0, kind, "%s %s after saving" % (s, kind), t0, 1)
    # loading in itself
    m1, r1 = build(s, kind)
    r1.own = own
    m1.loads(m1.dumps())            # accumulated data are not part of a saved model
    check(ctx, m1, r1, kind, "%s %s loaded in itself" % (s, kind), t0, 2)
    # two objects from the same bytes share nothing
    m1, r1 = build(s, kind)
    blob = m1.dumps()
    a, b = mk(kind, D, 2), mk(kind, D, 2)
    a.loads(blob)
    b.loads(blob)
    if r1.G:
        X = data(9, r1.d, "x")
        for g in a.nnet.get_neurons():
            g[2][...] = 0
        a.train(X, targets(9, r1.c), "c")
        check(ctx, b, r1, kind, "%s %s second of two objects" % (s, kind), t0, 1)
        check(ctx, m1, r1, kind, "%s %s source of two objects" % (s, kind), t0, 0)


def chain(ctx, m, r, kind, what, tl, depth, i, deep):
    for k in KINDS:
        if not deep and (KINDS.index(k) + i) % 3:
            continue
        c = prior(PRIOR[(i + KINDS.index(k)) % len(PRIOR)], k)
        transfer(m, c, ("bytes", "file")[(i + depth) % 2], "c%d" % depth)
        w2, t2 = "%s -> %s" % (what, k), max(tl, tol(k))
        if not check(ctx, c, r, k, w2, t2, 0) or ctx.violations:
            return
        ctx.trace()
        if depth > 1 and k in ("elm", "hp:b32"):
            chain(ctx, c, r, k, w2, t2, depth - 1, i + 1, deep)
        check(ctx, c, r, k, w2, t2, 1 + i % 2)
