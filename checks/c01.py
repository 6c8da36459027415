"""C01: trained weights against an independent ridge solution, over mixes x norms x solvers x sizes x targets x sources."""
import itertools

from mc.lib import *

ID = "C01"
LEVEL = "model_checking"
RULE = ("case = (neuron mix, inputs, outputs): all of norms x model classes x solvers x row counts (fewer, equal, more "
        "rows than neurons) x target kinds with explicit class weights x batch sizes x sources; rank-deficient networks "
        "compared on their fit; sizes past the default batch; case 'huge' = 128001 rows, 2561 batches, 486 neurons")
ASSUMPTIONS = ["fixed data and weights; double precision agreement 1e-7 relative on weights when "
               "the stacked system is well conditioned (cond(H'H + norm I) < 1e8), single precision on predictions",
               "rank-deficient fits: the mean squared error on the training set exceeds the optimum by at most 1e-4 of the target "
               "power (1e-3, basic solver 5e-2, with the default norm 1e-14)"]

MIXES = ["lin:2", "tanh:1", "tanh:4", "sigm:5", "rbf_l1:3", "rbf_l2:4", "rbf_linf:3", "np.sin:4", "np.exp2:2,lin:1",
         "scipy.expit:3,np.negative:1", "lin:2,tanh:3", "sigm:2,tanh:2,lin:1", "rbf_l2:2,lin:2,sigm:1",
         "np.arctan:2,rbf_l1:2,tanh:1", "lin:1,sigm:1,tanh:1,rbf_l1:1,rbf_l2:1,rbf_linf:1,np.sin:1", "tanh:12,lin:3"]


def cases(tier):
    deep = tier == "thorough"
    for i, mx in enumerate(MIXES):
        for d, c in (((3, 2), (2, 3)) if not deep else ((1, 1), (3, 2), (2, 3), (4, 12))):
            for kind in ("elm", "elm:b", "elm:32", "elm:b32", "hp", "hp:b", "hp:32", "hp:b32"):
                yield {"k": "mix", "mix": mx, "d": d, "c": c, "kind": kind, "deep": deep}
    for kind in ("elm", "elm:b", "hp", "hp:b"):
        for d, c in ((1, 1), (3, 12), (2, 1), (5, 2)):
            yield {"k": "mix", "mix": "tanh:3,lin:1", "d": d, "c": c, "kind": kind, "deep": True}
        yield {"k": "dup", "kind": kind}
        yield {"k": "big", "kind": kind, "N": 2300, "L": 20}
        yield {"k": "big", "kind": kind, "N": 1000, "L": 20}
        yield {"k": "big", "kind": kind, "N": 1001, "L": 130}
        yield {"k": "src", "kind": kind}
        yield {"k": "huge", "kind": kind}
        yield {"k": "args", "kind": kind}


def optimum(ctx, m, X, T, norm, w, what, kind, sub, fresh=None):
    """The solved model minimises  sum w |H B - T|^2 + norm |B|^2."""
    ctx.step()
    X2, T2 = np.asarray(X, float), np.asarray(T, float)
    if X2.ndim == 1:
        X2 = X2[:, None]
    if T2.ndim == 1:
        T2 = T2[:, None]
    H = np.asarray(m.project(X2), float)
    B = m.nnet.get_B()
    if not ctx.ok(B is not None and np.asarray(B).shape == (H.shape[1], T2.shape[1]), what + ": no solution", sub):
        return
    B = np.asarray(B, float)
    if not ctx.ok(np.all(np.isfinite(B)), what + ": weights not finite", sub):
        return
    R = ridge(H, T2, norm, w)
    HH = H.T.dot(H) if w is None else (H * w[:, None]).T.dot(H)
    cond = np.linalg.cond(HH + norm * np.eye(H.shape[1]))
    single = kind.endswith("32")
    if single:
        if cond < 3e3:
            ctx.close(B, R, what + ": weights", 3e-3, sub)
        if cond < 1e5:
            ctx.close(H.dot(B), H.dot(R), what + ": fitted values", 2e-2, sub)
    elif cond < 1e8:
        ctx.close(B, R, what + ": weights (cond %.1g)" % cond, min(1e-7, max(1e-9, cond * 1e-13)), sub)
    s = np.ones(len(T2)) if w is None else w

    def cost(B):
        return float((s[:, None] * (H.dot(B) - T2) ** 2).sum() + norm * (B ** 2).sum())
    if not single:
        c1, c0 = cost(B), cost(R)
        ctx.ok(c1 <= c0 + 1e-6 * (1 + float((s[:, None] * T2 ** 2).sum())),
               "%s: objective %.9g, optimum %.9g" % (what, c1, c0), sub)
    # predictions are the hidden layer times the weights, on training and other data
    for Z in (X2, fresh):
        if Z is not None:
            Y = m.predict(Z)
            ctx.close(Y, np.asarray(m.project(Z), float).dot(B), what + ": predict is not H.B",
                      1e-9 if not single else 1e-3 * (1 + np.abs(B).max()), sub)


def run(case, ctx):
    {"mix": mixes, "dup": dup, "big": big, "src": sources, "args": args, "huge": huge}[case["k"]](case, ctx)


def fit(kind, d, c, groups, norm, mode, w, batch, X, T, asfile=False, **kw):
    m = add(mk(kind, d, c, norm=norm, batch=batch), groups)
    a = [] if mode == "r" else [mode]
    k = dict(kw)
    if mode == "wc":
        k["w"] = np.array(w)
    if asfile:
        X, T = h5put("x.h5", X), h5put("t.h5", T)
    m.train(X, T, *a, **k)
    return m


def mixes(case, ctx):
    d, c, kind, deep = case["d"], case["c"], case["kind"], case["deep"]
    G = spec_mix(d, case["mix"])
    L = sum(g[0] for g in G)
    w = tuple([0.7, 3.1, 1, 2][i % 4] for i in range(c))
    single, mx_odd = kind.endswith("32"), MIXES.index(case["mix"]) % 2 == 1 if case["mix"] in MIXES else True
    norms = (None, 0.0, 1e-6, 0.5, 10.0) if not single else (1e-3, 0.5, 10.0)
    F = data(5, d, "fresh")
    for N in sorted({1, 2, L - 1, L, L + 1, 2 * L + 3, 40} - {0}):
        X = data(N, d)
        H = h_ref(X, G)
        for mode in (("r", "c", "wc", "ml") if c > 1 else ("r",)):
            T = targets(N, c, mode)
            sw = np.array(w)[T.argmax(1)] if mode == "wc" else None
            for norm in norms:
                if norm in (0.0, None) and (N < L + 1 or np.linalg.cond(H) > 1e5):
                    continue
                nv = 50 * np.finfo(prec(kind)).eps if norm is None else norm
                for batch in ((1000, 3) if not deep else (1, 2, 3, max(1, N - 1), N, N + 1, 1000)):
                    if mode in ("c", "ml") and batch != 3 and not deep:
                        continue
                    asfile = (kind.startswith("hp") or deep or mx_odd) and batch == 3 and norm in (None, 0.5)
                    m = fit(kind, d, c, G, norm, mode, w, batch, X, T, asfile)
                    what = "%s N=%d %s norm=%s batch=%d%s" % (kind, N, mode, norm, batch, " HDF5" if asfile else "")
                    optimum(ctx, m, X, T, nv, sw, what, kind, None, F)
                    ctx.state(case["mix"], d, c, kind, N, mode, norm, batch, asfile)
                    ctx.trace()


def dup(case, ctx):
    """Duplicated neurons, more neurons than rows: the fit is as good as the best one."""
    kind = case["kind"]
    for d, c, mx in ((2, 2, "tanh:3"), (3, 1, "lin:3"), (2, 3, "sigm:2,rbf_l2:2"), (3, 2, "np.sin:3"), (2, 2, "tanh:15")):
        G = spec_mix(d, mx)
        for rep in (1, 2, 3):
            for N in (2, 4, 9, 30):
                L = sum(g[0] for g in G) * rep
                if rep == 1 and N >= L:
                    continue
                X, T = data(N, d, "dup"), targets(N, c, "r", "dup")
                for norm in (None, 1e-8, 1e-3):
                    for batch in (1000, 4):
                        m = mk(kind, d, c, norm=norm, batch=batch)
                        for _ in range(rep):
                            add(m, G)
                        m.train(X, T)
                        nv = 50 * np.finfo(float).eps if norm is None else norm
                        H = np.asarray(m.project(X))
                        Y = np.asarray(m.predict(X), float)
                        best = H.dot(ridge(H, T, nv))
                        e1, e0 = ((Y - T) ** 2).mean(), ((best - T) ** 2).mean()
                        what = "%s x%d N=%d norm=%s batch=%d" % (mx, rep, N, norm, batch)
                        # with the default norm (1e-14) a pseudo-inverse of H'H is only accurate to some digits
                        tol = 1e-4 if norm else 0.05 if kind.endswith("b") else 1e-3
                        ctx.ok(np.all(np.isfinite(Y)) and e1 <= e0 + tol * (T ** 2).mean(),
                               "%s: training error %.6g, optimum %.6g" % (what, e1, e0))
                        ctx.step()
                        ctx.state("dup", mx, rep, N, norm, batch)
                        ctx.trace()

    # neurons without any output on the data, before, between and after others
    dead = (1, "rbf_l2", np.full((2, 1), 1e3), np.array([0.5]))
    for place in itertools.product((0, 1, 2), repeat=2):
        G = [g for i in range(3) for g in [dead] * place.count(i) + ([group(2, ("tanh", "lin")[i], 2)] if i < 2 else [])]
        for N in (2, 9, 30):
            X, T = data(N, 2, "dup"), targets(N, 2, "r", "dup")
            H = h_ref(X, G)
            for norm in (0.0, None, 1e-3, 0.5):
                if norm in (0.0, None) and N < 9:
                    continue
                m = add(mk(kind, 2, 2, norm=norm, batch=4), G)
                m.train(X, T)
                best = H.dot(ridge(H, T, norm or 0.0))
                what = "dead neurons at %s N=%d norm=%s" % (place, N, norm)
                ctx.close(m.predict(X), best, what, 1e-7)
                ctx.step()
                ctx.state("dead", place, N, norm)
                ctx.trace()


def big(case, ctx):
    kind, N, L = case["kind"], case["N"], case["L"]
    d, c = 5, 3
    G = spec_mix(d, "tanh:%d,lin:2,rbf_l2:4" % (L - 6))
    X = data(N, d, "big")
    for mode in ("r", "wc"):
        T = targets(N, c, mode, "big")
        w = (1.0, 4.0, 0.5)
        sw = np.array(w)[T.argmax(1)] if mode == "wc" else None
        for norm in (1e-4, 100.0):
            for batch, asfile in ((1000, False), (999, True), (5000, False), (64, True)):
                m = fit(kind, d, c, G, norm, mode, w, batch, X, T, asfile)
                optimum(ctx, m, X, T, norm, sw, "%s N=%d L=%d %s batch=%d" % (kind, N, L, mode, batch), kind, None,
                        data(9, d, "fb"))
                ctx.state("big", kind, N, L, mode, norm, batch)
                ctx.trace()
    m = add(mk(kind, d, c, norm=1e-4), G)       # default batch
    T = targets(N, c, "r", "big")
    m.train(X, T)
    optimum(ctx, m, X, T, 1e-4, None, "%s default batch N=%d" % (kind, N), kind, None)


def huge(case, ctx):
    """Very many rows, very many batches, many neurons, against the reference model only."""
    kind = case["kind"]
    d, c = 2, 2
    for N, spec, batches, ops in ((HUGE, "tanh:2,lin:1,rbf_l2:1", (None, 4096, 10 ** 6), ("arr", "h5")), (2561, "tanh:2,lin:1", (1, 10), ("arr", "h5")),
                                  (1601, "sigm:129,rbf_l1:65,rbf_l2:257,lin:2,np.sin:33", (None, 7), ("arr",))):
        G = spec_mix(d, spec, "huge")
        X, T = data(N, d, "huge"), targets(N, c, "wc", "huge")
        H = h_ref(X, G)
        R = data(N, c, "hugeT") + H[:, :2]
        norm = 2.0 if N > 2000 else 50.0
        for how in ops:
            fx, ft, fr = src(X, how, "x"), src(T, how, "t"), src(R, how, "r")
            for b in batches:
                if (how == "h5") != (b == batches[0]) and kind not in ("elm", "hp"):
                    continue
                m = add(mk(kind, d, c, norm=norm, **({} if b is None else {"batch": b})), G)
                for mode in ("r", "wc"):
                    w = (0.75, 2.0)
                    m.train(fx, fr if mode == "r" else ft, mode, **({} if mode == "r" else {"w": w}))
                    what = "%s N=%d %s %s batch %s %s" % (kind, N, spec, how, b, mode)
                    Z = R if mode == "r" else T
                    B = ridge(H, Z, norm, None if mode == "r" else np.array(w)[T.argmax(1)])
                    ctx.close(m.nnet.get_B(), B, what + ": weights", 1e-8)
                    ctx.step()
                    Xi = X if not kind.startswith("hp") else fx
                    ctx.close(m.project(Xi), H, what + ": project", 1e-10)
                    Y = m.predict(Xi)
                    ctx.close(Y, H.dot(B), what + ": predict", 1e-8)
                    if mode == "r":
                        ctx.close(m.error(fr, Y), ((H.dot(B) - R) ** 2).mean(), what + ": error", 1e-9)
                    else:
                        a, q = T.argmax(1), np.asarray(Y).argmax(1)
                        ctx.ok(np.array_equal(m.confusion(ft, Y), [[((a == i) & (q == j)).sum() for j in range(c)] for i in range(c)]), what + ": confusion")
                    ctx.state("huge", kind, N, how, b, mode)
                    ctx.trace()


def sources(case, ctx):
    """Layouts, dtypes, 1-d data and files give the same optimum."""
    kind = case["kind"]
    for d, c in ((3, 2), (1, 1)):
        G = spec_mix(d, "tanh:3,lin:1")
        for N in (5, 17):
            Xi = rs("xi", N, d).randint(-4, 5, size=(N, d))
            Ti = rs("ti", N, c).randint(0, 4, size=(N, c))
            hows = ["arr", "F", "view", "rev", "ro", "h5", "h5e"]
            for hx, ht in itertools.product(hows, hows):
                for dx, dt in itertools.product((np.float64, np.float32, np.int64, np.int8), repeat=2) \
                        if (hx, ht) in (("arr", "arr"), ("h5", "h5")) else ((np.float64, np.float64), (np.int32, np.int32)):
                    X, T = src(Xi, hx, "x", dx), src(Ti, ht, "t", dt)
                    m = add(mk(kind, d, c, norm=0.25, batch=4), G)
                    m.train(X, T)
                    optimum(ctx, m, Xi, Ti, 0.25, None, "%s %s/%s %s/%s" % (kind, hx, ht, np.dtype(dx), np.dtype(dt)),
                            kind, None)
                    ctx.state("src", kind, N, d, hx, ht, np.dtype(dx).str, np.dtype(dt).str)
            if d == 1:
                for X, T in ((Xi[:, 0], Ti), (Xi, Ti[:, 0]), (Xi[:, 0], Ti[:, 0])):
                    m = add(mk(kind, d, c, norm=0.25, batch=4), G)
                    m.train(X.astype(float), T.astype(float))
                    optimum(ctx, m, Xi, Ti, 0.25, None, "%s 1-d" % kind, kind, None)
            ctx.trace()
    # boolean and unsigned data
    X, T = data(20, 2) > 0, targets(20, 3, "ml").astype(np.uint8)
    G = spec_mix(2, "tanh:2,lin:1,rbf_l1:1")
    for A, B in ((X, T), (X, T.astype(bool)), (X.astype(np.uint8), T)):
        m = add(mk(kind, 2, 3, norm=0.25, batch=7), G)
        m.train(A, B, "ml")
        optimum(ctx, m, X.astype(float), T.astype(float), 0.25, None, "%s bool/uint8" % kind, kind, None)


def args(case, ctx):
    """Ways to ask for the same training."""
    kind = case["kind"]
    d, c, N = 3, 3, 25
    G = spec_mix(d, "tanh:3,rbf_l2:2")
    X = data(N, d)
    w = (2.0, 1.0, 0.5)
    for mode in ("r", "c", "wc", "ml"):
        T = targets(N, c, mode)
        sw = np.array(w)[T.argmax(1)] if mode == "wc" else None
        names = {"r": ["r", "R", None], "c": ["c", "C"], "wc": ["wc", "WC"], "ml": ["ml", "ML", "mc", "MC"]}[mode]
        for nm in names:
            for init in (False, True):
                if init and nm is None:
                    continue
                for batch in (None, 1, 4, 25, 26):
                    for W in (np.array(w), list(w), tuple(w)):
                        if mode != "wc" and not isinstance(W, tuple):
                            continue
                        kw = {}
                        if batch:
                            kw["batch"] = batch
                        if init:
                            m = add(mk(kind, d, c, nm, w=W, norm=0.5, **kw), G)
                            m.train(X, T)
                        else:
                            m = add(mk(kind, d, c, norm=0.5), G)
                            if mode == "wc":
                                kw["w"] = W
                            m.train(X, T, *([nm] if nm else []), **kw)
                        optimum(ctx, m, X, T, 0.5, sw, "%s %s init=%s batch=%s" % (kind, nm, init, batch), kind, None)
                        ctx.state("args", kind, nm, init, batch)
        ctx.trace()
    # integer weights and norms
    T = targets(N, c, "wc")
    sw = np.array([2, 1, 3])[T.argmax(1)].astype(float)
    m = add(mk(kind, d, c, norm=2), G)
    m.train(X, T, "wc", w=[2, 1, 3])
    optimum(ctx, m, X, T, 2.0, sw, "%s integer weights and norm" % kind, kind, None)
