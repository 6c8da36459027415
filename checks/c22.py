"""C22: class weights as repeated rows, on all small label sequences."""
import itertools

from mc.lib import *

ID = "C22"
LEVEL = "model_checking"
RULE = ("case 'labels' = (classes, rows, class of the first rows, model class and solver): all label sequences x all integer weight vectors from "
        "{0,1,2,3} x batch sizes: training with weights equals training unweighted on repeated rows; equal weights; scaling of weights and "
        "norm; automatic weights over exactly the rows used (all ranges); permuted classes; all ways to give weights x sources; case 'mss' = "
        "model structure selection with weights; case 'async'")
ASSUMPTIONS = ["targets of weighted classification have exactly one 1 per row", "automatic weights of classes without samples only have to be finite",
               "automatic weights of data added in parts follow the first part"]
TIMEOUT = 400
D = 2
NET = "tanh:2,lin:1"


def cases(tier):
    deep = tier == "thorough"
    kinds = ("elm", "hp", "elm:b", "hp:b") if not deep else ("elm", "hp", "elm:b", "hp:b", "elm:32", "hp:32")
    for kind in kinds:
        main = kind in ("elm", "hp")
        for c, ns in ((2, (2, 3, 4, 5, 6) if main or deep else (3, 5)), (3, (3, 4, 5) if deep else (3, 4) if main else (4,)), (4, (4,) if deep else ())):
            for n in ns:
                for a in range(c):
                    yield {"k": "labels", "c": c, "n": n, "first": a, "kind": kind, "deep": deep}
    for kind in ("elm", "hp", "elm:b", "hp:b", "elm:32", "hp:32"):
        for c in (2, 3):
            yield {"k": "give", "c": c, "kind": kind}
        yield {"k": "big", "kind": kind}
    for kind in ("hp", "hp:b"):
        for c in (2, 3):
            yield {"k": "async", "c": c, "kind": kind, "deep": deep}
            yield {"k": "range", "c": c, "kind": kind, "deep": deep}
    for kind in ("elm", "elm:b"):
        for meth in ("V", "CV", "LOO"):
            for c in (2, 3):
                for op in (False, True):
                    yield {"k": "mss", "meth": meth, "c": c, "op": op, "kind": kind}


def tols(kind):
    return 3e-4 if kind.endswith("32") else 1e-8


def fit(kind, X, T, cl, norm, batch, w=None, asfile=False, net=NET, **kw):
    m = add(mk(kind, X.shape[1], T.shape[1], norm=norm, batch=batch), spec_mix(X.shape[1], net, "c22"))
    if w is not None:
        kw["w"] = w
    if asfile:
        X, T = h5put("fx.h5", X), h5put("ft.h5", T)
    m.train(X, T, cl, **kw)
    return m


def run(case, ctx):
    {"labels": label_seqs, "give": give, "big": big, "async": asynch, "range": ranges, "mss": mss}[case["k"]](case, ctx)


def label_seqs(case, ctx):
    c, n, kind = case["c"], case["n"], case["kind"]
    P = data(5, D, "c22p")
    tol = tols(kind)
    G = spec_mix(D, NET, "c22")
    weights = list(itertools.product((0, 1, 2, 3), repeat=c)) if n < 5 or case["deep"] else list(itertools.product((1, 2, 3), repeat=c))[::2]
    if c > 2 and not case["deep"]:
        weights = weights[1::5]
    for tail in itertools.product(range(c), repeat=n - 1):
        y = np.array((case["first"],) + tail)
        X, T = data(n, D, ("c22", n)), onehot(y, c)
        if n >= 4 and not case["deep"] and len(set(y)) == 1:
            continue
        H = h_ref(X, G)
        for wi, w in enumerate(weights):
            w = np.array(w, float)
            rep = np.repeat(np.arange(n), w[y].astype(int))
            if len(rep) == 0:
                continue
            batch = 1 + (wi + int(y.sum())) % (n + 1)
            what = "%s labels %s weights %s batch %d" % (kind, y.tolist(), w.tolist(), batch)
            m = fit(kind, X, T, "wc", 0.5, batch, w)
            r = fit(kind, X[rep], T[rep], "c", 0.5, 100)
            a = m.predict(P)
            ok = ctx.close(a, r.predict(P), what + ": repeated rows", tol)
            ok = ctx.close(a, h_ref(P, G).dot(ridge(H, T, 0.5, w[y])), what + ": weighted least squares", tol) and ok
            if wi % 4 == 0:
                ok = ctx.close(fit(kind, X, T, "wc", 2.0, batch, 4 * w).predict(P), a, what + ": weights and norm times 4", tol) and ok
                p = np.arange(c)[::-1]
                ok = ctx.close(fit(kind, X, T[:, p], "wc", 0.5, batch, w[p]).predict(P)[:, p], a, what + ": classes in reverse", tol) and ok
            if wi % 3 == 0:
                ok = ctx.close(fit(kind, X, T, "wc", 0.5, batch, w, True).predict(P), a, what + ": from HDF5", tol) and ok
            ctx.step()
            ctx.state(kind, c, y.tolist(), w.tolist(), batch)
            if not ok:
                return
        for k in (1.0, 0.25, 3):
            for batch in (1, 2, 100):
                what = "%s labels %s all weights %s batch %d" % (kind, y.tolist(), k, batch)
                m, r = fit(kind, X, T, "wc", 0.75, batch, np.full(c, k)), fit(kind, X, T, "c", 0.75 / k, batch)
                ctx.close(m.predict(P), r.predict(P), what, tol)
                ctx.step()
        cnt = T.sum(0)
        w = n / np.maximum(cnt, 1)
        for batch in range(1, n + 2):
            for asfile in ((False, True) if batch in (1, 2) else (False,)):
                what = "%s labels %s automatic weights batch %d" % (kind, y.tolist(), batch)
                m = fit(kind, X, T, "wc", 0.5, batch, None, asfile)
                ctx.close(m.predict(P), h_ref(P, G).dot(ridge(H, T, 0.5, w[y])), what, tol)
                weighs(ctx, m, c, w, what, cnt == 0)
                ctx.step()
                ctx.state(kind, c, y.tolist(), "auto", batch)
        ctx.trace()
        if len(ctx.violations) > 3:
            return


def weighs(ctx, m, c, w, what, absent=None):
    """The error of predictions that are wrong for one class only shows the weight of this class."""
    T = np.eye(c)
    if absent is not None and np.any(absent):
        Y = np.roll(T, 1, axis=1)
        ctx.ok(abs(m.error(T, Y) - 1) < 1e-6 and m.error(T, T) == 0, "%s: error of all-wrong predictions is %s" % (what, m.error(T, Y)))
        return
    for k in range(c):
        Y = np.eye(c)
        Y[k] = np.eye(c)[(k + 1) % c]
        e = m.error(T, Y)
        ctx.ok(abs(e - w[k] / np.sum(w)) < (1e-6 if m.precision is np.float32 else 1e-10), "%s: error with class %d wrong is %s, weights %s" % (what, k, e, w))


def give(case, ctx):
    """All ways to give weights; they are used as given, also for later training, and in place of automatic ones."""
    c, kind = case["c"], case["kind"]
    tol = tols(kind)
    n = 9
    X, T = data(n, D, "give"), targets(n, c, "c", "give")
    X2, T2 = data(6, D, "give2"), targets(6, c, "c", "give2")
    P = data(4, D, "givep")
    y, y2 = T.argmax(1), T2.argmax(1)
    G = spec_mix(D, NET, "c22")
    H, H2, HP = h_ref(X, G), h_ref(X2, G), h_ref(P, G)
    for w0 in ([2, 1, 3][:c], [0.7, 3.1, 1.3][:c], [0.25, 4, 1][:c], [1e-3, 1e3, 1][:c], [100, 1, 7][:c]):
        forms = [list(w0), tuple(w0), np.array(w0), np.array(w0, float)] + [np.array(w0, np.float32)] * (w0[0] not in (0.7, 1e-3))
        if all(float(v).is_integer() for v in w0):
            forms += [np.array(w0, np.int8), np.array(w0, np.int32), np.array(w0, np.uint16)]
        wf = np.array(w0, float)
        B = ridge(H, T, 0.5, wf[y])
        t = tol * 100 if max(w0) > 50 else tol
        for fi, w in enumerate(forms):
            for how in ("train", "ctor", "both", "override", "again", "data", "dtype", "saved"):
                what = "%s weights %r given by %s" % (kind, w, how)
                kw = {"norm": 0.5, "batch": 4}
                Tx = T
                if how == "train":
                    m = add(mk(kind, D, c, **kw), G)
                    m.train(X, T, "wc", w=w)
                elif how == "ctor":
                    m = add(mk(kind, D, c, "wc", w, **kw), G)
                    m.train(X, T)
                elif how == "both":
                    m = add(mk(kind, D, c, "wc", [1] * c, **kw), G)
                    m.train(X, T, "wc", w=w)
                elif how == "override":     # automatic weights first
                    m = add(mk(kind, D, c, **kw), G)
                    m.train(X2, T2, "wc")
                    m.train(X, T, "WC", w=w)
                elif how == "again":        # weights of the constructor hold for every training
                    m = add(mk(kind, D, c, "wc", w, **kw), G)
                    m.train(X2, T2)
                    ctx.close(m.predict(P), HP.dot(ridge(H2, T2, 0.5, wf[y2])), what + ": first", t)
                    m.train(X2, T2, "wc", w=[1] * c)
                    ctx.close(m.predict(P), HP.dot(ridge(H2, T2, 0.5)), what + ": second", t)
                    m.train(X2, T2, "c")
                    m.train(X, T)
                elif how == "data":         # parts with the same weights
                    m = add(mk(kind, D, c, "wc", w, **kw), G)
                    m.add_data(X[:4], T[:4])
                    m.add_data(X[4:], T[4:])
                    m.nnet.solve()
                elif how == "dtype":
                    m = add(mk(kind, D, c, **kw), G)
                    m.train(X, T.astype(int), "wc", w=w)
                else:
                    m0 = add(mk(kind, D, c, "wc", w, **kw), G)
                    m0.train(X2, T2)
                    m0.save("m.m")
                    m = mk(kind, D, c, **kw)
                    m.load("m.m")
                    weighs(ctx, m, c, wf, what)
                    m.nnet.reset()
                    m.add_data(X, T)
                    m.nnet.solve()
                ctx.close(m.predict(P), HP.dot(B), what, t)
                weighs(ctx, m, c, wf, what)
                ctx.step()
                ctx.state(kind, c, tuple(w0), fi, how)
            ctx.trace()
    # automatic weights belong to the data of each training
    m = add(mk(kind, D, c, norm=0.5, batch=4), G)
    for Xa, Ta, Ha in ((X, T, H), (X2, T2, H2), (X[:7], T[:7], H[:7]), (X, T, H)):
        m.train(Xa, Ta, "wc")
        wa = len(Ta) / Ta.sum(0)
        ctx.close(m.predict(P), HP.dot(ridge(Ha, Ta, 0.5, wa[Ta.argmax(1)])), "%s automatic again" % kind, tol)
        weighs(ctx, m, c, wa, "%s automatic again" % kind)
        ctx.step()


def big(case, ctx):
    """Many rows and batches, unbalanced classes."""
    kind = case["kind"]
    n, c = 1500, 3
    X = data(n, D, "big")
    y = np.zeros(n, int)
    y[::10], y[1203] = 1, 2
    T = onehot(y, c)
    P = data(4, D, "bigp")
    G = spec_mix(D, NET, "c22")
    H = h_ref(X, G)
    for w in (None, [1, 7, 200]):
        wf = n / T.sum(0) if w is None else np.array(w, float)
        B = ridge(H, T, 0.5, wf[y])
        for batch in (7, 100, 1000, 1499, 1500, 1501):
            for asfile in (False, True):
                m = fit(kind, X, T, "wc", 0.5, batch, w, asfile)
                what = "%s big, weights %s batch %d" % (kind, w, batch)
                ctx.close(m.predict(P), h_ref(P, G).dot(B), what, tols(kind) * 100)
                weighs(ctx, m, c, wf, what)
                ctx.step()
                ctx.state("big", kind, w, batch, asfile)
    ctx.trace()


LABELS = {2: ([0, 0, 0, 1, 1, 0, 1, 1, 1], [1, 1, 1, 1, 0, 1, 1, 0, 0]), 3: ([0, 0, 1, 2, 2, 2, 0, 1, 1], [2, 1, 0, 0, 0, 0, 1, 2, 2])}


def ranges(case, ctx):
    """All ranges of rows of a file: automatic weights count only the rows of the range."""
    c, kind = case["c"], case["kind"]
    for labels in LABELS[c]:
        one_range(case, ctx, labels[:9 if case["deep"] else 7])


def one_range(case, ctx, labels):
    c, kind, n = case["c"], case["kind"], len(labels)
    X, T = data(n, D, "rng"), onehot(np.array(labels), c)
    G = spec_mix(D, NET, "c22")
    P = data(4, D, "rngp")
    H, HP = h_ref(X, G), h_ref(P, G)
    fx, ft = h5put("x.h5", X), h5put("t.h5", T)
    for i in range(n):
        for cnt in range(1, n - i + 1):
            Tr = T[i:i + cnt]
            wa = cnt / np.maximum(Tr.sum(0), 1)
            ref = HP.dot(ridge(H[i:i + cnt], Tr, 0.5, wa[Tr.argmax(1)]))
            for batch in (1, 2, 3, 100):
                for how in ("train", "array", "files"):
                    m = add(mk(kind, D, c, "wc" if how == "files" else "", norm=0.5, batch=batch), G)
                    what = "%s rows %d..%d batch %d %s" % (kind, i, i + cnt, batch, how)
                    if how == "files":
                        for f in ("HH.h5", "HT.h5"):
                            if os.path.exists(f):
                                os.remove(f)
                        m.add_data(fx, ft, istart=i, icount=cnt, fHH="HH.h5", fHT="HT.h5")
                        m.solve_corr("HH.h5", "HT.h5")
                    elif how == "train":
                        m.train(fx, ft, "wc", istart=i, icount=cnt)
                    else:
                        m.train(X, T, "wc", istart=i, icount=cnt)
                    ctx.close(m.predict(P), ref, what, tols(kind))
                    weighs(ctx, m, c, wa, what, Tr.sum(0) == 0)
                    ctx.step()
                    ctx.state("range", kind, c, i, cnt, batch, how)
        ctx.trace()


def asynch(case, ctx):
    c, kind = case["c"], case["kind"]
    for labels in LABELS[c]:
        one_async(case, ctx, labels[:8])


def one_async(case, ctx, labels):
    c, kind, n = case["c"], case["kind"], len(labels)
    X, T = data(n, D, "rng"), onehot(np.array(labels), c)
    G = spec_mix(D, NET, "c22")
    P = data(4, D, "rngp")
    H, HP = h_ref(X, G), h_ref(P, G)
    fx, ft = h5put("x.h5", X), h5put("t.h5", T)
    for i, cnt in ((0, n), (1, 4), (2, 5), (1, 7), (3, 5)) if not case["deep"] else [(i, k) for i in range(n) for k in range(1, n - i + 1)]:
        Tr = T[i:i + cnt]
        for w in (None, [2, 1, 3][:c]):
            if w is None and Tr.sum(0).min() == 0:
                continue
            wf = cnt / Tr.sum(0) if w is None else np.array(w, float)
            for batch in (2, 100):
                m = add(mk(kind, D, c, norm=0.5, batch=batch), G)
                kw = {} if w is None else {"w": w}
                m.train_async(fx, ft, "wc", istart=i, icount=cnt, **kw)
                what = "%s async rows %d..%d weights %s batch %d" % (kind, i, i + cnt, w, batch)
                ctx.close(m.predict(P), HP.dot(ridge(H[i:i + cnt], Tr, 0.5, wf[Tr.argmax(1)])), what, tols(kind))
                weighs(ctx, m, c, wf, what)
                ctx.step()
                ctx.state("async", kind, c, i, cnt, w, batch)
    ctx.trace()


def mss(case, ctx):
    """After model structure selection the solution of the remaining neurons is weighted."""
    c, kind, meth = case["c"], case["kind"], case["meth"]
    n = 24
    P = data(4, D, "mssp")
    for key in range(3):
        X, T = data(n, D, ("mss", key)), targets(n, c, "c", ("mss", key))
        Xv, Tv = data(10, D, ("mssv", key)), targets(10, c, "c", ("mssv", key))
        for w in (None, [5, 1, 2][:c], np.array([1, 8, 3][:c])):
            for batch in (5, 100):
                for ctor in (False, True):
                    if ctor and w is None:
                        continue
                    m = mk(kind, D, c, "wc" if ctor else "", w if ctor else None, norm=0.5, batch=batch)
                    add(m, spec_mix(D, "tanh:4,lin:2,rbf_l2:2", ("mss", key)))
                    args = [meth] + (["OP"] if case["op"] else []) + ([] if ctor else ["wc"])
                    kw = {} if w is None or ctor else {"w": w}
                    if meth == "V":
                        kw.update(Xv=Xv, Tv=Tv)
                    if meth == "CV":
                        kw["k"] = 4
                    np.random.seed(key)
                    m.train(X, T, *args, **kw)
                    what = "%s %s op=%s weights %s batch %d ctor %s" % (kind, meth, case["op"], w, batch, ctor)
                    wf = n / T.sum(0) if w is None else np.array(w, float)
                    cols = pruned(m)
                    H, HP = [np.stack([h_col(Z, *k) for k in cols], 1) for Z in (X, P)]
                    ctx.close(m.predict(P), HP.dot(ridge(H, T, 0.5, wf[T.argmax(1)])), what, 1e-9)
                    weighs(ctx, m, c, wf, what)
                    ctx.step()
                    ctx.state("mss", kind, meth, c, case["op"], str(w), batch, ctor, key)
            ctx.trace()
