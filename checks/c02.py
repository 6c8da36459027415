"""C02: every batch size gives the results of one batch, for every operation, mode, class and source."""
import itertools

from mc.lib import *

ID = "C02"
LEVEL = "model_checking"
RULE = ("case = (class:solver, mode, rows N, outputs, source): all batch sizes 1..N+2 and 1000 x ways to set the batch "
        "size x train/predict/project/error/confusion/add_data/model selection, each compared with the same call in one "
        "batch; plus row counts around 1000-2500 with batch sizes around their divisors")
ASSUMPTIONS = ["agreement up to 1e-8 relative in double and 2e-3 in single precision (regularised networks)",
               "model selection is compared for the deterministic ranking ('OP')"]
TIMEOUT = 120


def cases(tier):
    deep = tier == "thorough"
    Ns = (1, 2, 3, 4, 5, 6, 7, 8, 11) if not deep else tuple(range(1, 18)) + (24, 31)
    for kind in ("elm", "elm:b", "hp", "hp:b", "elm:32", "hp:32"):
        for mode in ("r", "c", "wc", "wcw", "ml"):
            for N in Ns:
                if kind.endswith("32") and N not in (5, 8) and not deep:
                    continue
                for source in (("arr", "h5") if kind.startswith("hp") else ("arr",)):
                    yield {"k": "small", "kind": kind, "mode": mode, "N": N, "c": 2 if N % 2 else 3, "src": source}
            for N in (999, 1000, 1001, 2000, 2001, 2500):
                if not deep and N not in (1001, 2000) or kind.endswith("32"):
                    continue
                for source in (("arr", "h5") if kind.startswith("hp") else ("arr",)):
                    yield {"k": "large", "kind": kind, "mode": mode, "N": N, "c": 3, "src": source}
    for kind in ("elm", "elm:b"):
        for method in ("V", "CV", "LOO"):
            for mode in ("r", "c", "wcw", "wc"):
                yield {"k": "mss", "kind": kind, "mode": mode, "method": method}


def run(case, ctx):
    if case["k"] == "mss":
        return mss(case, ctx)
    kind, mode, N, c, source = case["kind"], case["mode"], case["N"], case["c"], case["src"]
    d = 2 if N < 100 else 4
    if mode == "wc" and N < c:
        return      # automatic weights of absent classes are not finite
    G = spec_mix(d, "tanh:3,lin:1,rbf_l2:1" if N < 100 else "tanh:6,sigm:3,rbf_linf:2,np.sin:2")
    X = data(N, d, "c2")
    T = targets(N, c, mode[:2], "c2")
    E = data(N, d, "eval")
    P = dyadic((N, c), "P") + np.arange(c) / 64.0
    if mode == "ml":
        P[::2] = np.where(P[::2] > 0, 0.5, 0.625)
    fx, ft, fe, fp = [src(a, source, n) for a, n in ((X, "x"), (T, "t"), (E, "e"), (P, "p"))]
    if N < 100:
        bs = list(range(1, N + 3)) + [1000]
        if source == "h5" and N > 8:
            bs = [1, 2, 3, 4, N // 2, N - 1, N, N + 1, 1000]
    else:
        bs = ([1, 3] if N == 1001 and source == "arr" and mode in ("r", "wcw") else []) + [17, 100, 250, 333, 499, 500, 501, 999, 1000, 1001, N - 1, N, N + 1, 10 ** 6]
    hp = kind.startswith("hp")

    def everything(b, how):
        if how == "init":
            m = add(mk(kind, d, c, "", norm=0.5, batch=b), G)
        else:
            m = add(mk(kind, d, c, "", norm=0.5), G)
        kw = {}
        if how == "train":
            kw["batch"] = b
        if mode == "wcw":
            kw["w"] = np.array([0.5, 3, 1][:c])
        if how == "attr":
            m.batch = b
        m.train(fx, ft, mode[:2], **kw)
        r = {"B": np.array(m.nnet.get_B()), "predict": m.predict(fe), "project": m.project(fe),
             "error": m.error(ft, fp), "own error": m.error(T, m.predict(X)),
             "wc": np.array([0.0] if m.wc is None else m.wc)}
        if mode != "r":
            r["confusion"] = m.confusion(ft, fp)
        if hp:
            Y, H = np.full((N, c), 7.0), np.full((N, m.nnet.L), 7.0)
            m.predict(fe, Y)
            m.project(fe, H)
            r["predict into array"], r["project into array"] = Y, H
            if source == "h5":
                m.predict(fe, "y.h5")
                m.project(fe, "h.h5")
                r["predict into file"], r["project into file"] = h5get("y.h5"), h5get("h.h5")
        if how == "attr" and mode != "wc":      # accumulated in two calls
            m2 = add(mk(kind, d, c, mode[:2], w=kw.get("w"), norm=0.5, batch=b), G)
            h = (N + 1) // 2
            m2.add_data(X[:h], T[:h])
            if N > h:
                m2.add_data(X[h:], T[h:])
            HH, HT = m2.nnet.get_corr()
            r["HT"] = np.array(HT)
            m2.nnet.solve()
            r["B of two parts"] = np.array(m2.nnet.get_B())
        return r

    tol = 1e-8 if not kind.endswith("32") else 2e-3
    ref = {}
    for how in ("init", "train", "attr"):
        ref.update(everything(N, how))
    for b in bs:
        for how in ("init", "train", "attr"):
            if source == "h5" and how != ("init", "train", "attr")[b % 3] and N > 4:
                continue
            res = everything(b, how)
            for k, v in res.items():
                ctx.step()
                ctx.close(v, ref[k], "%s %s N=%d batch=%d (set by %s): %s" % (kind, mode, N, b, how, k), tol)
            ctx.state(kind, mode, N, c, source, b, how)
            ctx.trace()
            if len(ctx.violations) > 4:
                return


def mss(case, ctx):
    kind, mode, method = case["kind"], case["mode"], case["method"]
    d, c = 3, 3
    for N in (12, 25):
        G = spec_mix(d, "tanh:5,sigm:2,lin:1")
        X = data(N, d, "mss")
        T = targets(N, c, mode[:2], "mss")
        if mode == "r":
            T = np.stack([np.sin(X[:, 0]), X[:, 1] + X[:, 2] ** 2, np.tanh(X[:, 0] - X[:, 1])], 1)
        Xv = data(14, d, "mssv")
        Tv = targets(14, c, mode[:2], "mssv") if mode != "r" else \
            np.stack([np.sin(Xv[:, 0]), Xv[:, 1] + Xv[:, 2] ** 2, np.tanh(Xv[:, 0] - Xv[:, 1])], 1)
        ref = None
        for b in [1000] + list(range(1, N + 3)):
            m = add(mk(kind, d, c, norm=0.01, batch=b), G)
            kw = {"V": {"Xv": Xv, "Tv": Tv}, "CV": {"k": 4}, "LOO": {}}[method]
            if mode == "wcw":
                kw["w"] = np.array([0.5, 3, 1])
            e = m.train(X, T, mode[:2], method, "OP", **kw)
            res = (e, pruned(m), np.array(m.nnet.get_B()), m.predict(Xv))
            ctx.step()
            ctx.trace()
            ctx.state(kind, mode, method, N, b)
            if ref is None:
                ref = res
                continue
            what = "%s %s %s N=%d batch=%d" % (kind, mode, method, N, b)
            if ctx.ok([f for f, _, _ in res[1]] == [f for f, _, _ in ref[1]], what + ": other neurons selected"):
                ctx.close(np.array([w for _, w, _ in res[1]]), np.array([w for _, w, _ in ref[1]]), what + ": neurons")
                ctx.close(res[2], ref[2], what + ": weights", 1e-9)
                ctx.close(res[3], ref[3], what + ": predictions", 1e-9)
                if e is not None:
                    ctx.close(res[0], ref[0], what + ": test error", 1e-9)
