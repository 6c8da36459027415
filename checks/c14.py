"""C14: validation_corr against directly solved sub-networks."""
import itertools

from mc.lib import *

ID = "C14"
LEVEL = "model_checking"
RULE = ("case = (class:solver, network, mode, validation rows, source): all step counts and all small step vectors x batch sizes "
        "1..rows+1: sizes, every error, every confusion matrix, and the resulting model compared with sub-networks "
        "solved directly from the stored matrices; files written by add_data (whole, parts, asynchronous) or given")
ASSUMPTIONS = ["no ties of the largest prediction", "the smallest error may be tied: any of the tied sizes may be chosen"]
TIMEOUT = 150
D = 3
NETS = {1: "tanh:1", 2: "tanh:1,lin:1", 3: "sigm:2,lin:1", 4: "rbf_l2:2,tanh:2", 5: "tanh:3,lin:2", 7: "lin:2,tanh:3,np.sin:2",
        12: "tanh:5,sigm:4,lin:1,rbf_l1:2", 30: "tanh:20,rbf_l2:8,lin:2", 60: "sigm:30,tanh:30",
        270: "tanh:129,rbf_l2:131,lin:3,np.sin:7"}


def cases(tier):
    deep = tier == "thorough"
    for kind in ("hp", "hp:b", "hp:32"):
        for L in NETS:
            for mode in ("r", "r1", "c", "wc", "ml"):
                for Nv in (1, 4, 9, 1500) + ((2, 3, 5, 17, 40, 2500) if deep else ()):
                    if kind != "hp" and (Nv not in (4, 1500) or L not in (4, 7, 30)) and not deep:
                        continue
                    if L > 100 and (Nv != 9 or mode not in ("r", "c")):
                        continue
                    if Nv == 1500 and L not in (5, 30) and not deep:
                        continue
                    yield {"kind": kind, "L": L, "mode": mode, "Nv": Nv, "deep": deep}


def steps_of(L, deep):
    for s in range(1, L + 3) if L < 8 else (1, 2, 3, 5, 10, 11, 37):
        yield s
    yield None
    if L <= 4 or deep and L <= 7:
        for bits in range(1, 2 ** L):
            yield [i + 1 for i in range(L) if bits >> i & 1]
    else:
        yield [1]
        yield [L]
        yield list(range(1, L + 1))
        yield [2, L // 2 + 2, L]
        yield [L // 2 + 1, L - 1]
    if L > 1:
        yield [L, 1]                # not sorted
        yield np.array([1, L], dtype=np.int32)


def run(case, ctx):
    kind, L, mode, Nv, deep = case["kind"], case["L"], case["mode"], case["Nv"], case["deep"]
    c = 1 if mode == "r1" else 3
    md = mode[0] if mode.startswith("r") else mode
    G = spec_mix(D, NETS[L])
    N = max(2 * L, 12)
    X = data(N, D, "c14")
    T = targets(N, c, md, "c14")
    w = np.array([0.7, 2.1, 1]) if md == "wc" else None
    norm = 0.25
    H = h_ref(X, G)
    HH, HT = corr(H, T, norm, None if w is None else w[T.argmax(1)])
    Xv = data(Nv, D, "c14v")
    Tv = targets(Nv, c, md, "c14v")
    Hv = h_ref(Xv, G)
    single = kind.endswith("32")
    tl = 1e-3 if single else 1e-8
    P = {}
    for l in range(1, L + 1):
        B = np.linalg.solve(HH[:l, :l], HT[:l])
        Y = Hv[:, :l].dot(B)
        cm = None if md == "r" else conf_ref(Tv, Y, md)
        P[l] = (err_ref(Tv, Y, None if md == "r" else md, w)[0], cm, B, Y)

    def model(b):
        return add(mk(kind, D, c, "" if md == "r" else md, w=w, norm=norm, batch=b), G)

    def files(how):
        for f in ("HH.h5", "HT.h5"):
            if os.path.exists(f):
                os.remove(f)
        if how == "given":
            h5put("HH.h5", HH, name="whatever")
            h5put("HT.h5", HT, earray=True)
        elif how == "parts":
            model(3).add_data(X[:N // 3], T[:N // 3], fHH="HH.h5", fHT="HT.h5")
            model(100).add_data(X, T, istart=N // 3, fHH="HH.h5", fHT="HT.h5")
        elif how == "async":
            model(5).add_data_async(h5put(os.path.abspath("x.h5"), X), h5put(os.path.abspath("t.h5"), T), fHH="HH.h5", fHT="HT.h5")
        else:
            model(1000).add_data(X, T, fHH="HH.h5", fHT="HT.h5")

    if Nv > 1000:
        bs = [1000, 1, 7, 500, 1499, 1500, 1501] if L < 10 else [1000, 333]
        bs = bs if deep else [b for b in bs if b > 1]
    else:
        bs = list(range(1, Nv + 2)) + [1000]
    n = 0
    for how in ("whole", "parts", "given", "async"):
        if how == "async" and (Nv != 4 or L not in (3, 7)):
            continue
        files(how)
        before = h5get("HH.h5"), h5get("HT.h5")
        ctx.close(before[0], HH, "stored HH", 1e-4 if single else 1e-9)
        for steps in steps_of(L, deep):
            for b in bs:
                n += 1
                if how != "whole" and n % 5 or Nv == 9 and b in (2, 4, 6, 7) and not deep or Nv > 1000 and L > 10 and isinstance(steps, int) and steps not in (2, 10):
                    continue
                source = "h5" if n % 2 else "arr"
                m = model(b)
                if n % 3 == 0 and L > 1:      # an earlier solution is replaced
                    m.train(X[:4], T[:4], md, **({"w": w} if md == "wc" else {}))
                kw = {} if steps is None else {"steps": steps}
                what = "%s %s L=%d Nv=%d batch=%d steps=%s (%s, %s)" % (kind, mode, L, Nv, b, steps, how, source)
                res = m.validation_corr("HH.h5", "HT.h5", src(Xv, source, "xv"), src(Tv, source, "tv"), **kw)
                ctx.step()
                ctx.state(kind, L, mode, Nv, b, str(steps), how)
                one(ctx, m, res, P, L, md, steps, Hv, Xv, G, what, tl, single, Tv, w)
                if len(ctx.violations) > 2:
                    return
        ctx.trace()
        ctx.ok(np.array_equal(h5get("HH.h5"), before[0]) and np.array_equal(h5get("HT.h5"), before[1]), "matrix files changed")


def one(ctx, m, res, P, L, md, steps, Hv, Xv, G, what, tl, single, Tv, w):
    Ls, errs, confs = res
    Ls = [int(i) for i in Ls]
    if not ctx.ok(len(errs) == len(Ls) and Ls == sorted(set(Ls)) and Ls and Ls[0] >= 1 and Ls[-1] <= L,
                  "%s: sizes %s with %d errors" % (what, Ls, len(errs))):
        return
    if isinstance(steps, (list, np.ndarray)):
        ctx.ok(Ls == sorted(int(i) for i in steps), "%s: sizes %s" % (what, Ls))
    else:
        s = 10 if steps is None else steps
        ctx.ok(len(Ls) <= s and Ls[0] == min(3, L) and (s == 1 or Ls[-1] == L), "%s: sizes %s" % (what, Ls))
    near = np.zeros(len(Ls))
    for i, l in enumerate(Ls):
        e, cm, B, Y = P[l]
        if md != "r":     # a prediction on the border may move
            margin = np.abs(Y - 0.5).min() if md == "ml" else np.min(np.sort(Y, 1)[:, -1] - np.sort(Y, 1)[:, -2])
            if margin < (1e-3 if single else 1e-9):
                near[i] = 1
                continue
        ctx.ok(abs(errs[i] - e) <= (tl * (1 + e) if md == "r" else 1e-6), "%s: error of %d neurons is %r instead of %r" % (what, l, errs[i], e))
        if md != "r":
            ctx.ok(len(confs) == len(Ls) and np.array_equal(np.asarray(confs[i], float), cm),
                   "%s: confusion matrix of %d neurons is %s instead of %s" % (what, l, np.asarray(confs[i]).tolist() if len(confs) > i else None, cm.tolist()))
    if md == "r":
        ctx.ok(len(confs) == 0, what + ": confusion matrices for regression")
    # the model
    k = m.nnet.L
    if not ctx.ok(k in Ls, "%s: model has %s neurons, examined %s" % (what, k, Ls)):
        return
    e = np.asarray(errs, float)
    ctx.ok(e[Ls.index(k)] <= e.min() + 1e-9, "%s: %d neurons with error %r chosen, %s" % (what, k, e[Ls.index(k)], e))
    ctx.close(m.project(Xv), Hv[:, :k], what + ": hidden layer of the model", 1e-4 if single else 1e-9)
    ctx.close(m.nnet.get_B(), P[k][2], what + ": output weights", tl * 20)
    Y = m.predict(Xv)
    ctx.close(Y, P[k][3], what + ": predictions", tl * 20)
    if not near.any():
        ctx.ok(abs(m.error(Tv, np.asarray(Y)) - e.min()) <= max(tl, 1e-6) * (1 + e.min()) * 2, "%s: error() of the model is not the reported one" % what)
    B = np.asarray(m.nnet.get_B())
    ctx.ok(sum(g[0] for g in m.nnet.get_neurons()) == k and B.shape[0] == k, what + ": neuron count")
