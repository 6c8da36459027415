"""C24: sequences of operations moved between solvers and precisions, against the reference matrices."""
import itertools

from mc.lib import *

ID = "C24"
LEVEL = "model_checking"
RULE = ("case 'seq' = (neuron mix, first configuration, first operation): all sequences of adding data, reading and setting matrices, moving "
        "matrices or the whole model to each other configuration, resetting and solving up to the depth, every step compared with reference "
        "matrices and solution; case 'files' = creator x extender x solver of matrix files; case 'spell' = spellings of precision and "
        "solver; case 'kind' = whole training with every neuron type in every configuration; case 'deficient'; case 'mss'")
ASSUMPTIONS = ["precision single agrees up to 1e-3 relative on well conditioned problems", "matrices are set in full (symmetric)"]
TIMEOUT = 400
D, C, NORM = 2, 2, 0.5
CONF = ("elm", "elm:b", "elm:32", "elm:b32", "hp", "hp:b", "hp:32", "hp:b32")
MIX = ("tanh:2,lin:1", "rbf_l2:2,np.sin:1", "sigm:3")
OPS = ("A", "B", "get", "solve", "corr", "reset", "move", "load", "W")


def cases(tier):
    deep = tier == "thorough"
    for mi, mx in enumerate(MIX):
        for a in CONF:
            for b in CONF:
                if mi == 0 or deep:
                    for o in ("A", "W") if not deep else ("A", "B", "W"):
                        yield {"k": "seq", "mix": mx, "conf": [a, b], "first": o, "depth": 4 if deep else 3}
    for a in ("hp", "hp:b", "hp:32", "hp:b32"):
        yield {"k": "files", "conf": a}
    for c in CONF:
        yield {"k": "kind", "conf": c}
        yield {"k": "mss", "conf": c}
        yield {"k": "deficient", "conf": c}
    for cls in ("elm", "hp"):
        yield {"k": "spell", "cls": cls}


def tol(*kinds):
    return 1e-3 if any(k.endswith("32") for k in kinds) else 1e-8


def run(case, ctx):
    {"seq": seq, "files": files, "spell": spell, "kind": kind, "mss": mss, "deficient": deficient}[case["k"]](case, ctx)


def seq(case, ctx):
    """State: list of parts accumulated, solution. Operations alternate between the two configurations by 'move' (matrices) and 'load'."""
    G = spec_mix(D, case["mix"], "c24")
    parts = {"A": (data(5, D, "c24a"), targets(5, C, "r", "c24a"), None), "B": (data(7, D, "c24b"), targets(7, C, "r", "c24b"), None),
             "W": (data(4, D, "c24w"), targets(4, C, "r", "c24w"), np.array([1.0, 4.0, 0.25, 2.25]))}
    P = data(3, D, "c24p")
    HP = h_ref(P, G)
    ref = {k: (h_ref(X, G), T, w) for k, (X, T, w) in parts.items()}
    t = tol(*case["conf"])
    for s in itertools.product(OPS, repeat=case["depth"]):
        s = (case["first"],) + s
        conf = list(case["conf"])
        m = add(mk(conf[0], D, C, norm=NORM, batch=3), G)
        got, B, used = [], None, 0
        for i, o in enumerate(s):
            what = "%s on %s: %s" % (s[:i + 1], case["conf"], o)
            if o in ("A", "B"):
                m.add_data(parts[o][0], parts[o][1])
                got.append(o)
            elif o == "W":
                m.nnet.add_batch(parts[o][0].astype(prec(conf[0])), parts[o][1], parts[o][2])
                got.append(o)
            elif o == "reset":
                m.nnet.reset()
                got = []
            elif o == "load":
                n = mk(conf[1], 1, 1, norm=9.0, batch=3)
                n.loads(m.dumps())
                m, got = n, []
                conf.reverse()
            elif not got:
                break
            elif o == "get":
                HH, HT = m.nnet.get_corr()
                m.nnet.set_corr(np.array(HH), np.array(HT))
            elif o == "move":
                n = add(mk(conf[1], D, C, norm=NORM, batch=3), G)
                HH, HT = m.nnet.get_corr()
                n.nnet.set_corr(np.array(HH), np.array(HT))
                m, B = n, None
                conf.reverse()
            elif o in ("solve", "corr"):
                B = solution(ref, got)
                if o == "solve":
                    m.nnet.solve()
                else:
                    m.nnet.set_B(m.nnet.solve_corr(*m.nnet.get_corr()))
            if got:
                HH, HT = m.nnet.get_corr()
                HH0, HT0 = matrices(ref, got)
                ok = ctx.close(HH, HH0, what + ": HH", t)
                ok = ctx.close(HT, HT0, what + ": HT", t) and ok
                ok = ctx.ok(np.asarray(HH).dtype == prec(conf[0]) and np.asarray(HT).dtype == prec(conf[0]),
                            what + ": matrices are %s, %s" % (np.asarray(HH).dtype, np.asarray(HT).dtype)) and ok
                if not ok:
                    return
            b = m.nnet.get_B()
            if (B is None) != (b is None):
                return ctx.fail("%s: solution %s" % (what, "lost" if b is None else "appeared"))
            if B is not None:
                ok = ctx.close(b, B, what + ": output weights", t)
                ok = ctx.ok(b.dtype == prec(conf[0]), what + ": output weights are %s" % b.dtype) and ok
                ok = ctx.close(m.predict(P), HP.dot(B), what + ": predictions", t) and ok
                if not ok:
                    return
            ctx.step()
            ctx.state(case["mix"], case["conf"], s[:i + 1])
        else:
            ctx.trace()


def matrices(ref, got):
    HH, HT = NORM * np.eye(3), np.zeros((3, C))
    for k in got:
        H, T, w = ref[k]
        w = np.ones(len(H)) if w is None else w
        HH, HT = HH + (H * w[:, None]).T.dot(H), HT + (H * w[:, None]).T.dot(T)
    return HH, HT


def solution(ref, got):
    H = np.vstack([ref[k][0] for k in got])
    T = np.vstack([ref[k][1] for k in got])
    w = np.hstack([np.ones(len(ref[k][0])) if ref[k][2] is None else ref[k][2] for k in got])
    return ridge(H, T, NORM, w)


def files(case, ctx):
    """Matrix files created by one configuration, extended by another, solved and validated by a third."""
    G = spec_mix(D, MIX[0], "c24")
    X, T = data(12, D, "c24f"), targets(12, C, "r", "c24f")
    Xv, Tv = data(6, D, "c24v"), targets(6, C, "r", "c24v")
    H, HP = h_ref(X, G), h_ref(Xv, G)
    HPC = ("hp", "hp:b", "hp:32", "hp:b32")
    a = case["conf"]
    for b in HPC:
        for f in ("HH.h5", "HT.h5"):
            if os.path.exists(f):
                os.remove(f)
        n = 0
        for k, cnt in ((a, 4), (b, 5), (a, 3)):
            add(mk(k, D, C, norm=NORM, batch=3), G).add_data(X, T, istart=n, icount=cnt, fHH="HH.h5", fHT="HT.h5")
            n += cnt
            HH, HT = corr(H[:n], T[:n], NORM)
            t = tol(a, b)
            ctx.close(h5get("HH.h5"), HH, "%s extended by %s: HH of %d rows" % (a, b, n), t)
            ctx.close(h5get("HT.h5"), HT, "%s extended by %s: HT of %d rows" % (a, b, n), t)
            for c in HPC:
                what = "created by %s, extended by %s, solved by %s, %d rows" % (a, b, c, n)
                B = ridge(H[:n], T[:n], NORM)
                t = tol(a, b, c)
                m = add(mk(c, D, C, norm=NORM, batch=4), G)
                m.solve_corr("HH.h5", "HT.h5")
                ctx.close(m.nnet.get_B(), B, what + ": output weights", t)
                ctx.ok(m.nnet.get_B().dtype == prec(c), what + ": output weights are %s" % m.nnet.get_B().dtype)
                m = add(mk(c, D, C, norm=NORM, batch=4), G)
                r = m.validation_corr("HH.h5", "HT.h5", Xv, Tv, [3])
                ctx.close(np.array(r[1]).ravel(), [((HP.dot(B) - Tv) ** 2).mean()], what + ": validation error", t)
                ctx.close(m.predict(Xv), HP.dot(B), what + ": after validation", t)
                # in memory: set, extend with the remaining rows, solve
                if n < 12:
                    for e in CONF:
                        m = add(mk(e, D, C, norm=NORM, batch=4), G)
                        m.nnet.set_corr(h5get("HH.h5"), h5get("HT.h5"))
                        m.add_data(X[n:], T[n:])
                        m.nnet.solve()
                        ctx.close(m.nnet.get_B(), ridge(H, T, NORM), what + ": set and extended in %s" % e, tol(a, b, e))
                        ctx.ok(m.nnet.get_B().dtype == prec(e), what + ": %s output weights are %s" % (e, m.nnet.get_B().dtype))
                ctx.step()
                ctx.state("files", a, b, c, n)
        ctx.trace()


def spell(case, ctx):
    cls = ELM if case["cls"] == "elm" else HPELM
    G = spec_mix(D, MIX[0], "c24")
    X, T = data(9, D, "sp"), targets(9, C, "r", "sp")
    for p, dt in (("double", np.float64), ("Double", np.float64), ("64", np.float64), ("float64", np.float64), (np.float64, np.float64),
                  ("single", np.float32), ("32", np.float32), ("float32", np.float32), (np.float32, np.float32), (None, np.float64)):
        for acc in (None, "basic", "none", ""):
            for norm in (NORM, None):
                kw = {} if p is None else {"precision": p}
                m = cls(D, C, accelerator=acc, norm=norm, tprint=1000, **kw)
                what = "%s precision %r accelerator %r norm %s" % (case["cls"], p, acc, norm)
                nv = 50 * np.finfo(dt).eps if norm is None else norm
                ctx.ok(abs(m.nnet.norm - nv) < 1e-12 * nv, what + ": norm %s" % m.nnet.norm)
                ctx.ok(m.precision is dt, what + ": precision %s" % m.precision)
                for wd in (np.float64, np.float32):
                    m = cls(D, C, accelerator=acc, norm=norm, tprint=1000, **kw)
                    for n, f, W, b in G:
                        m.add_neurons(n, f, W.astype(wd), b.astype(wd))
                    m.train(X.astype(wd), T)
                    b = m.nnet.get_B()
                    ctx.ok(b.dtype == dt, what + ": output weights are %s" % b.dtype)
                    Hd = h_ref(X.astype(wd), [(n, f, W.astype(wd).astype(float), c.astype(wd).astype(float)) for n, f, W, c in G])
                    ctx.close(b, ridge(Hd, T, norm or nv), what, 1e-8 if dt is np.float64 else 1e-3)
                    ctx.step()
                    ctx.state("spell", case["cls"], str(p), acc, norm, wd.__name__)
    ctx.trace()


def kind(case, ctx):
    """Training, prediction, projection, errors: every neuron type alone and in pairs."""
    k = case["conf"]
    single = k.endswith("32")
    names = TYPES + ("np.sin", "np.arctan", "scipy.expit")
    X, T = data(14, D, "kn"), targets(14, C, "c", "kn")
    P = data(4, D, "knp")
    for a in names:
        for b in names:
            G = spec_mix(D, "%s:2,%s:1" % (a, b), "kn") if a != b else spec_mix(D, "%s:2" % a, "kn")
            for cl, w in (("r", None), ("c", None), ("wc", np.array([1.0, 3.0]))):
                for xd in (np.float64, np.float32, np.int64):
                    Xd = X.astype(xd)
                    H, HP = h_ref(Xd, G), h_ref(P, G)
                    m = add(mk(k, D, C, norm=NORM, batch=5), G)
                    m.train(Xd, T.astype(xd), cl, **({} if w is None else {"w": w}))
                    B = ridge(H, T, NORM, None if w is None else w[T.argmax(1)])
                    what = "%s neurons %s %s, %s, input %s" % (k, a, b, cl, xd.__name__)
                    t = tol(k) * (3 if single else 1)
                    ctx.close(m.project(P), HP, what + ": projection", 1e-5 if single else 1e-11)
                    ctx.close(m.nnet.get_B(), B, what + ": output weights", t)
                    ctx.ok(m.nnet.get_B().dtype == prec(k), what + ": output weights are %s" % m.nnet.get_B().dtype)
                    ctx.close(m.predict(P), HP.dot(B), what + ": predictions", t)
                    ctx.step()
                    ctx.state("kind", k, a, b, cl, xd.__name__)
        ctx.trace()


def mss(case, ctx):
    """Model structure selection finds the same neurons as the default solver in double precision (clear-cut data)."""
    k = case["conf"]
    if k.startswith("hp"):
        return mss_hp(case, ctx)
    for key in range(3):
        G = spec_mix(D, "tanh:5,lin:2,rbf_l2:2", ("mss", key))
        X = data(30, D, ("mss24", key))
        T = h_ref(X, G)[:, [1, 6]].dot([[1, 2], [-1.5, 0.5]]) + data(30, C, ("mss24n", key)) / 8
        Xv, P = data(12, D, ("mss24v", key)), data(4, D, "mss24p")
        Tv = h_ref(Xv, G)[:, [1, 6]].dot([[1, 2], [-1.5, 0.5]]) + data(12, C, ("mss24w", key)) / 8
        for meth in ("V", "CV", "LOO"):
            for op in ("OP", None):
                for norm in (NORM, 4.0):
                    res = []
                    for conf in ("elm", k):
                        m = add(mk(conf, D, C, norm=norm, batch=7), G)
                        kw = {"V": {"Xv": Xv, "Tv": Tv}, "CV": {"k": 4}, "LOO": {}}[meth]
                        np.random.seed(key)
                        m.train(X, T, *([meth] + ([op] if op else [])), **kw)
                        res.append(m)
                    what = "%s %s %s norm %s" % (k, meth, op, norm)
                    Bs = []
                    for m in res:
                        cols = pruned(m)
                        H, HP = [np.stack([h_col(Z, *q) for q in cols], 1) for Z in (X, P)]
                        B = ridge(H, T, norm)
                        ctx.close(m.predict(P), HP.dot(B), what + ": solution of the chosen neurons", tol(k) * 3)
                        ctx.ok(m.nnet.get_B().dtype == m.precision, what + ": output weights are %s" % m.nnet.get_B().dtype)
                    if not k.endswith("32"):
                        ctx.close(res[1].predict(P), res[0].predict(P), what + ": other neurons", 1e-9)
                    ctx.step()
                    ctx.state("mss", k, key, meth, op, norm)
            ctx.trace()


def mss_hp(case, ctx):
    """Prefix networks of validation_corr."""
    k = case["conf"]
    for key in range(3):
        G = spec_mix(D, "tanh:4,lin:2", ("mss", key))
        X, T = data(20, D, ("h24", key)), targets(20, C, "r", ("h24", key))
        Xv, Tv = data(9, D, ("h24v", key)), targets(9, C, "r", ("h24v", key))
        H, Hv = h_ref(X, G), h_ref(Xv, G)
        for norm in (NORM, 3.0):
            for f in ("HH.h5", "HT.h5"):
                if os.path.exists(f):
                    os.remove(f)
            m = add(mk(k, D, C, norm=norm, batch=6), G)
            m.add_data(X, T, fHH="HH.h5", fHT="HT.h5")
            for sizes in ([2, 3, 4, 5, 6], [1, 6], [4]):
                m = add(mk(k, D, C, norm=norm, batch=4), G)
                r = m.validation_corr("HH.h5", "HT.h5", Xv, Tv, sizes)
                es = [((Hv[:, :n].dot(ridge(H[:, :n], T, norm)) - Tv) ** 2).mean() for n in sizes]
                what = "%s validation_corr %s norm %s" % (k, sizes, norm)
                ctx.close(np.array(r[1]).ravel(), es, what + ": errors", tol(k))
                n = len(pruned(m))
                B = ridge(H[:, :n], T, norm)
                ctx.close(m.predict(Xv), Hv[:, :n].dot(B), what + ": predictions", tol(k))
                ctx.ok(m.nnet.get_B().dtype == prec(k), what + ": output weights are %s" % m.nnet.get_B().dtype)
                ctx.step()
                ctx.state("mssh", k, key, norm, tuple(sizes))
        ctx.trace()


def deficient(case, ctx):
    """More neurons than rows and repeated neurons, kept solvable by the norm."""
    k = case["conf"]
    for spec, N in (("tanh:6,lin:3", 3), ("sigm:4", 2), ("lin:3", 5), ("lin:5", 9), ("rbf_l1:4", 1)):
        for norm in (0.5, 0.0625, 8.0):
            for batch in (1, 2, 100):
                G = spec_mix(D, spec, "df")
                G = G + [(1, f, W[:, :1], b[:1]) for n, f, W, b in G]
                X, T = data(N, D, ("df", N)), targets(N, C, "r", ("df", N))
                P = data(4, D, "dfp")
                m = add(mk(k, D, C, norm=norm, batch=batch), G)
                m.train(X, T)
                what = "%s %s and copies, %d rows, norm %s, batch %d" % (k, spec, N, norm, batch)
                B = ridge(h_ref(X, G), T, norm)
                t = tol(k) * (10 if k.endswith("32") else 10)
                ctx.close(m.nnet.get_B(), B, what + ": output weights", t)
                ctx.ok(m.nnet.get_B().dtype == prec(k), what + ": output weights are %s" % m.nnet.get_B().dtype)
                ctx.close(m.predict(P), h_ref(P, G).dot(B), what + ": predictions", t)
                ctx.step()
                ctx.state("def", k, spec, N, norm, batch)
    ctx.trace()
