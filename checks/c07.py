"""C07: every (rows, istart, icount, batch): operations use exactly the selected rows."""
import itertools

from mc.lib import *

ID = "C07"
LEVEL = "model_checking"
RULE = ("case = (operation, mode, rows N, source): all istart 0..N-1 x icount 1..N-istart+2, inf and omitted x batch "
        "1..N+1 x output targets (returned, caller's exact/longer array, new file, existing file), compared with the same "
        "operation on the slice; plus ranges of 2300 rows around multiples of the default batch")
ASSUMPTIONS = ["0 <= istart < N", "icount >= 1 (and 0 for returned arrays)"]
TIMEOUT = 120


def cases(tier):
    deep = tier == "thorough"
    Ns = (1, 2, 3, 4, 5, 7) if not deep else tuple(range(1, 11)) + (14,)
    for N in Ns:
        for s in ("arr", "h5"):
            for op in ("train", "add", "predict", "project"):
                for kind in ("hp", "hp:b") if op in ("train", "add") else ("hp",):
                    for mode in (("r", "c", "wc", "wcw") if op in ("train", "add") else ("r",)):
                        yield {"k": "small", "op": op, "N": N, "src": s, "kind": kind, "mode": mode, "deep": deep}
            for mode in ("r", "c", "wcw", "ml"):
                yield {"k": "small", "op": "error", "N": N, "src": s, "kind": "hp", "mode": mode, "deep": deep}
    for op in ("train", "add", "predict", "project", "error"):
        for s in ("arr", "h5"):
            yield {"k": "large", "op": op, "N": 2300, "src": s, "kind": "hp", "mode": "r"}
    yield {"k": "args"}


def ranges(N):
    for i in range(N):
        for n in list(range(1, N - i + 3)) + [np.inf]:
            yield i, n


def stop_of(N, i, n):
    return N if n == np.inf else min(i + int(n), N)


def run(case, ctx):
    if case["k"] == "args":
        return args(ctx)
    op, N, s, kind, mode = [case[x] for x in ("op", "N", "src", "kind", "mode")]
    d, c = 2, 3
    G = spec_mix(d, "tanh:2,lin:1")
    X = data(N, d, "c7")
    T = targets(N, c, mode[:2], "c7")
    fx, ft = src(X, s, "x"), src(T, s, "t")
    w = np.array([1.1, 4.0, 0.7]) if mode == "wcw" else None
    if case["k"] == "large":
        rng = [(0, 1000), (1000, 1000), (1000, np.inf), (999, 1002), (1, 2299), (2000, 1000), (1300, 1000), (2299, 1),
               (0, 2300), (100, 2100), (0, 2001)]
        bs = [1000, 300, 999, 1001, 5000] + ([2, 1] if s == "arr" or op == "predict" else [])
    else:
        rng = list(ranges(N))
        bs = list(range(1, N + 2))
    trained = add(mk("hp", d, c, norm=0.5), G)
    trained.train(data(20, d, "tr"), targets(20, c, "r", "tr"))
    blob = trained.dumps()
    Href = h_ref(X, G)
    Bt = np.array(trained.nnet.get_B())
    P = dyadic((N, c), "P7") + np.arange(c) / 64.0
    fp = src(P, s, "p")
    seen = 0
    for (i, n), b in itertools.product(rng, bs):
        if case["k"] == "large" and b < 3 and (i, n) not in ((0, 2300), (1300, 1000)):
            continue
        if s == "h5" and case["k"] == "small" and N > 4 and not case["deep"] and (i + (0 if n == np.inf else n) + b) % 2 \
                and op not in ("train",):
            continue
        e = stop_of(N, i, n)
        what = "%s %s N=%d rows %d+%s batch %d %s" % (op, mode, N, i, n, b, s)
        rk = {"istart": i}
        if n != np.inf or (i + b) % 2:
            rk["icount"] = n
        if i == 0 and b % 2:
            del rk["istart"]
        ctx.state(op, N, i, n, b, s, mode, kind)
        ctx.step()
        ctx.trace()
        if op in ("train", "add"):
            Xs, Ts = X[i:e], T[i:e]
            if mode == "wc" and Ts.sum(0).min() == 0:
                continue
            m = add(mk(kind, d, c, mode[:2] if op == "add" else "", w=w, norm=0.5, batch=b), G)
            if mode == "wc":
                sw = (float(len(Ts)) / Ts.sum(0))[Ts.argmax(1)]
            else:
                sw = w[Ts.argmax(1)] if mode == "wcw" else None
            if op == "train":
                m.train(fx, ft, mode[:2], **dict(rk, **({"w": w} if mode == "wcw" else {})))
            else:
                m.add_data(fx, ft, **rk)
                HH, HT = m.nnet.get_corr()
                HH0, HT0 = corr(Href[i:e], Ts, 0.5, sw)
                ctx.close(HH, HH0, what + ": HH")
                ctx.close(HT, HT0, what + ": HT")
                m.nnet.solve()
            ctx.close(m.nnet.get_B(), ridge(Href[i:e], Ts, 0.5, sw), what + ": weights", 1e-8)
        elif op == "error":
            m = mk("hp", d, c, "" if mode == "r" else mode[:2], w=w, batch=b)
            err = m.error(ft, fp, **rk)
            lo, hi = err_ref(T[i:e], P[i:e], None if mode == "r" else mode[:2], w)
            ctx.ok(abs(float(err) - lo) < 1e-9 * (1 + abs(lo)), "%s: error %r, expected %r" % (what, err, lo))
        else:
            m = mk("hp", d, c, batch=b)
            m.loads(blob)
            full = Href if op == "project" else Href.dot(Bt)
            want = full[i:e]
            f = getattr(m, op)
            ctx.close(f(fx, **rk), want, what + ": returned")
            w2 = want.shape[1]
            for extra in (0, 3):
                if extra and op == "predict" and False:
                    continue
                A = np.full((e - i + extra, w2), 99.0)
                f(fx, A, **rk)
                ctx.close(A[:e - i], want, what + ": caller's array")
                ctx.ok(np.all(A[e - i:] == 99.0), what + ": rows after the selected ones were written")
            f32 = np.full((e - i, w2), 99.0, dtype=np.float32, order="F")
            f(fx, f32, **rk)
            ctx.close(f32, want, what + ": single precision array", 1e-6)
            if s == "h5":
                for pre in (False, True):
                    if pre:
                        h5put("o.h5", np.full((N + 2, 1), 5.0))
                    elif os.path.exists("o.h5"):
                        os.remove("o.h5")
                    f(fx, "o.h5", **rk)
                    ctx.close(h5get("o.h5"), want, what + (": existing file" if pre else ": new file"))
                if seen % 7 == 0:
                    ctx.ok(np.array_equal(h5get(fx), X), what + ": the input file was changed")
            seen += 1
            if n == 1 and i == 0:
                ctx.ok(np.asarray(f(fx, istart=i, icount=0)).shape == (0, w2), what + ": icount=0 is no row")
        if len(ctx.violations) > 4:
            return


def args(ctx):
    """Number types, positional arguments, several calls filling parts of one array."""
    d, c, N = 2, 2, 9
    G = spec_mix(d, "tanh:2,rbf_l1:2")
    X, T = data(N, d, "a7"), targets(N, c, "r", "a7")
    H = h_ref(X, G)
    for s in ("arr", "h5"):
        fx, ft = src(X, s, "x"), src(T, s, "t")
        for b in range(1, N + 2):
            m = add(mk("hp", d, c, norm=0.5, batch=b), G)
            m.train(fx, ft)
            B = ridge(H, T, 0.5)
            for i, n in ((2, 4), (np.int64(2), np.int32(4)), (0, np.int64(3)), (4, float("inf"))):
                e = stop_of(N, int(i), n)
                for f, full in ((m.predict, H.dot(B)), (m.project, H)):
                    ctx.close(f(fx, None, i, n), full[int(i):e], "positional range (%r, %r)" % (i, n))
                    ctx.step()
                Ye = H.dot(B)
                ctx.ok(abs(m.error(ft, src(Ye, s, "y"), i, n) - ((Ye - T)[int(i):e] ** 2).mean()) < 1e-9,
                       "positional range of error (%r, %r)" % (i, n))
                m2 = add(mk("hp", d, c, norm=0.5, batch=b), G)
                m2.add_data(fx, ft, i, n)
                m2.nnet.solve()
                ctx.close(m2.nnet.get_B(), ridge(H[int(i):e], T[int(i):e], 0.5), "positional range of add_data", 1e-8)
                ctx.raises(lambda: m2.train(fx, ft, istart=i, icount=0), "train on no rows")
                m2.train(fx, ft, istart=i, icount=n)
                ctx.close(m2.nnet.get_B(), ridge(H[int(i):e], T[int(i):e], 0.5), "numpy numbers as range", 1e-8)
                ctx.state(s, b, int(i), float(n))
            # a partition of the rows, each part written to its own slice of one output
            for parts in ((4, 5), (1, 8), (3, 3, 3), (2, 2, 2, 3)):
                Y, Z = np.full((N, c), 9.0), np.full((N, H.shape[1]), 9.0)
                a = 0
                for p in parts:
                    m.predict(fx, Y[a:a + p], istart=a, icount=p)
                    m.project(fx, Z[a:a + p], istart=a, icount=p)
                    a += p
                ctx.close(Y, H.dot(B), "predict in parts %s batch %d" % (parts, b))
                ctx.close(Z, H, "project in parts %s batch %d" % (parts, b))
                ctx.step(2)
            ctx.trace()
