"""C08: error() on every small target/prediction matrix against an independent definition."""
import itertools

from mc.lib import *

ID = "C08"
LEVEL = "model_checking"
RULE = ("case = (mode, outputs, rows, first target row index): all target matrices x all prediction matrices over the "
        "value alphabet x class weights x ELM/HPELM x batch sizes 1..N+1; plus larger fixed matrices x all batch sizes "
        "x array layouts, dtypes, 1-d and HDF5 sources x ways to set the mode")
ASSUMPTIONS = ["a tie of the largest output or target may be resolved either way, but the same way by ELM and HPELM",
               "weighted classification targets have exactly one 1 per row; weights are finite, sum > 0"]

WEIGHTS = {2: [(1, 1), (1, 3), (0.3, 2.1)], 3: [(1, 1, 1), (3.1, 1, 0.7)]}


def cases(tier):
    deep = tier == "thorough"
    ys = (-1, 0.5, 0.75) if not deep else (-1, 0, 0.5, 0.75)
    for mode in (None, "c", "wc", "ml"):
        for c, N in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)) + (((2, 3), (3, 2)) if deep else ((2, 3),)):
            if c == 1 and mode is not None:
                continue
            alpha = (0.5, 0.75, -1) if (N * c < 6) else ((0.5, 0.75) if mode != "ml" else (0.5, 0.625))
            if deep:
                alpha = ys if N * c < 6 else (0.5, 0.75, -1)
            nt = len(list(all_targets(mode, c, N)))
            step = max(1, nt // 8)
            for a in range(0, nt, step):
                yield {"k": "small", "mode": mode, "c": c, "N": N, "from": a, "to": min(nt, a + step),
                       "alpha": alpha}
    for mode in (None, "c", "wc", "ml"):
        for c in (1, 2, 3, 12):
            if c == 1 and mode is not None:
                continue
            for N in (1, 2, 3, 5, 7, 12) + ((16, 23, 40) if deep else ()):
                yield {"k": "batch", "mode": mode, "c": c, "N": N}
            yield {"k": "big", "mode": mode, "c": c, "N": 2100}
    for mode in ("c", "wc", "ml"):
        for c in (2, 3):
            yield {"k": "close", "mode": mode, "c": c}
    for mode in ("c", "wc", "ml", None):
        yield {"k": "setup", "mode": mode}


def all_targets(mode, c, N):
    if mode is None:
        rows = list(itertools.product((0, -2, 1.5), repeat=c)) if c < 3 else [(0, 1, -1), (2, 0, 0.5)]
    elif mode == "ml":
        rows = list(itertools.product((0, 1), repeat=c)) + ([tuple(0.375 + 0.25 * (j % 2) for j in range(c)), tuple(0.5 + 0.25 * (j % 2) for j in range(c))] if N < 3 else [])
    elif mode == "c":
        rows = [tuple(r) for r in np.eye(c)] + [tuple(0.25 + 0.5 * np.eye(c)[0]), tuple(2 * np.eye(c)[-1] - 1)]
    else:
        rows = [tuple(r) for r in np.eye(c)] + [tuple(2 * np.eye(c)[0] - 1)]
    if N >= 3:
        rows = rows[:4]
    return itertools.product(rows, repeat=N)


def model(kind, c, mode, wc=None, **kw):
    return mk(kind, 2, c, mode or "", w=wc, **kw)


def verify(ctx, e, ref, what, sub):
    ctx.step()
    lo, hi = ref
    try:
        e = float(e)
    except Exception:
        return ctx.fail("%s: error is %r, not a number" % (what, e), sub)
    ctx.ok(lo - 1e-9 * (1 + abs(lo)) <= e <= hi + 1e-9 * (1 + abs(hi)),
           "%s: error %r, expected %r%s" % (what, e, lo, "" if lo == hi else ".. %r" % hi), sub)
    return e


def run(case, ctx):
    if case["k"] == "small":
        small(case, ctx)
    elif case["k"] == "close":
        close(case, ctx)
    elif case["k"] == "setup":
        setup(case, ctx)
    else:
        batches(case, ctx)


def small(case, ctx):
    mode, c, N = case["mode"], case["c"], case["N"]
    ws = WEIGHTS.get(c, [None]) if mode == "wc" else [None]
    ms = []
    for w in ws:
        ms.append((w, model("elm", c, mode, w), [model("hp", c, mode, w, batch=b) for b in range(1, N + 2)]))
    Ts = list(itertools.islice(all_targets(mode, c, N), case["from"], case["to"]))
    for T in Ts:
        T = np.array(T, dtype=float).reshape(N, c)
        for y in itertools.product(case["alpha"], repeat=N * c):
            Y = np.array(y, dtype=float).reshape(N, c)
            for w, me, mh in ms:
                ref = err_ref(T, Y, mode, w)
                sub = [T.tolist(), Y.tolist(), w]
                e0 = verify(ctx, me.error(T, Y), ref, "ELM", sub)
                for m in mh:
                    e = verify(ctx, m.error(T, Y), ref, "HPELM batch %d" % m.batch, sub)
                    ctx.ok(e is None or e0 is None or abs(e - e0) < 1e-9, "ELM %r and HPELM %r disagree" % (e0, e), sub)
                ctx.state(mode, c, N, round(ref[0], 9), round(ref[1], 9), w)
            if len(ctx.violations) > 3:
                return
    ctx.trace(len(Ts))


def close(case, ctx):
    """Outputs that hardly differ, and very large and small ones."""
    mode, c = case["mode"], case["c"]
    w = np.arange(1, c + 1) if mode == "wc" else None
    for i, (T, Y) in enumerate(close_rows(mode, c)):
        ref = err_ref(T, Y, mode, w)
        ft, fy = h5put("t%d.h5" % i, T), h5put("y%d.h5" % i, Y)
        for kind in ("elm", "hp", "elm:b", "hp:b"):
            for b in (1, 2, 1000):
                m = model(kind, c, mode, w, batch=b)
                verify(ctx, m.error(T, Y), ref, "%s batch %d close values" % (kind, b), [T.tolist(), Y.tolist()])
                if kind.startswith("hp"):
                    verify(ctx, m.error(ft, fy), ref, "%s batch %d close values in files" % (kind, b), [T.tolist(), Y.tolist()])
        ctx.state("close", mode, c, i)
    ctx.trace()


def batches(case, ctx):
    mode, c, N = case["mode"], case["c"], case["N"]
    T = targets(N, c, mode or "r", 1)
    Y = (dyadic((N, c), "Y", mode) + np.arange(c) / 64.0) * (FINE if mode is None else 1)      # no ties
    if mode == "ml":
        Y[::3] = np.where(Y[::3] > 0, 0.5, 0.625)
    ws = [None]
    if mode == "wc":
        ws = [tuple(np.arange(1, c + 1) / 3.0), tuple([1] * c), [2] + [0] * (c - 1)]
        T2 = T.copy()
        T2[:, :] = 0
        T2[:, 0] = 1                                          # all classes but one are absent
    if N > 100:
        bs, how = [1, 7, 700, 1000, N - 1, N, N + 1, 10 * N], ["arr", "h5"]
        bs = bs if N <= 2100 else bs[1:]
    else:
        bs, how = list(range(1, N + 3)) + [1000], ["arr", "F", "view", "rev", "ro", "h5", "h5e"]
    for w in ws:
        Ts = [T] + ([T2] if mode == "wc" else [])
        for it, Tx in enumerate(Ts):
            ref = err_ref(Tx, Y, mode, w)
            for h in how:
                ft, fy = src(Tx, h, "t"), src(Y, h, "y")
                cross = [(ft, fy)] + ([(ft, Y), (Tx, fy)] if h == "h5" else [])
                for kind in ("elm", "hp", "elm:32", "hp:b"):
                    m = model(kind, c, mode, w)
                    for b in (bs if h in ("arr", "h5") and kind in ("elm", "hp") else [2, 1000]):
                        m.batch = b
                        for a1, a2 in cross:
                            verify(ctx, m.error(a1, a2), ref, "%s batch %d %s" % (kind, b, h), [N, w, it])
                        ctx.state("b", mode, c, N, b, h, kind, it)
            ctx.trace()
    # dtypes: exact values that every type can hold
    for dt in (np.int64, np.int32, np.float32, np.uint8, np.int8, bool):
        if mode is None:
            Ti = (rs("ti", N, c).randint(0, 2 if dt is bool else 100, size=(N, c))).astype(dt)
            Yi = (rs("yi", N, c).randint(0, 2 if dt is bool else 100, size=(N, c))).astype(dt)
            combos = [(Ti, Yi), (Ti, Y), (T, Yi)]
        else:
            combos = [(T.astype(dt), Y)]
        for w in ws:
            for A, B in combos:
                ref = err_ref(A, B, mode, w)
                for kind in ("elm", "hp"):
                    m = model(kind, c, mode, w, batch=3)
                    verify(ctx, m.error(A, B), ref, "%s dtype %s" % (kind, np.dtype(dt)), [N])
        if dt is not bool and mode is None:
            m = model("hp", c, mode, batch=3)
            verify(ctx, m.error(h5put("ti.h5", Ti), h5put("yi.h5", Yi)), err_ref(Ti, Yi, mode),
                   "hp HDF5 dtype %s" % np.dtype(dt), [N])
    if c == 1:
        for kind in ("elm", "hp"):
            for b in (1, 2, N, N + 1):
                m = model(kind, 1, None, batch=b)
                for A, B in ((T[:, 0], Y[:, 0]), (T[:, 0], Y), (T, Y[:, 0])):
                    verify(ctx, m.error(A, B), err_ref(T, Y, None), "%s 1-d batch %d" % (kind, b), [N])
                if kind == "hp":
                    verify(ctx, m.error(h5put("t1.h5", T), Y[:, 0]), err_ref(T, Y, None), "HDF5 and 1-d", [N])


def setup(case, ctx):
    """The mode that counts is the one given last: at construction, by train(), by load()."""
    mode = case["mode"]
    d, c, N = 2, 3, 9
    X = data(N, d)
    w = (1.1, 2.0, 5.3)
    Y = dyadic((N, c), "Ys") + np.arange(c) / 64.0
    G = mix(d, [("tanh", 3)])
    names = {None: ["", "r", "R"], "c": ["c", "C"], "wc": ["wc", "WC", "Wc"], "ml": ["ml", "ML", "mc", "MC"]}
    for kind in ("elm", "hp"):
        for first in (None, "c", "wc", "ml"):
            T = targets(N, c, mode or "r", 2) if mode != None else targets(N, c, "c", 2)
            ref = err_ref(T, Y, mode, w)
            for nm in names[mode]:
                m = add(mk(kind, d, c, first or "", w=w), G)
                kw = {"w": np.array(w)} if mode == "wc" else {}
                if nm:
                    m.train(X, T, nm, **kw)
                    verify(ctx, m.error(T, Y), ref, "%s: created %s, trained %r" % (kind, first, nm), None)
                    m2 = mk(kind, d, c, first or "")
                    m2.loads(m.dumps())
                    verify(ctx, m2.error(T, Y), ref, "%s: loaded over %s" % (kind, first), None)
                    m.train(X, T, "r")
                    verify(ctx, m.error(T, Y), err_ref(T, Y, None), "%s: retrained for regression" % kind, None)
                if mode is not None:
                    m = mk(kind, d, c, nm, w=w)
                    verify(ctx, m.error(T, Y), ref, "%s: created %r" % (kind, nm), None)
                    add(m, G)
                    m.train(X, T)
                    verify(ctx, m.error(T, Y), ref, "%s: created %r and trained" % (kind, nm), None)
                ctx.state("s", kind, first, nm)
                ctx.trace()
