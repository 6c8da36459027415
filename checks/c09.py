"""C09: confusion() on every small target/prediction matrix against direct counting."""
import itertools

from mc.lib import *

ID = "C09"
LEVEL = "model_checking"
RULE = ("case = (mode, outputs, rows, target block): all target matrices x all predictions (all class orders per row, "
        "or all threshold patterns) x ELM/HPELM x batch sizes 1..N+1; larger matrices x all batch sizes x layouts, "
        "dtypes and HDF5 sources; refusal for regression models")
ASSUMPTIONS = ["rows without ties of the largest value"]


def cases(tier):
    deep = tier == "thorough"
    for mode in ("c", "wc", "ml"):
        for c in (2, 3, 4):
            for N in (1, 2, 3) + ((4,) if deep and c < 4 else ()):
                if c == 4 and N > 1 and not deep or (c, N) in ((3, 4), (4, 3)) and mode == "ml":
                    continue
                for t0 in range(c):
                    yield {"k": "small", "mode": mode, "c": c, "N": N, "t0": t0, "deep": deep}
        for c in (2, 3, 12):
            for N in (1, 2, 5, 8, 13, 20) + ((40, 64) if deep else ()):
                if c == 12 and N in (2, 8, 20) and not deep:
                    continue
                yield {"k": "batch", "mode": mode, "c": c, "N": N}
            yield {"k": "batch", "mode": mode, "c": c, "N": 2100}
            if c == 2:
                yield {"k": "many", "mode": mode, "c": c, "N": 140000}
        for c in (130, 260):
            yield {"k": "classes", "mode": mode, "c": c, "N": 2 * c + 5}
        for c in (2, 3):
            yield {"k": "close", "mode": mode, "c": c}
    yield {"k": "refuse"}


def check(ctx, m, T, Y, ref, N, mode, what, sub=None):
    C = m.confusion(T, Y)
    ctx.step()
    C = np.asarray(C, dtype=float)
    if C.shape != ref.shape or not np.array_equal(C, ref):
        return ctx.fail("%s: confusion %s, expected %s" % (what, C.tolist(), ref.tolist()), sub)
    if mode != "ml":
        ctx.ok(C.sum() == N, "%s: %r entries for %d rows" % (what, C.sum(), N), sub)


def rows_of(mode, c):
    if mode == "ml":
        t = [np.array(r, float) for r in itertools.product((0, 1), repeat=c)]
        t.append(0.5 + 0.25 * (np.arange(c) % 2))
        y = [np.array(r) for r in itertools.product((0.5, 0.625) if c > 2 else (-3, 0.5, 0.625), repeat=c)]
        if c > 2:
            y.append(np.linspace(0, 1, c))
        return t, y
    t = [r for r in np.eye(c)]
    t.append(np.linspace(0.2, 0.1, c) if mode == "c" else 2 * np.eye(c)[1] - 1)
    y = [np.roll(np.linspace(-2, -1, c), s) for s in range(c)] + [np.eye(c)[0] * 3]
    return t, y


def run(case, ctx):
    if case["k"] == "refuse":
        return refuse(ctx)
    if case["k"] == "close":
        return close(ctx, case["mode"], case["c"])
    mode, c, N = case["mode"], case["c"], case["N"]
    if case["k"] == "batch":
        return batch(ctx, mode, c, N)
    if case["k"] == "classes":
        return classes(ctx, mode, c, N)
    if case["k"] == "many":
        return many(ctx, mode, c, N)
    t, y = rows_of(mode, c)
    ms = [mk(k, 1, c, mode, w=np.arange(1, c + 1), batch=b) for k in ("elm", "hp") for b in range(1, N + 2)]
    if mode == "ml" and not case["deep"] and N == 3:
        t, y = t[:: max(1, len(t) // 4)], y[:: max(1, len(y) // 4)]
    t1 = t[case["t0"]::c] if N < 3 or case["deep"] else t[case["t0"]:case["t0"] + 1]
    for T in itertools.product(t1, *[t] * (N - 1)):
        T = np.array(T)
        for Y in itertools.product(y, repeat=N):
            Y = np.array(Y)
            ref = conf_ref(T, Y, mode)
            for m in ms:
                check(ctx, m, T, Y, ref, N, mode, "%s batch %d" % (type(m).__name__, m.batch), [T.tolist(), Y.tolist()])
            ctx.state(mode, c, N, ref.tolist())
            if len(ctx.violations) > 3:
                return
        ctx.trace()


def close(ctx, mode, c):
    """Outputs that hardly differ, and very large and small ones."""
    for i, (T, Y) in enumerate(close_rows(mode, c)):
        ref, N = conf_ref(T, Y, mode), len(T)
        ft, fy = h5put("t%d.h5" % i, T), h5put("y%d.h5" % i, Y)
        for kind in ("elm", "hp", "elm:b", "hp:b"):
            for b in (1, 2, 1000) if kind in ("elm", "hp") else (2,):
                m = mk(kind, 2, c, mode, batch=b)
                check(ctx, m, T, Y, ref, N, mode, "%s batch %d close values %d" % (kind, b, i), [T.tolist(), Y.tolist()])
                if kind.startswith("hp"):
                    check(ctx, m, ft, fy, ref, N, mode, "%s batch %d close values %d in files" % (kind, b, i), [T.tolist(), Y.tolist()])
        ctx.state("close", mode, c, i)
    ctx.trace()


def many(ctx, mode, c, N):
    """More samples in one cell than small counters hold."""
    T = np.eye(c)[(np.arange(N) % 29 == 0) * 1]
    for i, Y in enumerate((T, T[:, ::-1])):
        ref = conf_ref(T, Y, mode)
        for kind in ("elm", "hp"):
            for b in (1000, 69999, N, N + 1):
                check(ctx, mk(kind, 2, c, mode, batch=b), T, Y, ref, N, mode, "%s %d rows batch %d predictions %d" % (kind, N, b, i), [N])
        ctx.state("many", mode, c, N, i)
    ctx.trace()


def classes(ctx, mode, c, N):
    """Many classes."""
    if mode == "ml":
        T, Y = [(rs("classes", c, k).rand(N, c) > 0.7).astype(float) for k in (0, 1)]
        ref = T.T.dot(Y)
    else:
        t, y = np.arange(N) % c, (np.arange(N) * 7 + np.arange(N) // c) % c
        T, Y, ref = np.eye(c)[t], np.eye(c)[y] + np.eye(c)[t] / 2, np.zeros((c, c))
        np.add.at(ref, (t, y), 1)
    for kind, b in (("elm", 1000), ("hp", 1000), ("elm", N // 2 + 1)):
        check(ctx, mk(kind, 2, c, mode, batch=b), T, Y, ref, N, mode, "%s %d classes batch %d" % (kind, c, b), [N])
    ctx.state("classes", mode, c, N)
    ctx.trace()


def batch(ctx, mode, c, N):
    T = targets(N, c, mode, 3)
    Y = dyadic((N, c), "Yc", mode) + np.arange(c) / 64.0
    if mode == "ml":
        Y[::3] = np.where(Y[::3] > 0, 0.5, 0.625)
    ref = conf_ref(T, Y, mode)
    if N > 100:
        bs, hows = [70, 700, 1000, N - 1, N, N + 1] if c < 12 else [1000], ["arr", "h5"]
    else:
        bs, hows = list(range(1, N + 3)) + [1000], ["arr", "F", "view", "rev", "ro", "h5", "h5e"]
    for h in hows:
        ft, fy = src(T, h, "t"), src(Y, h, "y")
        for kind in ("elm", "hp", "elm:32", "hp:b32"):
            m = mk(kind, 2, c, mode)
            for b in (bs if h in ("arr", "h5") and len(kind) < 4 else [2, 1000] if N < 100 else [1000]):
                m.batch = b
                check(ctx, m, ft, fy, ref, N, mode, "%s batch %d %s" % (kind, b, h), [N])
                if h == "h5":
                    check(ctx, m, ft, Y, ref, N, mode, "%s batch %d file/array" % (kind, b), [N])
                    check(ctx, m, T, fy, ref, N, mode, "%s batch %d array/file" % (kind, b), [N])
                ctx.state(mode, c, N, h, kind, b)
        ctx.trace()
    for dt in (np.int64, np.uint8, np.int8, np.float32, bool):
        for kind in ("elm", "hp"):
            m = mk(kind, 2, c, mode, batch=3)
            check(ctx, m, T.astype(dt), Y, ref, N, mode, "%s dtype %s" % (kind, np.dtype(dt)), [N])
            if mode == "ml":
                Yd = (Y > 0.5).astype(dt)
                check(ctx, m, T.astype(dt), Yd, ref, N, mode, "%s both %s" % (kind, np.dtype(dt)), [N])
    # mode set by training or loading
    X = data(N, 2)
    for kind in ("elm", "hp"):
        m = add(mk(kind, 2, c, batch=4), mix(2, [("tanh", 2)]))
        m.train(X, T, mode, **({"w": np.ones(c)} if mode == "wc" else {}))
        check(ctx, m, T, Y, ref, N, mode, "%s trained" % kind, [N])
        P = m.predict(X)
        if N < 100:
            check(ctx, m, T, P, conf_ref(T, P, mode), N, mode, "%s own predictions" % kind, [N])
        m2 = mk(kind, 1, 1)
        m2.loads(m.dumps())
        check(ctx, m2, T, Y, ref, N, mode, "%s loaded" % kind, [N])


def refuse(ctx):
    T = targets(6, 3, "c")
    f = h5put("t.h5", T)
    for kind in ("elm", "hp"):
        for how in ("new", "r", "reset", "loaded"):
            m = add(mk(kind, 2, 3, "c" if how == "reset" else ""), mix(2, [("tanh", 2)]))
            if how != "new":
                m.train(data(6, 2), T, "r")
            if how == "loaded":
                m2 = mk(kind, 2, 3, "c")
                m2.loads(m.dumps())
                m = m2
            for a in ((T, f) if kind == "hp" else (T,)):
                ctx.raises(lambda: m.confusion(a, a), "confusion of a regression model (%s, %s)" % (kind, how))
                ctx.step()
                ctx.state("refuse", kind, how)
    ctx.trace()
