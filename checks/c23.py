"""C23: every neuron type on grids of inputs, weights and biases against its formula; rows independent of each other."""
import itertools

from mc.lib import *

ID = "C23"
LEVEL = "model_checking"
RULE = ("case 'grid' = (class:solver, type, inputs): all input rows x all weight columns over a value alphabet x all biases; "
        "case 'rows' = (class:solver, types): every subset and order of up to 5 rows, duplicated rows, row counts up to 2001, "
        "projected, predicted and streamed with every batch size; case 'types' = every ordered pair and triple of types in "
        "one network; case 'input' = every dtype and memory layout, 1-d input, extreme values")
ASSUMPTIONS = ["agreement up to 1e-11 relative in double and 1e-5 in single precision"]
TIMEOUT = 120
UF = tuple(sorted(UFUNCS))
ALL = TYPES + UF
KINDS = ("elm", "elm:b", "hp", "hp:b", "elm:32", "elm:b32", "hp:32")


def tol(kind):
    return 1e-5 if kind.endswith("32") else 1e-11


def cases(tier):
    deep = tier == "thorough"
    for kind in KINDS:
        for f in ALL:
            for d in (1, 2, 3, 7, 70, 260) if not deep else (1, 2, 3, 4, 7, 30, 101, 260, 1100):
                yield {"k": "grid", "kind": kind, "f": f, "d": d}
    for kind in KINDS:
        for f in ALL:
            yield {"k": "rows", "kind": kind, "f": f, "n": 4 if not deep else 5}
    for kind in KINDS[:4]:
        for f in ALL:
            for g in ALL:
                yield {"k": "types", "kind": kind, "fs": [f, g], "deep": deep}
    for kind in KINDS:
        for f in ALL:
            yield {"k": "input", "kind": kind, "f": f}


def biases(f):
    return (0.25, 1, 3.5, 40) if f.startswith("rbf") else (-2, -0.5, 0, 0.75, 3)


def run(case, ctx):
    {"grid": grid, "rows": rows, "types": types, "input": input_}[case["k"]](case, ctx)


def net(kind, d, f, W, B, **kw):
    m = mk(kind, d, 2, norm=0.5, **kw)
    m.add_neurons(W.shape[1], func_of(f), W.copy(), B.copy())
    return m


def grid(case, ctx):
    kind, f, d = case["kind"], case["f"], case["d"]
    alpha = {1: np.arange(-24, 25) / 8.0, 2: (-3, -1.25, -0.5, 0, 0.125, 1, 2.5), 3: (-1.5, 0, 0.5, 2)}.get(d)
    if alpha is None:
        X = np.vstack([dyadic((12, d), "grid"), np.eye(d)[:12], -np.eye(d)[:12], np.zeros((1, d))])
        cols = np.vstack([dyadic((9, d), "gridw"), np.eye(d)[:12], np.zeros((1, d))])
    else:
        X = np.array(list(itertools.product(alpha, repeat=d)))
        cols = np.array(list(itertools.product(alpha if d < 3 else (-1.5, 0, 0.5), repeat=d)))
    bs = biases(f)
    W = np.array([w for w in cols for b in bs], dtype=float).T
    B = np.array([b for w in cols for b in bs], dtype=float)
    m = net(kind, d, f, W, B)
    H = m.project(X)
    want = np.empty((len(X), len(B)))
    for j in range(len(B)):
        want[:, j] = h_col(X, f, W[:, j], B[j])
    ctx.step(want.size)
    ctx.state(kind, f, d)
    ctx.trace(len(B))
    # relative error per entry: a common scale would hide small values
    if ctx.close(H, want, "%s %s d=%d" % (kind, f, d), 1e-4 if kind.endswith("32") else 1e-11):
        bad = np.abs(H - want) > tol(kind) * (1 + np.abs(want)) * (20 if kind.endswith("32") else 1)
        if bad.any() and f != "np.floor":
            i, j = np.argwhere(bad)[0]
            ctx.fail("%s %s d=%d x=%s w=%s b=%s: %r instead of %r" % (kind, f, d, X[i], W[:, j], B[j], H[i, j], want[i, j]))
    ctx.ok(np.asarray(H).dtype.kind == "f", "hidden layer has dtype %s" % np.asarray(H).dtype)
    # one neuron alone, and the same neurons added one by one
    for j in range(0, len(B), max(1, len(B) // 12)):
        one = net(kind, d, f, W[:, j:j + 1], B[j:j + 1])
        ctx.close(one.project(X), want[:, j:j + 1], "%s %s d=%d one neuron w=%s b=%s" % (kind, f, d, W[:, j], B[j]),
                  20 * tol(kind))
        ctx.step()


def rows(case, ctx):
    kind, f, n = case["kind"], case["f"], case["n"]
    d, L = 2, 3
    _, _, W, B = group(d, f, L, "rows")
    X = data(n, d, "rows")
    m = net(kind, d, f, W, B)
    beta = dyadic((L, 2), "beta")
    m.nnet.set_B(beta.astype(prec(kind)))
    want = np.stack([h_col(X, f, W[:, j], B[j]) for j in range(L)], 1)
    t = 4 * tol(kind)
    for k in range(1, n + 1):
        for idx in itertools.permutations(range(n), k):
            idx = list(idx)
            ctx.close(m.project(X[idx]), want[idx], "%s %s rows %s" % (kind, f, idx), t)
            ctx.close(m.predict(X[idx]), want[idx].dot(beta), "%s %s predict rows %s" % (kind, f, idx), 4 * t)
            ctx.step(2)
        ctx.state(kind, f, k)
    for idx in itertools.product(range(3), repeat=3):       # repeated rows
        ctx.close(m.project(X[list(idx)]), want[list(idx)], "%s %s rows %s" % (kind, f, idx), t)
        ctx.step()
    for k in (129, 257, 513, 1001) if f != "np.floor" else ():       # many neurons
        _, _, Wk, Bk = group(d, f, k, "wide")
        ctx.close(net(kind, d, f, Wk, Bk).project(X), np.stack([h_col(X, f, Wk[:, j], Bk[j]) for j in range(k)], 1), "%s %s %d neurons" % (kind, f, k), t)
        ctx.step()
    for N in (1, 2, 255, 256, 257, 999, 1000, 1001, 2001, 8001, HUGE):
        X = data(N, d, "many")
        want = np.stack([h_col(X, f, W[:, j], B[j]) for j in range(L)], 1)
        for b in (1000, 1, 7, 500, N, N + 1) if kind.startswith("hp") else (1000, 7):
            if b < 7 and N > 300 or b < 1000 and N > 3000:
                continue
            m.batch = b
            ctx.close(m.project(X), want, "%s %s N=%d batch=%d" % (kind, f, N, b), t)
            ctx.close(m.predict(X), want.dot(beta), "%s %s predict N=%d batch=%d" % (kind, f, N, b), 4 * t)
            ctx.step(2)
        ctx.state(kind, f, "many", N)
    ctx.trace()


def types(case, ctx):
    kind, d = case["kind"], 2
    thirds = ("",) + (ALL if case["deep"] else ("tanh", "rbf_l2", "np.sin"))
    X = data(9, d, "types")
    for third in thirds:
        fs = case["fs"] + ([third] if third else [])
        G = [group(d, f, 1 + i % 2, ("types", i)) for i, f in enumerate(fs)]
        m = add(mk(kind, d, 2, norm=0.5), G)
        want = h_ref(X, G)
        ctx.close(m.project(X), want, "%s types %s" % (kind, fs), 4 * tol(kind))
        beta = dyadic((want.shape[1], 2), "beta")
        m.nnet.set_B(beta.astype(prec(kind)))
        ctx.close(m.predict(X), want.dot(beta), "%s predict with types %s" % (kind, fs), 20 * tol(kind))
        ctx.step(2)
        ctx.state(kind, fs)
        ctx.trace()


def input_(case, ctx):
    kind, f = case["kind"], case["f"]
    for d in (1, 3):
        _, _, W, B = group(d, f, 3, "input")
        m = net(kind, d, f, W, B)
        base = np.array(rs("ints", d).randint(0, 4, size=(6, d)), float)
        for dt in ("f8", "f4", "i8", "i4", "i2", "i1", "u1", "u2", "u8", "?", ">f8"):
            A = (base > 1) if dt == "?" else (base - (2 if dt[-2] in "if" else 0)).astype(dt)
            want = np.stack([h_col(A, f, W[:, j], B[j]) for j in range(3)], 1)
            for how in ("arr", "F", "view", "rev", "ro"):
                ctx.close(m.project(src(A, how)), want, "%s %s dtype %s layout %s" % (kind, f, dt, how), 8 * tol(kind))
                ctx.step()
                if d == 1:
                    ctx.close(m.project(src(A[:, 0], how)), want, "%s %s 1-d dtype %s layout %s" % (kind, f, dt, how),
                              8 * tol(kind))
                    ctx.step()
            ctx.state(kind, f, d, dt)
            if kind.startswith("hp") and dt not in (">f8",):
                ctx.close(m.project(src(A, "h5", "x%s" % ord(dt[0]) + dt[1:])), want, "%s %s HDF5 %s" % (kind, f, dt), 8 * tol(kind))
    # data far from the origin: distances keep their relative accuracy
    if f.startswith("rbf"):
        for d in (1, 3):
            for off in (2.0 ** 14, -2.0 ** 17) if kind.endswith("32") else (2.0 ** 20, -2.0 ** 30, 2.0 ** 40):
                X = off + np.array(list(itertools.product((0, 1.0, -2), repeat=d)))
                W = off + np.array(list(itertools.product((0, 1.0), repeat=d))).T
                B = np.full(W.shape[1], 4.0)
                m = net(kind, d, f, W, B)
                want = np.stack([h_col(X, f, W[:, j], B[j]) for j in range(len(B))], 1)
                ctx.close(m.project(X), want, "%s %s data around %g" % (kind, f, off), 8 * tol(kind))
                ctx.step()
    # large arguments: the documented function, not an overflow error or NaN
    if f not in ("np.exp2",):
        X = np.array([[-1e4], [-800.0], [-50], [0], [50], [800], [1e4]])
        W = np.array([[1.0, -1.0, 0.5]])
        B = np.array([1.0, 2.0, 100.0])
        m = net(kind, 1, f, W, B)
        want = np.stack([h_col(X, f, W[:, j], B[j]) for j in range(3)], 1)
        ctx.close(m.project(X) / (1 + np.abs(want)), want / (1 + np.abs(want)), "%s %s large values" % (kind, f), 20 * tol(kind))
        ctx.step()
    ctx.trace()
