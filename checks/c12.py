"""C12: both MRSR rankings on all small matrices, orthogonal designs and generic designs against a path-following reference."""
import itertools

from mc.lib import *
from hpelm.modules import mrsr, mrsr2

ID = "C12"
LEVEL = "model_checking"
RULE = ("case 'small' = (algorithm, regressors, targets): all regressor columns over {-1,0,1}^3 x target columns, every "
        "limit 1..m+2: distinct valid indices, requested count, prefix consistency, largest correlation first; case 'orth' = "
        "all assignments of correlation sizes and signs to orthogonal regressors; case 'path' = generic designs, the "
        "order of the whole path, at every exact scaling of regressors or targets by 2^-14..2^6; case 'dup' = duplicated, dependent, zero and scaled regressors")
ASSUMPTIONS = ["correlation over several targets is the L1 (mrsr) or L2 (mrsr2) norm", "ties may be broken in any way"]
TIMEOUT = 120
ALG = {"mrsr": (mrsr, 1), "mrsr2": (mrsr2, 2), "mrsr2 norm=1": (lambda X, T, k: mrsr2(X, T, k, norm=1), 1)}


def cases(tier):
    deep = tier == "thorough"
    for a in ALG:
        for m in (1, 2, 3):
            for p in (1, 2, 9, 12) if a != "mrsr" else (1, 2, 3, 9):
                for part in range(8):
                    if m == 3 and (p == 9 and a == "mrsr" or p > 1 and a[5:]) and not deep and part % 4:
                        continue
                    yield {"k": "small", "a": a, "m": m, "p": p, "part": part, "deep": deep}
        for m in (2, 3, 4) + ((5,) if deep else ()):
            for p in (1, 2, 3, 11 if a != "mrsr" else 8):
                yield {"k": "orth", "a": a, "m": m, "p": p, "deep": deep}
        for m in (1, 2, 3, 4, 6, 9) + ((14, 20) if deep else ()):
            for p in (1, 2, 3, 4, 9) + ((10, 15, 30) if a != "mrsr" else ()):
                yield {"k": "path", "a": a, "m": m, "p": p, "n": 6 if not deep else 40}
        for m in (130, 260, 300) + ((600,) if deep else ()):
            yield {"k": "many", "a": a, "m": m, "p": 2}
        for m in (2, 3, 5, 8):
            for p in (1, 2, 5, 9) + ((10, 13) if a != "mrsr" else ()):
                yield {"k": "dup", "a": a, "m": m, "p": p}


def rank(a, X, T, k):
    return list(ALG[a][0](X, T, k))


def basic(ctx, a, X, T, what, sub=None):
    """The claims that hold for every matrix; returns the full ranking."""
    m = X.shape[1]
    X0, T0 = X.copy(), T.copy()
    prev = None
    for k in range(m + 2, 0, -1):
        r = rank(a, X, T, k)
        ctx.step()
        if not ctx.ok(len(r) == min(k, m), "%s limit %d: %d indices %s" % (what, k, len(r), r), sub):
            return None
        r = [int(i) for i in r]
        if not ctx.ok(len(set(r)) == len(r) and all(0 <= i < m for i in r), "%s limit %d: not distinct valid indices: %s" % (what, k, r), sub):
            return None
        if prev is not None and not ctx.ok(prev[:len(r)] == r, "%s: limit %d gives %s, a larger limit %s" % (what, k, r, prev), sub):
            return None
        prev = prev or r
    c = np.linalg.norm(T.T.dot(X), ALG[a][1], axis=0)
    ctx.ok(c[prev[0]] >= c.max() * (1 - 1e-9), "%s: first is %d with correlation %s of %s" % (what, prev[0], c[prev[0]], c), sub)
    ctx.ok(np.array_equal(X, X0) and np.array_equal(T, T0), what + ": input changed", sub)
    return prev


def run(case, ctx):
    {"small": small, "orth": orth, "path": path, "dup": dup, "many": many}[case["k"]](case, ctx)


def small(case, ctx):
    a, m, p = case["a"], case["m"], case["p"]
    cols = [np.array(c, float) for c in itertools.product((-1, 0, 1), repeat=3)]
    ts = [np.array(t) for t in ((1.0, 2, -1), (0, 0.5, 1), (-1, -1, -1), (0, 0, 0))]
    combos = itertools.product(cols, repeat=m)
    step = {1: 1, 2: 1, 3: 1 if case["deep"] else (19 if a != "mrsr" else 7)}[m]
    for i, xs in enumerate(combos):
        if i % 8 != case["part"] or (i // 8) % step:
            continue
        X = np.array(xs).T
        for t in range(len(ts)):
            T = np.array([np.roll(ts[(t + j) % 4] * (1 + j // 4), j // 4) for j in range(p)]).T
            r = basic(ctx, a, X, T, "%s 3x%d, %d targets" % (a, m, p), [X.tolist(), T.tolist()])
            if r is None or len(ctx.violations) > 3:
                return
            ctx.state(a, m, p, xs, t)
    ctx.trace()


def orth(case, ctx):
    """Orthogonal regressors: order by correlation."""
    a, m, p = case["a"], case["m"], case["p"]
    n = 8
    Q = np.array([[(-1.0) ** bin(i & j).count("1") for j in range(n)] for i in range(n)])     # orthogonal, +-1
    for scale in (1.0, 1 / 64.0, 32.0):
        for perm in itertools.permutations(range(m)):
            for signs in itertools.product((1, -1), repeat=m) if m < 4 or case["deep"] else [(1, -1, 1, -1), (-1, 1, 1, 1)]:
                X = Q[:, 1:m + 1] * scale
                Cf = np.zeros((m, p))
                for j in range(m):
                    for q in range(p):
                        Cf[j, q] = signs[j] * (perm[j] + 1.0) * (1 if (j + q) % 3 else -1) * (1 + q % 2)
                T = Q[:, 1:m + 1].dot(Cf) + 0.5 * Q[:, [7]]
                c = np.linalg.norm(T.T.dot(X), ALG[a][1], axis=0)
                what = "%s orthogonal regressors scale %s correlations %s, %d targets" % (a, scale, np.round(c, 3), p)
                r = basic(ctx, a, X, T, what)
                if r is None or not ctx.ok(r == list(np.argsort(-c)), "%s: ranked %s" % (what, r)):
                    return
                ctx.state(a, m, p, perm, signs, scale)
    ctx.trace()


def follow(X, T, o):
    """Path of multi-response sparse regression by bisection; None if two regressors come at nearly the same point."""
    m = X.shape[1]
    Y = np.zeros_like(T)
    c = np.linalg.norm(T.T.dot(X), o, axis=0)
    order = [int(np.argmax(c))]
    if m > 1 and np.sort(c)[-2] > 0.999 * c.max():
        return None
    while len(order) < m:
        A = X[:, order]
        F = A.dot(np.linalg.lstsq(A, T, rcond=None)[0])
        last = order[-1]
        cm = np.linalg.norm((T - Y).T.dot(X[:, last]), o)
        if cm < 1e-6 * c.max():
            return None
        gs = {}
        for j in range(m):
            if j in order:
                continue
            f = lambda g: (1 - g) * cm - np.linalg.norm((T - Y - g * (F - Y)).T.dot(X[:, j]), o)   # concave, f(0) >= 0
            if f(1.0) > -1e-9:
                gs[j] = 1.0
                continue
            lo, hi = 0.0, 1.0
            for _ in range(60):
                mid = (lo + hi) / 2
                lo, hi = (mid, hi) if f(mid) >= 0 else (lo, mid)
            gs[j] = lo
        best = sorted(gs, key=lambda j: gs[j])
        if gs[best[0]] > 0.999 or len(best) > 1 and gs[best[1]] - gs[best[0]] < 1e-3:
            return None
        Y = Y + gs[best[0]] * (F - Y)
        order.append(best[0])
    return order


def path(case, ctx):
    a, m, p = case["a"], case["m"], case["p"]
    for key in range(case["n"]):
        for N in (m + 3, 4 * m + 20):
            X = rs("path", m, key, N).randn(N, m)
            if key % 3 == 1:
                X = X + 0.8 * X[:, [0]]         # correlated regressors
            if key % 3 == 2:
                X = X * 2.0 ** (np.arange(m) % 4)
            T = X.dot(rs("pathb", m, p, key).randn(m, p)) + rs("pathe", N, p, key).randn(N, p)
            what = "%s %dx%d, %d targets, design %d" % (a, N, m, p, key)
            r = basic(ctx, a, X, T, what)
            want = follow(X, T, ALG[a][1])
            if want is None:
                ctx.count("ties skipped")
            elif r is not None:
                ctx.ok(r == want, "%s: ranked %s instead of %s" % (what, r, want))
            rF = rank(a, np.asfortranarray(X), np.asfortranarray(T), m)
            ctx.ok(r is None or [int(i) for i in rF] == r, "%s: other order %s for Fortran arrays" % (what, rF))
            for e in range(-14, 7, 2) if want is not None and r is not None else ():      # exact scaling changes no ratio
                for sx, st in ((2.0 ** e, 1.0), (1.0, 2.0 ** e)) if key < 2 or case["n"] > 6 else ((2.0 ** (e + key % 2), 1.0),):
                    rS = rank(a, X * sx, T * st, m)
                    ctx.step()
                    ctx.ok([int(i) for i in rS] == r, "%s: regressors scaled by %s, targets by %s: ranked %s instead of %s" % (what, sx, st, rS, r))
            ctx.state(a, m, p, key, N)
    ctx.trace()


def many(case, ctx):
    """Many orthogonal regressors: order by correlation, for a few limits."""
    a, m, p = case["a"], case["m"], case["p"]
    for kind in ("identity", "walsh"):
        if kind == "identity":
            Q = np.eye(m)
        else:
            n = 1 << int(m).bit_length()
            i = np.arange(n)
            b = i[:, None] & i[None, :]
            par = np.zeros((n, n), int)
            while b.any():
                par ^= b & 1
                b = b >> 1
            Q = (1.0 - 2 * par)[:, 1:m + 1]
        order = rs("many", m, kind).permutation(m)
        size = np.empty(m)
        size[order] = 1 + np.arange(m, 0, -1) / 8.0
        Cf = np.stack([size * (-1.0) ** ((np.arange(m) * (q + 1)) // 2) for q in range(p)], 1)
        T = Q.dot(Cf)
        for k in (m + 2, m, m - 1, 127, 129, 1):
            r = rank(a, Q, T, k)
            ctx.step()
            ctx.ok([int(j) for j in r] == list(order[:k]), "%s %d orthogonal regressors (%s), limit %d: ranked %s..., expected %s..." % (
                a, m, kind, k, list(r)[:9], list(order[:9])))
            ctx.state(a, m, kind, k)
    ctx.trace()


def dup(case, ctx):
    a, m, p = case["a"], case["m"], case["p"]
    n = 2 * m + 4
    X0 = rs("dup", m).randn(n, m)
    T = X0[:, :1].dot(np.ones((1, p)) * 3) + rs("dupt", m, p).randn(n, p)
    forms = {"one copy": lambda X: X[:, [0] + list(range(m - 1))], "all copies": lambda X: X[:, [0] * m],
             "pairs": lambda X: X[:, [j // 2 for j in range(m)]], "zero": lambda X: X * (np.arange(m) > 0),
             "all zero": lambda X: X * 0, "sum": lambda X: np.hstack((X[:, :m - 1], X[:, :m - 1].sum(1, keepdims=True))),
             "opposite": lambda X: X[:, [0] + [0] + list(range(1, m - 1))] * np.where(np.arange(m) == 1, -1, 1),
             "constant": lambda X: np.where(np.arange(m) == m - 1, 1.0, X), "tiny": lambda X: X * 1e-8,
             "mixed scales": lambda X: X * 10.0 ** (4 * (np.arange(m) % 3) - 4), "few rows": lambda X: X[:max(1, m - 1)],
             "one row": lambda X: X[:1], "exact": lambda X: X, "same targets": lambda X: X}
    for name, f in sorted(forms.items()):
        X = f(X0)
        t = T[:X.shape[0]]
        if name == "exact":
            t = X[:, :1].dot(np.ones((1, p)))
        if name == "same targets":
            t = T[:, [0] * p]
        basic(ctx, a, X, t, "%s %s, %d regressors, %d targets" % (a, name, m, p))
        ctx.state(a, m, p, name)
    ctx.trace()
