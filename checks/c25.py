"""C25: rbf_param under every outcome of its random choices."""
import itertools

from mc.lib import *
from hpelm.modules.rbf_param import rbf_param

ID = "C25"
LEVEL = "model_checking"
RULE = ("case = (rows, inputs, data kind, neurons, distance, source): every outcome of the random selection of pairs and of "
        "centroids (small data), and every sequence of uniform numbers over {0, 1/4, 1/2, 3/4, almost 1} until enough "
        "positive widths are found; larger data with representative outcomes; use of the result in add_neurons")
ASSUMPTIONS = ["random numbers come from numpy.random.choice and rand (otherwise several fixed generator states are tried)",
               "a uniform number that allows a positive width is drawn eventually"]
TIMEOUT = 120
U = (0.0, 0.25, 0.5, 0.75, 1 - 2.0 ** -53)


class TooLong(Exception):
    pass


def rows(kind, N, d):
    if kind == "distinct":
        return data(N, d, "rbf") + np.arange(N)[:, None] * 4
    if kind == "pairs":         # few different rows
        return data(N, d, "rbf")[np.arange(N) // 2] + (np.arange(N) // 2)[:, None]
    if kind == "last":          # only the last row differs
        X = np.zeros((N, d))
        X[-1, -1] = 2
        return X
    if kind == "first":
        X = np.ones((N, d))
        X[0, 0] = -1
        return X
    if kind == "int":
        return np.arange(N * d).reshape(N, d) * 3 % 17 + np.arange(N)[:, None] * 20
    if kind == "tiny":
        return (data(N, d, "rbf") + np.arange(N)[:, None] * 4) * 1e-3
    raise ValueError(kind)


def cases(tier):
    deep = tier == "thorough"
    for kind in ("distinct", "pairs", "last", "first", "int", "tiny"):
        for N in (2, 3, 4) + ((5,) if deep else ()):
            for d in (1, 2):
                for dist in ("l2", "l1", "linf", "default"):
                    for source in ("arr", "h5", "h5e"):
                        if N == 4 and d == 2 and not deep and (dist not in ("default", "linf") or kind in ("int", "tiny")) or source == "h5e" and (kind != "last" or N > 2) and not deep or source != "arr" and (N > 3 or dist not in ("l2", "default")) or kind == "pairs" and N == 2:
                            continue
                        for k in (1, 2) + ((3,) if deep else ()):
                            if N == 5 and k == 3:
                                continue
                            yield {"k": "all", "kind": kind, "N": N, "d": d, "n": k, "dist": dist, "src": source, "deep": deep}
        for N in (2, 7, 50, 1200):
            for n in (1, 5, 30, 120, 601):
                for source in ("arr", "F", "view", "ro", "h5", "h5e"):
                    if n == 601 and (source not in ("arr", "h5") or N not in (7, 1200) or kind not in ("distinct", "last")) or N in (2, 50) and source in ("F", "view", "ro") or N == 2 and kind == "pairs" or N == 1200 and (n in (5, 30) or n > 30 and source not in ("arr", "h5") or source == "h5e"):
                        continue
                    yield {"k": "large", "kind": kind, "N": N, "d": 3, "n": n, "src": source}


def kw(dist):
    return {} if dist == "default" else {"kind": "rbf_" + dist}


def greatest(X, dist, memo={}):
    """Greatest distance between two rows."""
    key = (X.tobytes(), X.shape, dist)
    if key not in memo:
        X = np.asarray(X, float)
        memo.clear() if len(memo) > 50 else None
        memo[key] = 0
        for x in X:
            A = np.abs(X - x)
            memo[key] = max(memo[key], float({"l1": A.sum(1), "linf": A.max(1)}.get(dist, (A ** 2).sum(1)).max()))
    return memo[key]


def check(ctx, res, X, n, what, sub=None, dist=None):
    ctx.step()
    W, B = np.asarray(res[0]), np.asarray(res[1])
    rows_ = {tuple(r) for r in X.tolist()}
    if not ctx.ok(W.shape == (X.shape[1], n) and B.shape == (n,), "%s: shapes %s %s" % (what, W.shape, B.shape), sub):
        return False
    ok = ctx.ok(np.isfinite(B).all() and (B > 0).all(), "%s: widths %s" % (what, B), sub)
    if dist is not None:        # mean + deviation of numbers in [0, D] is at most 1.21 D
        D = greatest(X, dist)
        ok &= ctx.ok((B <= 1.22 * D).all(), "%s: widths %s, the greatest distance is %s" % (what, B, D), sub)
    for j in range(n):
        ok &= ctx.ok(tuple(W[:, j].tolist()) in rows_, "%s: centroid %s is not a row of the data" % (what, W[:, j]), sub)
    return ok


class Choices(object):
    """Replaces numpy's random selection by given outcomes; records how it was used."""

    def __init__(self, pairs, cents, us):
        self.pairs, self.cents, self.us = pairs, cents, us
        self.calls, self.n, self.limit = [], 0, 200 + 20 * len(cents)

    def __enter__(self):
        self.real = np.random.choice, np.random.rand
        np.random.choice, np.random.rand = self.choice, self.rand
        return self

    def __exit__(self, *a):
        np.random.choice, np.random.rand = self.real

    def choice(self, a, size=None, replace=True, p=None):
        ix = self.pairs if not self.calls else self.cents
        m = a if np.isscalar(a) else len(a)
        n = 1 if size is None else int(np.prod(size))
        r = np.array([ix[i % len(ix)] % m for i in range(n)], dtype=int)
        if not replace:
            r = (np.arange(n) + r[0]) % m
        self.calls.append((m, n))
        r = r if np.isscalar(a) else np.asarray(a)[r]
        return r.reshape(size) if size is not None else r[0]

    def rand(self, *shape):
        self.n += 1
        if self.n > self.limit:
            raise TooLong()
        n = int(np.prod(shape)) if shape else 1
        r = np.array([self.us[(self.n - 1 + i) % len(self.us)] for i in range(n)])
        return r.reshape(shape) if shape else float(r[0])


def run(case, ctx):
    X = rows(case["kind"], case["N"], case["d"])
    n = case["n"]
    f = src(X, case["src"], "x")
    before = X.copy()
    if case["k"] == "large":
        return large(case, ctx, X, f)
    N, d = X.shape
    Nk = min(10 * n, N - 1)
    used = True
    for pairs in itertools.product(range(N), repeat=Nk):
        for cents in itertools.product(range(N), repeat=n) if not (N == 4 and n == 2 and not case["deep"]) else \
                itertools.combinations_with_replacement(range(N), n):
            # first numbers vary over all of U^2; then 3/4, for which mean+std/2 is positive
            firsts = itertools.product(U, repeat=2) if sum(pairs) % 3 == 0 and sum(cents) % 2 == 0 else [(U[sum(pairs) % 5],)]
            for us in firsts:
                sub = {"pairs": pairs, "centroids": cents, "uniform": us}
                what = "%s %dx%d %s n=%d" % (case["kind"], N, d, case["dist"], n)
                with Choices(pairs, cents, list(us) + [0.75]) as c:
                    try:
                        res = rbf_param(f, n, **kw(case["dist"]))
                    except TooLong:
                        ctx.fail(what + ": does not end whatever uniform numbers are drawn", sub)
                        return
                if not check(ctx, res, X, n, what, sub, case["dist"]):
                    return
                ctx.state(case["kind"], N, d, n, case["dist"], pairs, cents, us)
                used &= bool(c.calls)
        if not used:
            break
    if not used:        # another source of random numbers
        ctx.count("other generator")
        for seed in range(200):
            np.random.seed(seed)
            check(ctx, rbf_param(f, n, **kw(case["dist"])), X, n, "generator state %d" % seed, None, case["dist"])
    ctx.ok(np.array_equal(np.asarray(f if not isinstance(f, str) else h5get(f)), before), "data changed")
    if isinstance(f, str):
        os.remove(f)
    ctx.trace()


def large(case, ctx, X, f):
    N, n = len(X), case["n"]
    for dist in ("l2", "l1", "linf", "default"):
        for pairs in ([0], [N - 1], list(range(N)), list(range(N))[::-1], [0, N // 2], list(range(1, N)) + [0]):
            for us in ([0.0, 0.75], [0.5], list(U)):
                what = "%s N=%d n=%d %s pairs %s" % (case["kind"], N, n, dist, pairs[:4])
                with Choices(pairs, pairs[::-1] + [0] * n, us + [0.75]) as c:
                    try:
                        res = rbf_param(f, n, **kw(dist))
                    except TooLong:
                        ctx.fail(what + ": does not end")
                        return
                if not check(ctx, res, X, n, what, None, dist):
                    return
                ctx.state(case["kind"], N, n, dist, pairs[:3], us)
        m = mk("elm", X.shape[1], 1, norm=0.5)
        m.add_neurons(n, "rbf_" + (dist if dist != "default" else "l2"), res[0], res[1])
        H = m.project(np.asarray(X, float))
        ctx.close(H, h_ref(X, [(n, "rbf_" + (dist if dist != "default" else "l2"), res[0], res[1])]), "neurons with these parameters")
        ctx.ok(abs(H.max(0) - 1).max() < 1e-9, "a centroid does not give 1")
        ctx.step()
    ctx.trace()
