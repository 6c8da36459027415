"""C11: model structure selection against an independent computation of every candidate's error.

The random ranking is an environment choice: np.random.shuffle/permutation are replaced by a chooser that runs through
every order of small networks.
"""
import itertools

from mc.lib import *
from hpelm.modules import mrsr, mrsr2

ID = "C11"
LEVEL = "model_checking"
RULE = ("case 'V'/'CV'/'LOO' = network x mode x solver: every order the random ranking can give for networks of up to 4/5 neurons "
        "(CV: the same order in all folds and every single fold deviating; thorough: all combinations), rotations and reversals for "
        "larger ones; case 'OP' = network x outputs on both sides of the switch of algorithms x every kmax; case 'seq' = all pairs of "
        "selection methods on one model; 'again' = all pairs of selection methods and options, neurons added between, against a model "
        "without history; the chosen size, subset, weights and returned errors are compared with direct solutions")
ASSUMPTIONS = ["leave-one-out errors of classification count a wrong sample by its squared PRESS factor", "parts of cross-validation are "
               "every k-th row; part i is the test, the part before it the validation part",
               "with kmax, the penalty may refer to kmax or to all neurons", "no ties of outputs decide between two sizes"]
TIMEOUT = 200

MODES = ("r", "c", "wc", "wcw", "ml")
NETS = {1: ["tanh:1", "lin:1"], 2: ["tanh:2", "lin:1,rbf_l2:1"], 3: ["sigm:1,tanh:2", "np.sin:3"], 4: ["tanh:3,lin:1", "rbf_l2:2,sigm:2"],
        5: ["tanh:5", "lin:2,sigm:3"], 6: ["tanh:4,lin:2"], 7: ["sigm:3,tanh:4"], 8: ["tanh:6,lin:2"], 12: ["tanh:6,rbf_l1:4,lin:2"],
        17: ["tanh:10,sigm:5,lin:2"], 30: ["tanh:28,lin:2"]}


def cases(tier):
    deep = tier == "thorough"
    for L in (1, 2, 3, 4, 5):
        for n, net in enumerate(NETS[L]):
            for mode in MODES:
                for m in ("V", "LOO"):
                    for kind in ("elm", "elm:b") + (("elm:32",) if m == "V" else ()):
                        if L >= 4 and kind != "elm" and not deep and n:
                            continue
                        yield {"k": m, "net": net, "mode": mode, "kind": kind, "perms": "all"}
    for L in (5, 6, 7, 8, 12, 17, 30):
        for net in NETS[L]:
            for mode in MODES:
                for m in ("V", "LOO", "CV"):
                    if m == "CV" and L > 12 and not deep:
                        continue
                    yield {"k": m, "net": net, "mode": mode, "kind": "elm", "perms": "rot", "ks": [3, 4, 7] if deep else [3, 5]}
    for L in (1, 2, 3, 4, 5):
        for net in NETS[L]:
            for mode in MODES:
                yield {"k": "CV", "net": net, "mode": mode, "kind": "elm" if L != 3 else "elm:b", "ks": [3, 4] if L < 5 else [3],
                       "perms": "full" if deep and L == 4 else "dev" if L < 5 else "rot"}
    for mode in MODES:      # many parts, down to one row
        yield {"k": "CV", "net": NETS[5][1], "mode": mode, "kind": "elm", "perms": "rot", "ks": [6, 7, 8, 10, 11, 20, 21] if deep else [7, 10, 21]}
    for L in (1, 2, 5, 8) + ((12,) if deep else ()):
        for net in NETS[L][:1]:
            for c, mode in [(1, "r"), (2, "r"), (3, "c"), (3, "wcw"), (2, "ml"), (10, "r"), (12, "wc")] + ([(4, "c"), (11, "ml")] if deep else []):
                yield {"k": "OP", "net": net, "c": c, "mode": mode}
    for c, mode in [(1, "r"), (3, "c"), (10, "r")]:     # more neurons than half of the samples
        yield {"k": "OP", "net": NETS[17][0], "c": c, "mode": mode, "ks": (None, 1, 5, 16, 17)}
    for c, mode in [(1, "r"), (3, "c"), (2, "ml"), (11, "r")]:      # many samples: the last ones matter too
        for m in ("V", "LOO", "CV"):
            yield {"k": "OP", "net": NETS[4][0], "c": c, "mode": mode, "big": m}
    for m in ("V", "LOO", "CV"):
        for mode in MODES:
            yield {"k": "inputs", "m": m, "mode": mode, "deep": deep}
    for m in ("V", "LOO", "CV"):
        for mode in ("r", "c"):
            yield {"k": "random", "m": m, "mode": mode}
    for mode in MODES:
        for kind in ("elm", "elm:b"):
            yield {"k": "seq", "mode": mode, "kind": kind}
            yield {"k": "again", "mode": mode, "kind": kind}


class Order(object):
    """Environment choice for the random order of neurons: the given permutations, one per request."""

    def __init__(self, perms):
        self.perms, self.calls, self.ok = list(perms), 0, True

    def take(self, n):
        p = self.perms[min(self.calls, len(self.perms) - 1)]
        self.calls += 1
        if len(p) != n:
            self.ok = False
            return np.arange(n)
        return np.array(p)

    def __enter__(self):
        self.real = np.random.shuffle, np.random.permutation

        def shuffle(x):
            p = self.take(len(x))
            y = [x[i] for i in p]
            x[:] = y

        def permutation(x):
            if np.ndim(x) == 0:
                return self.take(int(x))
            x = np.asarray(x)
            return x[self.take(len(x))]
        np.random.shuffle, np.random.permutation = shuffle, permutation
        return self

    def __exit__(self, *a):
        np.random.shuffle, np.random.permutation = self.real


def run(case, ctx):
    {"V": single, "LOO": single, "CV": cross, "OP": op, "seq": seq, "again": again, "inputs": inputs, "random": random_}[case["k"]](case, ctx)


# ---- reference -----------------------------------------------------------------------------------------------------

def err_iv(T, Y, mode, wc, tol=1e-9, R=None):
    """(lowest, highest) error; outputs closer than tol may order either way. R: PRESS factors."""
    N, c = T.shape
    if mode == "r":
        D = Y - T if R is None else (Y - T) / R[:, None]
        e = float((D ** 2).mean())
        return e - tol * (1 + e), e + tol * (1 + e)
    lo, hi = np.zeros((N, c)), np.zeros((N, c))
    if mode == "ml":
        wrong = (Y > 0.5) != (T > 0.5)
        near = np.abs(Y - 0.5) < tol
        lo[:], hi[:] = wrong & ~near, wrong | near
    else:
        t = T.argmax(1)
        own = Y[np.arange(N), t]
        other = np.where(np.arange(c)[None, :] == t[:, None], -np.inf, Y).max(1)
        lo[:] = (other > own + tol)[:, None]
        hi[:] = (other > own - tol)[:, None]
    f = np.ones(N) if R is None else 1.0 / R ** 2
    if mode in ("c", "ml"):
        return float((lo * f[:, None]).mean()), float((hi * f[:, None]).mean())
    res = []
    for w in (lo, hi):
        s = 0.0
        for k in range(c):
            rows = np.where(T[:, k] == 1)[0]
            if len(rows):
                s += wc[k] * (w[rows, 0] * f[rows]).mean()
        res.append(s / np.sum(wc))
    return tuple(res)


class Setup(object):
    def __init__(self, net, mode, kind="elm", c=None, N=24, Nv=15, d=2, norm=0.125):
        self.mode, self.kind = mode, kind
        self.m = {"wcw": "wc"}.get(mode, mode)
        self.c = c = c or (1 if mode == "r" else 3)
        self.groups = spec_mix(d, net, "c11")
        self.L = sum(g[0] for g in self.groups)
        self.norm = norm
        N, Nv = max(N, c + 2), max(Nv, 5)
        self.X, self.Xv = data(N, d, "c11"), data(Nv, d, "c11v")
        tk = "ml" if self.m == "ml" else self.m if self.m != "wc" else "c"
        self.T, self.Tv = targets(N, c, tk, "c11"), targets(Nv, c, tk, "c11v")
        if tk == "r":       # targets related to the inputs, so that sizes differ
            self.T = np.tanh(self.X.dot(data(d, c, "c11w"))) + self.T / 4
            self.Tv = np.tanh(self.Xv.dot(data(d, c, "c11w"))) + self.Tv / 4
        self.args = [] if mode == "r" else [self.m]
        self.kw = {}
        self.wc = None
        if mode == "wcw":
            self.wc = np.array([1.0, 4, 0.25] * 4)[:c]
            self.kw["w"] = self.wc.copy()
        elif mode == "wc":
            n = self.T.sum(0)
            self.wc = n.sum() / n
        self.H, self.Hv = h_ref(self.X, self.groups), h_ref(self.Xv, self.groups)
        self.W = None if self.wc is None else self.wc[self.T.argmax(1)]
        self.tol = 1e-3 if kind.endswith("32") else 1e-9

    def model(self):
        return add(mk(self.kind, 2, self.c, norm=self.norm, batch=7), self.groups)

    def solve(self, cols, rows=slice(None)):
        return ridge(self.H[rows][:, cols], self.T[rows], self.norm, None if self.W is None else self.W[rows])

    def err(self, T, Y, R=None):
        return err_iv(T, Y, self.m, self.wc, self.tol, R)

    def e_v(self, cols):
        return self.err(self.Tv, self.Hv[:, cols].dot(self.solve(cols)))

    def e_loo(self, cols):
        H = self.H[:, cols]
        w = np.ones(len(H)) if self.W is None else self.W
        P = np.linalg.inv((H * w[:, None]).T.dot(H) + self.norm * np.eye(len(cols)))
        R = 1 - w * np.einsum("ij,jk,ik->i", H, P, H)
        Y = H.dot(self.solve(cols))
        if self.m == "r":   # the real thing: leave each sample out
            return self.err(self.T, np.array([H[i].dot(self.solve(cols, [j for j in range(len(H)) if j != i])) for i in range(len(H))]))
        return self.err(self.T, Y, R)

    def folds(self, k):
        part = [np.arange(len(self.X))[i::k] for i in range(k)]
        for i in range(k):
            o = [(i + j) % k for j in range(k)]
            yield np.concatenate([part[j] for j in o[:-2]]), part[o[-2]], part[o[-1]]

    def e_cv(self, ranks, k, size, which=1):
        lo = hi = 0.0
        for rank, f in zip(ranks, self.folds(k)):
            cols = rank[:size]
            a, b = self.err(self.T[f[which]], self.H[f[which]][:, cols].dot(self.solve(cols, f[0])))
            lo, hi = lo + a / k, hi + b / k
        return lo, hi


def points(L, first=1):
    """Sizes that are examined at least: ends and quarter points; all of a short interval."""
    a = min(first, L)
    n = L - a
    if n <= 4:
        return list(range(a, L + 1))
    return sorted({a, a + n // 4, a + n // 2, a + 3 * n // 4, L})


def kept_columns(ctx, s, model, what):
    """Indices of the kept neurons among the columns of the full hidden layer."""
    cols = columns(s.groups)
    dt = prec(s.kind)
    free = set(range(len(cols)))
    res = []
    for f, w, b in pruned(model):
        hit = [i for i in sorted(free) if (cols[i][0] == f or func_of(cols[i][0]) is f) and np.array_equal(cols[i][1].astype(dt), w) and dt(cols[i][2]) == b]
        if not ctx.ok(hit, "%s: a neuron %s was not in the model before" % (what, (f, w, b))):
            return None
        free.discard(hit[0])
        res.append(hit[0])
    return res


def trained(ctx, s, model, S, what):
    """The model is the sub-network S trained on all the rows; its mode and weights are those asked for."""
    B = s.solve(S)
    Xt = data(9, 2, "c11t")
    Ht = h_ref(Xt, s.groups)[:, S]
    tol = 5e-4 if s.kind.endswith("32") else 1e-8
    ok = ctx.close(model.project(Xt), Ht, what + ": project", tol) and ctx.close(model.predict(Xt), Ht.dot(B), what + ": predict", tol)
    if s.m != "r":
        Y = s.H[:, S].dot(B)
        lo, hi = err_iv(s.T, Y, s.m, s.wc, s.tol)
        e = model.error(s.T, model.predict(s.X))
        ok = ctx.ok(lo - s.tol <= e <= hi + s.tol, "%s: error() is %s instead of %s" % (what, e, (lo, hi))) and ok
    return ok


def chosen(ctx, what, k, E, L, full, first, Lfull, slack=1e-9):
    """E(size) -> (lo, hi): the chosen size is not beaten by any size that must have been examined."""
    if not ctx.ok(1 <= k <= L, "%s: %d neurons of at most %d" % (what, k, L)):
        return
    fail = None
    for Lp in {L, Lfull}:       # the penalty reaches 1% at the largest size
        bad = None
        for n in points(L, first):
            if n == k:
                continue
            a = E(k)[0] + 0.01 * full[0] * k / Lp
            b = E(n)[1] + 0.01 * full[1] * n / Lp
            if a > b + slack * (1 + abs(b)):
                bad = "%s: %d neurons with error %.8g although %d have %.8g" % (what, k, a, n, b)
        if bad is None:
            return
        fail = bad
    ctx.fail(fail)


def orders(L, kind):
    if kind == "all":
        return list(itertools.permutations(range(L)))
    base = list(range(L))
    r = [tuple(base[i:] + base[:i]) for i in range(0, L, max(1, L // 4))]
    return r + [tuple(x[::-1]) for x in r] + [tuple(rs("order", L, i).permutation(L)) for i in range(3)]


def single(case, ctx):
    m = case["k"]
    s = Setup(case["net"], case["mode"], case["kind"])
    memo = {}

    def E(cols):
        key = tuple(cols) if m == "V" and False else tuple(sorted(cols))
        if key not in memo:
            memo[key] = s.e_v(list(key)) if m == "V" else s.e_loo(list(key))
        return memo[key]
    for p in orders(s.L, case["perms"]):
        model = s.model()
        what = "%s %s %s %s order %s" % (m, case["net"], case["mode"], case["kind"], p)
        kw = dict(s.kw)
        if m == "V":
            kw.update(Xv=s.Xv, Tv=s.Tv)
        with Order([p]) as o:
            model.train(s.X, s.T, m, *s.args, **kw)
        ctx.step()
        S = kept_columns(ctx, s, model, what)
        if S is None:
            return
        k = len(S)
        ctx.state(m, case["net"], case["mode"], p, k)
        full = E(range(s.L))
        if o.calls == 1 and o.ok:
            ctx.count("orders chosen by the explorer")
            if not ctx.ok(set(S) == set(p[:k]), "%s: kept %s instead of the first %d of the ranking" % (what, S, k)):
                return
            chosen(ctx, what, k, lambda n: E(p[:n]), s.L, full, 1, s.L, s.tol)
        else:
            a, b = E(S)[0] + 0.01 * full[0] * k / s.L, 1.01 * full[1]
            ctx.ok(a <= b + s.tol, "%s: kept %s with error %s, all have %s" % (what, S, a, b))
        if not trained(ctx, s, model, S, what) or len(ctx.violations) > 4:
            return
        ctx.trace()


def cross(case, ctx):
    s = Setup(case["net"], case["mode"], case["kind"], N=21)
    for k in case["ks"]:
        ps = orders(s.L, "all" if s.L <= 4 else "rot")
        idn = tuple(range(s.L))
        if case["perms"] == "full" and k == 3:
            combos = list(itertools.product(ps[::2], ps, ps[1::3]))
        elif case["perms"] == "full" or case["perms"] == "dev":
            combos = [(p,) * k for p in ps] + [tuple(p if i == j else idn for i in range(k)) for p in ps[1:] for j in range(k)]
        else:
            combos = [(p,) * k for p in ps] + [tuple(ps[(i + j) % len(ps)] for i in range(k)) for j in range(len(ps))]
        memo = {}

        def E(ranks, n, which=1):
            key = (tuple(tuple(sorted(r[:n])) for r in ranks), which)
            if key not in memo:
                memo[key] = s.e_cv(ranks, k, n, which)
            return memo[key]
        for ranks in combos:
            ranks = [list(r) for r in ranks]
            model = s.model()
            what = "CV k=%d %s %s orders %s" % (k, case["net"], case["mode"], ranks)
            with Order(ranks) as o:
                e = model.train(s.X, s.T, "CV", *s.args, k=k, **s.kw)
            ctx.step()
            S = kept_columns(ctx, s, model, what)
            if S is None:
                return
            n = len(S)
            ctx.state("CV", case["net"], case["mode"], k, ranks, n)
            known = o.calls == k and o.ok
            if known:
                ctx.count("orders chosen by the explorer")
                ctx.ok(any(set(S) == set(r[:n]) for r in ranks), "%s: kept %s, no ranking starts so" % (what, S))
                chosen(ctx, what, n, lambda q: E(ranks, q), s.L, E(ranks, s.L), 3, s.L, s.tol)
                lo, hi = E(ranks, n, 2)
                ctx.ok(np.isscalar(e) or np.ndim(e) == 0, what + ": returned %r" % (e,))
                ctx.ok(lo - 1e-8 <= e <= hi + 1e-8, "%s: returned %s instead of the test error %s of %d neurons" % (what, e, lo, n))
            if not trained(ctx, s, model, S, what) or len(ctx.violations) > 4:
                return
            ctx.trace()


def op(case, ctx):
    big = case.get("big")
    if big:
        s = Setup(case["net"], case["mode"], c=case["c"], N={"V": 60, "LOO": 1100, "CV": 3600}[big], Nv=1300)
        for T, H in ((s.T, s.H), (s.Tv, s.Hv)):     # the second part of every set belongs to another neuron
            h = len(T) - max(20, len(T) // 4)
            y = 8 * H[h:, [s.L - 2]] - 0.5 * (case["mode"] != "r")
            T[h:] = y * (1 + np.arange(s.c)) if case["mode"] == "r" else (y > 0) ^ (np.arange(s.c) > 0) if s.m == "ml" else np.eye(s.c)[(y[:, 0] > 0) * (s.c - 1)]
    else:
        s = Setup(case["net"], case["mode"], c=case["c"], N=30, Nv=21)
    rk = mrsr if s.c < 10 else mrsr2
    for m in (big,) if big else ("V", "LOO", "CV"):
        for kmax in (None, 1, 2) if big else case.get("ks") or [None] + list(range(1, s.L + 2)):
            Lk = s.L if kmax is None else min(kmax, s.L)
            kw = dict(s.kw)
            if kmax is not None:
                kw["kmax"] = kmax
            if m == "V":
                kw.update(Xv=s.Xv, Tv=s.Tv)
            k = 3
            if m == "CV":
                kw["k"] = k
            model = s.model()
            what = "%s OP kmax %s %s %s %d outputs" % (m, kmax, case["net"], case["mode"], s.c)
            with Order([tuple(range(s.L))[::-1]]) as o:
                e = model.train(s.X, s.T, m, "op" if s.c == 2 else "OP", *s.args, **kw)
            ctx.ok(o.calls == 0, what + ": random ranking used")
            ctx.step()
            S = kept_columns(ctx, s, model, what)
            if S is None:
                return
            n = len(S)
            ctx.state(m, case["net"], s.c, kmax, n)
            if not ctx.ok(1 <= n <= Lk, "%s: kept %d neurons" % (what, n)):
                return
            every = list(range(s.L))
            if m == "CV":
                ranks = [list(rk(s.H[f[1]], s.T[f[1]], Lk)) for f in s.folds(k)]
                chosen(ctx, what, n, lambda q: s.e_cv(ranks, k, q), Lk, s.e_cv([every] * k, k, s.L), 3, s.L)
                ctx.ok(any(set(S) == set(r[:n]) for r in ranks), "%s: kept %s, rankings are %s" % (what, S, ranks))
                lo, hi = s.e_cv(ranks, k, n, 2)
                ctx.ok(lo - 1e-8 <= e <= hi + 1e-8, "%s: returned %s instead of %s" % (what, e, lo))
            else:
                f = s.e_v if m == "V" else s.e_loo
                rank = list(rk(s.Hv, s.Tv, Lk)) if m == "V" else list(rk(s.H, s.T, Lk))
                if set(S) != set(rank[:n]) and m == "V":    # ranked on the training data
                    rank = list(rk(s.H, s.T, Lk))
                if ctx.ok(set(S) == set(rank[:n]), "%s: kept %s, the ranking is %s" % (what, S, rank)):
                    chosen(ctx, what, n, lambda q: f(rank[:q]), Lk, f(every), 1, s.L)
            trained(ctx, s, model, S, what)
            ctx.trace()


def random_(case, ctx):
    """Without OP the ranking is random, and kmax has no meaning."""
    m = case["m"]
    s = Setup("tanh:5", case["mode"])
    s.T = targets(len(s.X), s.c, "c" if s.m != "r" else "r", "noise")
    s.Tv = targets(len(s.Xv), s.c, "c" if s.m != "r" else "r", "noisev")
    kw = dict(Xv=s.Xv, Tv=s.Tv) if m == "V" else {"k": 4} if m == "CV" else {}
    seen = set()
    for seed in range(24):
        got = []
        for kmax in (None, 1, 2, 9):
            model = s.model()
            np.random.seed(seed)
            model.train(s.X, s.T, m, *s.args, **(kw if kmax is None else dict(kw, kmax=kmax)))
            S = kept_columns(ctx, s, model, "%s %s seed %d" % (m, case["mode"], seed))
            if S is None:
                return
            got.append(tuple(sorted(S)))
            ctx.step()
        seen.add(got[0])
        ctx.state(m, case["mode"], seed, got[0])
        ctx.ok(len(set(got)) == 1, "%s %s seed %d: kmax without optimal pruning changes the neurons: %s" % (m, case["mode"], seed, got))
    ctx.ok(len(seen) > 1 or seen == {tuple(range(s.L))}, "%s %s: always the same neurons %s of a random ranking" % (m, case["mode"], seen))
    ctx.count("random selections", len(seen))
    ctx.trace()


def seq(case, ctx):
    """One model, two selections (or a plain training) one after the other: the second starts from the kept neurons."""
    s0 = Setup("tanh:4,lin:2,sigm:2", case["mode"], case["kind"])
    methods = ["V", "LOO", "CV", "VOP", "LOOOP", "CVOP", "plain"]

    def go(model, m):
        kw = dict(s0.kw)
        args = list(s0.args)
        if m.endswith("OP"):
            args.append("OP")
            m = m[:-2]
        if m == "V":
            kw.update(Xv=s0.Xv, Tv=s0.Tv)
        if m == "CV":
            kw["k"] = 4
        if m != "plain":
            args.append(m)
        with Order([()]) as o:      # keeps the given order
            model.train(s0.X, s0.T, *args, **kw)
    for a, b in itertools.product(methods, methods):
        model = s0.model()
        what = "%s then %s, %s %s" % (a, b, case["mode"], case["kind"])
        go(model, a)
        S = kept_columns(ctx, s0, model, what)
        if S is None or not trained(ctx, s0, model, S, what + ", first"):
            return
        go(model, b)
        ctx.step(2)
        S2 = kept_columns(ctx, s0, model, what)
        if S2 is None:
            return
        ctx.ok(set(S2) <= set(S), "%s: %s is not part of %s" % (what, S2, S))
        if b == "plain":
            ctx.ok(set(S2) == set(S), "%s: training without selection changed the neurons" % what)
        trained(ctx, s0, model, S2, what)
        # a fresh model with the kept neurons makes the same second choice
        fresh = mk(case["kind"], 2, s0.c, norm=s0.norm, batch=7)
        cols = columns(s0.groups)
        for j in S:
            fresh.add_neurons(1, func_of(cols[j][0]), cols[j][1][:, None].copy(), np.array([cols[j][2]]))
        S1 = kept_columns(ctx, s0, fresh, what)
        if S1 == S and S1 is not None:
            go(fresh, b)
            ctx.ok(kept_columns(ctx, s0, fresh, what) == S2, what + ": another choice than a fresh model's")
            ctx.close(model.predict(s0.Xv), fresh.predict(s0.Xv), what + ": like a fresh model", 1e-8)
        # then more neurons
        model.add_neurons(1, "tanh", np.full((2, 1), 0.5), np.zeros(1))
        ctx.raises(lambda: model.predict(s0.X), what + ": prediction after adding a neuron")
        model.train(s0.X, s0.T, *s0.args, **s0.kw)
        H = np.hstack((s0.H[:, S2], h_col(s0.X, "tanh", np.full(2, 0.5), 0.0)[:, None]))
        ctx.close(model.predict(s0.X), H.dot(ridge(H, s0.T, s0.norm, s0.W)), what + ": a neuron added", 1e-8)
        ctx.state(case["mode"], a, b, S2)
        ctx.trace()


def again(case, ctx):
    """No option of an earlier selection matters to a later one: the model behaves as a new one with the same neurons."""
    s = Setup("tanh:3,lin:2", case["mode"], case["kind"], N=40, Nv=30)
    more = [group(2, "np.sin", 5, "c11again"), group(2, "rbf_l2", 2, "c11again")]
    H = np.hstack([h_ref(s.X, [g]) for g in more])
    Hv = np.hstack([h_ref(s.Xv, [g]) for g in more])
    if case["mode"] == "r":     # needs most of the later neurons
        B = data(H.shape[1], s.c, "c11agb") + 2
        s.T, s.Tv = H.dot(B), Hv.dot(B)
    V = {"Xv": s.Xv, "Tv": s.Tv}
    w = {"w": np.array([1.0, 8, 0.5])} if s.m == "wc" else {}
    methods = {"plain": ([], {}), "V": (["V"], V), "LOO": (["LOO"], {}), "CV": (["CV"], {"k": 4}), "CV k=6": (["CV"], {"k": 6}),
               "VOP": (["V", "OP"], V), "LOOOP": (["LOO", "OP"], {}), "CVOP": (["CV", "OP"], {"k": 3}),
               "VOP kmax": (["V", "OP"], dict(V, kmax=2)), "LOOOP kmax": (["LOO", "OP"], {"kmax": 2}), "CVOP kmax": (["CV", "OP"], {"k": 3, "kmax": 3}),
               "LOO w": (["LOO"], w), "LOOOP w": (["LOO", "OP"], w)}
    if not w:
        methods = {k: v for k, v in methods.items() if k[-1] != "w"}

    def go(model, m):
        with Order([()]):
            return model.train(s.X, s.T, *(methods[m][0] + ([s.m] if s.m != "r" else [])), **methods[m][1])
    for a, b in itertools.product(methods, methods):
        what = "%s, neurons added, %s; %s %s" % (a, b, case["mode"], case["kind"])
        model = s.model()
        go(model, a)
        add(model, more)
        fresh = mk(case["kind"], 2, s.c, norm=s.norm, batch=7)
        for f, W, bias in pruned(model):
            fresh.add_neurons(1, f, W[:, None].copy(), np.array([bias]))
        e, e1 = go(model, b), go(fresh, b)
        ctx.step(4)
        got, want = [(str(f), np.asarray(W).tolist(), float(x)) for f, W, x in pruned(model)], [(str(f), np.asarray(W).tolist(), float(x)) for f, W, x in pruned(fresh)]
        if ctx.ok(sorted(got) == sorted(want), "%s: kept %d neurons %s, without history %d: %s" % (what, len(got), got, len(want), want)):
            ctx.close(model.predict(s.Xv), fresh.predict(s.Xv), what + ": prediction", 1e-3 if case["kind"].endswith("32") else 1e-8)
            ctx.ok((e is None) == (e1 is None) and (e is None or abs(e - e1) <= 1e-6 * (1 + abs(e1))), "%s: returned %s, without history %s" % (what, e, e1))
        ctx.state(case["mode"], a, b, got)
        ctx.trace()
        if len(ctx.violations) > 4:
            return


def inputs(case, ctx):
    """Layouts and types of the data, regularisation and sample counts; upper and lower case methods; no effect on caller's data."""
    m, mode = case["m"], case["mode"]
    for norm in (0.125, 5.0, 1e-3):
        for N, Nv in ((24, 15), (40, 1), (9, 5)) + (((200, 64),) if case["deep"] else ()):
            for how in ("arr", "F", "view", "rev", "ro", "int", "f4", "h5", "h5e"):
                for d in (2, 1):
                    s = Setup("tanh:3,lin:1,rbf_linf:1" if d == 2 else "tanh:3,lin:1", mode, N=N, Nv=Nv, d=d, norm=norm)
                    if how in ("int", "f4"):
                        f = np.rint if how == "int" else np.float32
                        dt = int if how == "int" else np.float32
                        s.X, s.Xv = f(s.X * 2).astype(dt), f(s.Xv * 2).astype(dt)
                        s.T, s.Tv = (f(s.T * 2).astype(dt), f(s.Tv * 2).astype(dt)) if mode == "r" else (s.T.astype(dt), s.Tv.astype(dt))
                        X, T, Xv, Tv = s.X, s.T, s.Xv, s.Tv
                        s.X, s.T, s.Xv, s.Tv = [a.astype(float) for a in (X, T, Xv, Tv)]
                        s.H, s.Hv = h_ref(s.X, s.groups), h_ref(s.Xv, s.groups)
                    else:
                        X, T, Xv, Tv = [src(a, how, n) for n, a in (("x", s.X), ("t", s.T), ("xv", s.Xv), ("tv", s.Tv))]
                    if d == 1 and how[:2] != "h5":      # one input: a vector is a column
                        X, Xv = X[:, 0], Xv[:, 0]
                        if mode == "r":
                            T, Tv = T[:, 0], Tv[:, 0]
                    p = (3, 0, 4, 1, 2)[5 - s.L:] if s.L == 5 else (3, 0, 2, 1)
                    model = add(mk("elm", d, s.c, norm=norm), s.groups)
                    kw = dict(s.kw)
                    if m == "V":
                        kw.update(Xv=Xv, Tv=Tv)
                    if m == "CV":
                        kw["k"] = 4
                    what = "%s %s %s d=%d N=%d Nv=%d norm=%g" % (m, mode, how, d, N, Nv, norm)
                    with Order([p]) as o:
                        e = model.train(X, T, m.lower() if how == "F" else m, *s.args, **kw)
                    ctx.step()
                    S = kept_columns(ctx, s, model, what)
                    if S is None or not o.calls or not o.ok:
                        continue
                    k, full = len(S), range(s.L)
                    if m == "CV":
                        ranks = [list(p)] * 4
                        chosen(ctx, what, k, lambda q: s.e_cv(ranks, 4, q), s.L, s.e_cv(ranks, 4, s.L), 3, s.L)
                        lo, hi = s.e_cv(ranks, 4, k, 2)
                        ctx.ok(lo - 1e-8 <= e <= hi + 1e-8, "%s: returned %s instead of %s" % (what, e, lo))
                    else:
                        f = s.e_v if m == "V" else s.e_loo
                        chosen(ctx, what, k, lambda q: f(list(p[:q])), s.L, f(list(full)), 1, s.L)
                    ctx.ok(set(S) == set(p[:k]), "%s: kept %s of ranking %s" % (what, S, p))
                    Xt = data(9, d, "c11t")
                    ctx.close(model.predict(Xt), h_ref(Xt, s.groups)[:, S].dot(s.solve(S)), what + ": predict", 1e-8)
                    ctx.ok(not held_open(), "%s: files left open: %s" % (what, held_open()))
                    ctx.state(what, k)
                    ctx.trace()
                    if len(ctx.violations) > 4:
                        return
