"""C29: neurons added without weights: documented defaults for every type, size, given part and previous neurons."""
import itertools

from mc.lib import *

ID = "C29"
LEVEL = "exploration_bounded"
RULE = ("case 'add' = (model kind, neuron type, inputs): every (number of neurons, given W / given B, previous neurons, random seed): generated "
        "part, given part, projections, previous neurons, repetition with the same seed and a model with the generated neurons given "
        "explicitly; case 'spread' = the scale of generated weights for growing numbers of inputs; case 'seq' = all sequences of additions")
ASSUMPTIONS = ["random outcomes are those of the listed seeds of numpy's generator"]
TIMEOUT = 300
FUNCS = TYPES + ("np.sin", "np.negative", "scipy.expit")
NAMES = {v: k for k, v in UFUNCS.items()}
RBF = ("rbf_l1", "rbf_l2", "rbf_linf")


def cases(tier):
    deep = tier == "thorough"
    for kind in ("elm", "hp", "elm:b", "hp:32", "elm:32") + (("hp:b", "elm:b32") if deep else ()):
        for f in FUNCS:
            for d in (1, 2, 3, 5) + ((8, 40) if deep else ()):
                yield {"k": "add", "kind": kind, "f": f, "d": d, "seeds": 6 if deep else 2}
    for kind in ("elm", "hp:32"):
        for f in FUNCS:
            yield {"k": "spread", "kind": kind, "f": f}
    for kind in ("elm", "hp", "elm:b"):
        for f in FUNCS[:6] if not deep else FUNCS:
            yield {"k": "seq", "kind": kind, "first": f, "len": 3 if not deep else 4}


def run(case, ctx):
    {"add": added, "spread": spread, "seq": sequences}[case["k"]](case, ctx)


def neurons(m):
    return [(int(n), f, np.array(W), np.array(B)) for n, f, W, B in m.nnet.get_neurons()]


def tol(kind):
    return 2e-6 if "32" in kind else 1e-12


def check_default(ctx, what, kind, f, d, n, W, B, gW, gB):
    """The last neurons (W, B) were made from n, given gW and gB."""
    t = tol(kind)
    k = n
    if gW is not None:
        ctx.close(W, gW, what + ": given W", t)
    elif f == "lin":
        k = min(n, d)
        ctx.close(W, np.eye(d, k), what + ": linear neurons copy the inputs", t)
    else:
        ctx.ok(W.shape == (d, n) and np.isfinite(W).all() and (W != 0).all(), what + ": W has shape %s or zero weights" % (W.shape,))
        cols = set(tuple(c) for c in W.T)
        ctx.ok(len(cols) == n, what + ": equal neurons")
        rows = set(tuple(c) for c in W)
        ctx.ok(len(rows) == d, what + ": inputs with equal weights")
    if gB is not None:
        ctx.close(B, gB, what + ": given B", t)
    elif f == "lin":
        ctx.close(B, np.zeros(k), what + ": linear neurons have no bias", t)
    else:
        ctx.ok(B.shape == (n,) and np.isfinite(B).all() and len(set(B.tolist())) == n, what + ": B %s" % B)
        if f in RBF:
            ctx.ok((B > 0).all(), what + ": widths of radial basis functions are not positive: %s" % B)
    return k


def added(case, ctx):
    kind, f, d = case["kind"], case["f"], case["d"]
    t = tol(kind)
    X = data(6, d, "c29")
    T = targets(40, 2, "r", "c29")
    XT = rs("c29", d).randn(40, d)
    for n, (hasW, hasB), prior, seed in itertools.product((1, 2, 3, 7), itertools.product((0, 1), repeat=2), ("", "same", "other"), range(case["seeds"])):
        if f == "lin" and not hasW and hasB and n > d:
            continue        # a bias for neurons that are not made
        g = group(d, f, n, "given")
        gW, gB = g[2] if hasW else None, g[3] if hasB else None
        what = "%s d=%d: %d %s neurons, given %s, after %s, seed %d" % (kind, d, n, f, "WB"[0:hasW] + "B" * hasB, prior, seed)

        def make(kd=kind):
            m = mk(kd, d, 2, norm=0.5)
            if prior:
                pf = f if prior == "same" else ("tanh" if f != "tanh" else "sigm")
                add(m, [group(d, pf, 2, "prior")])
            np.random.seed(seed)
            kw = {}
            if hasW:
                kw["W"] = np.array(gW)
            if hasB:
                kw["B"] = np.array(gB)
            m.add_neurons(n, func_of(f), **kw)
            return m
        m = make()
        ns = neurons(m)
        ctx.step()
        ctx.state(kind, f, d, n, hasW, hasB, prior, seed)
        if prior == "same":
            ok = len(ns) == 1
        else:
            ok = len(ns) == (2 if prior else 1)
        if not ctx.ok(ok, what + ": %d types of neurons" % len(ns)):
            continue
        cnt, ff, W, B = ns[-1]
        ctx.ok(ff == func_of(f) if f in TYPES else ff is func_of(f), what + ": function %s" % (ff,))
        skip = 0
        if prior == "same":
            p = group(d, f, 2, "prior")
            ctx.close(W[:, :2], p[2], what + ": previous neurons", t)
            ctx.close(B[:2], p[3], what + ": previous neurons", t)
            skip = 2
            if f != "lin" and not hasW:
                ctx.ok(np.linalg.norm(W[:, :2, None] - W[:, None, 2:], axis=0).min() > 1e-6, what + ": weights of previous neurons used again")
        elif prior:
            p = group(d, "tanh" if f != "tanh" else "sigm", 2, "prior")
            ctx.close(ns[0][2], p[2], what + ": previous neurons", t)
            ctx.close(ns[0][3], p[3], what + ": previous neurons", t)
        k = check_default(ctx, what, kind, f, d, n, W[:, skip:], B[skip:], gW, gB)
        ctx.ok(cnt == k + skip == W.shape[1] == len(B), what + ": %d neurons" % cnt)
        L = k + (2 if prior else 0)
        # projections follow the stored neurons
        H = m.project(X)
        ctx.ok(H.shape == (6, L), what + ": projection %s, %d neurons" % (H.shape, L))
        ref = h_ref(X, [(a, NAMES.get(b, b), c.astype(float), e.astype(float)) for a, b, c, e in ns])
        if np.abs(ref).max() < 1e6:
            ctx.close(H, ref, what + ": projection", 1e-4 if "32" in kind else 1e-9)
        if f == "lin" and not hasW and not hasB and not prior:
            ctx.close(H, X[:, :k], what + ": the first inputs", t)
        if f in RBF and not hasB:
            ctx.ok((H[:, -n:] >= 0).all() and (H[:, -n:] <= 1).all(), what + ": radial basis functions outside [0, 1]")
        # the same again
        m2 = make()
        for (a, b, c, e), (a2, b2, c2, e2) in zip(ns, neurons(m2)):
            ctx.ok(a == a2 and np.array_equal(c, c2) and np.array_equal(e, e2), what + ": differs when repeated with the same seed")
        other = make({"elm": "hp", "hp": "elm"}[kind.split(":")[0]])
        for (a, b, c, e), (a2, b2, c2, e2) in zip(ns, neurons(other)):
            ctx.close(c2, c, what + ": other model class", 2e-6)
            ctx.close(e2, e, what + ": other model class", 2e-6)
        # explicit neurons give the same model
        if n == 3 and seed == 0 and "32" not in kind:
            e = mk(kind, d, 2, norm=0.5)
            for a, b, c, dd in ns:
                e.add_neurons(a, b, c, dd)
            for q in (m, e):
                q.train(XT, T)
            ctx.close(m.nnet.get_B(), e.nnet.get_B(), what + ": trained, against the same neurons given", 1e-9)
            ctx.trace()


def spread(case, ctx):
    """Weights keep the spread of projections independent of the number of inputs."""
    kind, f = case["kind"], case["f"]
    for d in (1, 4, 25, 100, 400):
        n = 4000 if d < 100 else 800
        np.random.seed(d)
        m = mk(kind, d, 1)
        m.add_neurons(n, func_of(f))
        cnt, _, W, B = neurons(m)[0]
        what = "%s %s d=%d" % (kind, f, d)
        ctx.step()
        ctx.state(kind, f, d)
        if f == "lin":
            ctx.ok(cnt == min(n, d), what + ": %d linear neurons" % cnt)
            ctx.close(W, np.eye(d, cnt), what + ": W")
            ctx.close(B, np.zeros(cnt), what + ": B")
            continue
        W, B = W.astype(float), B.astype(float)
        rad = f in RBF
        want = 1.0 if rad else 3.0 / d ** 0.5
        for name, got, exp, lim in (("deviation of W", W.std(), want, 0.1 * want), ("mean of W", W.mean(), 0, 0.12 * want),
                                    ("deviation of B", B.std(), 0.6028 * d if rad else 1.0, 0.12 * (d if rad else 1)),
                                    ("mean of B", B.mean(), 0.7979 * d if rad else 0.0, 0.15 * (d if rad else 1)),
                                    ("deviation over inputs", W.std(axis=1).min(), want, 0.2 * want),
                                    ("deviation over inputs", W.std(axis=1).max(), want, 0.2 * want)):
            ctx.ok(abs(got - exp) <= lim, what + ": %s is %.4g, expected %.4g" % (name, got, exp))
        if rad:
            ctx.ok((B > 0).all(), what + ": widths")
    ctx.trace()


def sequences(case, ctx):
    """Every addition makes its own neurons and keeps the others."""
    d, kind = 3, case["kind"]
    for seq in itertools.product(FUNCS[:6], repeat=case["len"] - 1):
        seq = (case["first"],) + seq
        np.random.seed(5)
        m = mk(kind, d, 2)
        have = {}
        order = []
        for j, f in enumerate(seq):
            m.add_neurons(2, func_of(f))
            what = "%s sequence %s" % (kind, seq[:j + 1])
            ns = dict((b, (a, c, e)) for a, b, c, e in neurons(m))
            ctx.ok(set(ns) == set(seq[:j + 1]), what + ": types %s" % list(ns))
            ctx.step()
            for b, (a, c, e) in ns.items():
                old = have.get(b)
                k = old[0] if old else 0
                if old:
                    ctx.ok(np.array_equal(c[:, :k], old[1]) and np.array_equal(e[:k], old[2]), what + ": earlier neurons of %s changed" % b)
                ctx.ok(a == c.shape[1] == len(e) == k + (2 if b == f else 0), what + ": %d neurons of %s" % (a, b))
                if b != "lin" and b == f:
                    ctx.ok(len(set(map(tuple, c.T))) == a, what + ": repeated neurons of %s" % b)
                    check_default(ctx, what, kind, b, d, 2, c[:, k:], e[k:], None, None)
            have = ns
            ctx.state(kind, seq[:j + 1])
        ctx.trace()
