"""C16: normalize_hdf5 on small matrices, all batch sizes and call sequences, against exact column statistics."""
import itertools

from mc.lib import *
from hpelm import make_hdf5
from hpelm.modules import hdf5_tools

normalize = hdf5_tools.normalize_hdf5

ID = "C16"
LEVEL = "model_checking"
RULE = ("case 'columns' = (rows, first columns): all columns over a value alphabet (constant, binary, outliers, offsets) x batch "
        "sizes x file layouts and precisions, first and repeated call; case 'seq' = all call sequences up to depth 3/4 over "
        "{no parameters, one parameter, two sets of given parameters} x batch sizes, with data read back after each; case "
        "'large' = row counts around the chunk size x batch sizes; case 'given' = kinds of parameter vectors, unmodified; case 'special' = means that are "
        "all zero, deviations that are all one or zero: computed and given, repeated calls")
ASSUMPTIONS = ["files with floating point data; means up to 1e4 standard deviations", "the deviation of a constant column may be "
               "reported as 0 or 1", "calls without parameters on a file already normalised change nothing"]
TIMEOUT = 150


def cases(tier):
    deep = tier == "thorough"
    for N in (1, 2, 3) + ((4,) if deep else ()):
        for a in range(6):
            for how in ("make", "carray", "plain", "earray", "chunk1", "f4"):
                yield {"k": "columns", "N": N, "a": a, "how": how, "deep": deep}
    for N in (2, 5):
        for b1 in (None, 1, 2, 3, 7):
            yield {"k": "seq", "N": N, "b1": b1, "depth": 4 if deep else 3}
    for N in (1, 2, 7, 64, 1000, 2049, 5000) + ((20000,) if deep else ()):
        for d in (1, 3, 40):
            for how in ("make", "earray", "plain", "chunk1", "f4"):
                if N > 3000 and d == 40 or how == "chunk1" and N > 2000:
                    continue
                yield {"k": "large", "N": N, "d": d, "how": how}
    yield {"k": "given"}
    for how in ("make", "plain", "earray", "chunk1", "f4"):
        yield {"k": "special", "how": how}


def put(A, how, f="n.h5"):
    import tables
    if how == "make":
        make_hdf5(A, f)
    elif how == "f4":
        make_hdf5(A, f, dtype=np.float32)
    elif how == "chunk1":
        h5put(f, A, chunks=(1, A.shape[1]), name="x")
    elif how == "chunk2":
        h5put(f, A, chunks=(2, A.shape[1]), name="x")
    elif how == "plain":        # not in chunks
        with tables.open_file(f, "w") as h:
            h.create_array("/group", "values", np.ascontiguousarray(A), createparents=True)
    else:
        h5put(f, A, earray=how == "earray", name="x")
    return f


def stats(A):
    """Column means and standard deviations in extended precision; zero deviation is exact."""
    A = np.asarray(A, np.longdouble)
    m = A.sum(0) / A.shape[0]
    s = np.sqrt(((A - m) ** 2).sum(0) / A.shape[0])
    s = np.where(A.max(0) == A.min(0), 0, s)
    return m.astype(float), s.astype(float)


def apply(A, m, s):
    s = np.where(s == 0, 1, s)
    return (np.asarray(A, float) - m) / s


def same(ctx, got, m, s, what, tol=1e-9):
    if not ctx.ok(got is not None and len(got) == 2, what + ": returned %s" % (got,)):
        return
    g0, g1 = np.asarray(got[0], float), np.asarray(got[1], float)
    if ctx.ok(g0.shape == m.shape and g1.shape == s.shape, "%s: shapes %s %s" % (what, g0.shape, g1.shape)):
        ctx.ok((np.abs(g0 - m) <= tol * (np.abs(m) + s + 1e-12)).all(), "%s: mean %s instead of %s" % (what, g0[:5], m[:5]))
        ok = np.where(s == 0, (g1 == 0) | (g1 == 1), np.abs(g1 - s) <= 1e-9 * s)
        ctx.ok(ok.all(), "%s: deviation %s instead of %s" % (what, g1[:5], s[:5]))


def run(case, ctx):
    {"columns": columns, "seq": seq, "large": large, "given": given, "special": special}[case["k"]](case, ctx)


def columns(case, ctx):
    N, how = case["N"], case["how"]
    base = (0.0, 1.0, -2.5, 1000.0, 0.1, 1e-3)
    if N < 3:
        base = base + (1e6, 7e-9)
    if N == 4:
        base = base[:4]
    cols = [np.array(c) for c in itertools.product(base, repeat=N)]
    cols = [c * f for c in cols for f in ((1.0,) if N > 2 else (1.0, 1e-5, 3e4))]
    if N > 1:       # ratio of mean to deviation within the claim
        cols = [c for c in cols if c.max() == c.min() or abs(c.mean()) <= 1e4 * c.std()]
    sel = cols[case["a"]::6]
    # all columns in files of three: independent of each other
    for i in range(0, len(sel), 3):
        A = np.array([sel[j % len(sel)] for j in (i, i + 1, i + 2)]).T
        if how == "f4":
            A = A.astype(np.float32).astype(float)
        m, s = stats(A)
        want = apply(A, m, s)
        for batch in [None] + list(range(1, N + 2)):
            f = put(A, how)
            kw = {} if batch is None else {"batch": batch}
            what = "%s %s batch %s" % (how, A.tolist(), batch)
            r = normalize(f, **kw)
            ctx.step()
            same(ctx, r, m, s, what)
            B = h5get(f)
            if not ctx.close(B, want, what + ": data", 1e-6 if how == "f4" else 1e-9):
                return
            for b2 in (None, 1, N):
                r2 = normalize(f, **({} if b2 is None else {"batch": b2}))
                ctx.step()
                ctx.ok(np.array_equal(r2[0], r[0]) and np.array_equal(r2[1], r[1]), "%s: again returned %s instead of %s" % (what, r2, r))
                if not ctx.ok(np.array_equal(h5get(f), B), what + ": the second call changed the data"):
                    return
            ctx.state(how, A.tolist(), batch)
    ctx.trace()


def seq(case, ctx):
    N, b1 = case["N"], case["b1"]
    A = dyadic((N, 2), "c16") * np.array([2.0, 16]) + np.array([1.0, -3])
    A[:, 1] = A[:, 1] if N > 2 else 5       # one constant column for the shorter file
    P1 = (np.array([0.5, -1.0]), np.array([2.0, 0.25]))
    P2 = ([3, 4], (0.5, 0))
    ops = ["-", "mean only", "std only", "P1", "P2"]
    bs = [None, 1, N]
    for how in ("make", "chunk2", "earray") if case["depth"] > 3 else ("make", "chunk2") if N > 2 else ("earray",):
        for d in (case["depth"],):              # every prefix is checked on the way
            for s in itertools.product(ops, repeat=d):
                f = put(A, how)
                data_, par = A, None
                for i, o in enumerate(s):
                    b = b1 if i == 0 else bs[(i + len(o)) % 3]
                    kw = {} if b is None else {"batch": b}
                    what = "%s calls %s batch %s" % (how, s[:i + 1], b)
                    if o in ("P1", "P2"):
                        p = P1 if o == "P1" else P2
                        r = normalize(f, p[0], p[1], **kw)
                        par = (np.array(p[0], float), np.array(p[1], float))
                        data_ = apply(data_, *par)
                    else:
                        if o == "mean only":
                            kw["mean"] = P1[0]
                        if o == "std only":
                            kw["std"] = P1[1]
                        r = normalize(f, **kw)
                        if par is None:
                            par = stats(data_)
                            data_ = apply(data_, *par)
                    ctx.step()
                    same(ctx, r, par[0], par[1], what)
                    if not ctx.close(h5get(f), data_, what + ": data", 1e-9) or len(ctx.violations) > 2:
                        return
                    ctx.state(how, N, b1, s[:i + 1])
                ctx.ok(np.array_equal(P1[0], [0.5, -1.0]) and np.array_equal(P1[1], [2.0, 0.25]) and P2 == ([3, 4], (0.5, 0)),
                       "given parameters modified")
                ctx.trace()


def large(case, ctx):
    N, d, how = case["N"], case["d"], case["how"]
    A = rs("c16l", N, d).randn(N, d) * 10.0 ** (np.arange(d) % 5 - 2) + (np.arange(d) % 7) * 10.0 ** (np.arange(d) % 5 - 2) * 3
    if d > 1:
        A[:, 1] = 7.3
    if how == "f4":
        A = A.astype(np.float32).astype(float)
    m, s = stats(A)
    want = apply(A, m, s)
    for batch in (None, 1, 3, 100, 999, 1000, 1024, N - 1, N, N + 1, 10 ** 6):
        if batch is not None and (batch < 1 or N // batch > 1100):
            continue
        f = put(A, how)
        what = "%s %dx%d batch %s" % (how, N, d, batch)
        r = normalize(f, batch=batch)
        same(ctx, r, m, s, what)
        B = h5get(f)
        ctx.close(B, want, what + ": data", 2e-6 if how == "f4" else 1e-8)
        if how != "f4" and N > 1:
            nc = s > 0
            ctx.ok(np.abs(B.mean(0)).max() < 1e-7 and np.abs(B.std(0)[nc] - 1).max() < 1e-7, what + ": not standardised")
        f2 = put(B, how, "again.h5")
        r2 = normalize(f, batch=batch and batch + 1)
        ctx.ok(np.array_equal(h5get(f), B) and np.array_equal(r2[0], r[0]), what + ": the second call changed the data")
        # the same parameters applied to other data
        C = A[: N // 2 + 1] * 2 + 1
        f2 = put(C, how, "other.h5")
        r3 = normalize(f2, r[0], r[1], batch=batch)
        ctx.close(h5get(f2), apply(C.astype(np.float32) if how == "f4" else C, m, s), what + ": given parameters", 1e-4 if how == "f4" else 1e-9)
        ctx.step(3)
        ctx.state(N, d, how, batch)
        # usable by models
        mod = add(mk("hp", d, 1), [group(d, "lin", 1)])
        ctx.close(mod.project(f)[:5], h_ref(B[:5], [group(d, "lin", 1)]), what + ": used by HPELM", 1e-7 if how == "f4" else 1e-11)
    ctx.trace()


def given(case, ctx):
    A = dyadic((6, 3), "given")
    for how in ("make", "plain", "earray", "f4"):
        for batch in (None, 1, 2, 4, 6, 100):
            for form in ("array", "list", "tuple", "f4", "int", "ro", "view", "zero"):
                m, s = np.array([0.3, -2.1, 4.7]), np.array([2.1, 0.7, 8.3])
                if form == "int":
                    m, s = np.array([1, -2, 4]), np.array([2, 1, 8])
                if form == "zero":
                    s = np.array([0.0, 4, 0])
                if form == "f4":
                    m, s = m.astype("f4"), s.astype("f4")
                if form == "ro":
                    m.flags.writeable = s.flags.writeable = False
                if form == "view":
                    m, s = src(m, "view"), src(s, "view")
                gm, gs = (list(m), list(s)) if form == "list" else (tuple(m), tuple(s)) if form == "tuple" else (m, s)
                m0, s0 = np.array(m), np.array(s)
                f = put(A, how)
                what = "%s batch %s given as %s" % (how, batch, form)
                r = normalize(f, gm, gs, batch=batch)
                ctx.step()
                ctx.ok(np.array_equal(np.array(gm), m0) and np.array_equal(np.array(gs), s0), what + ": vectors modified to %s %s" % (gm, gs))
                ctx.close(h5get(f), apply(A, m0, s0), what, 1e-6 if how == "f4" else 1e-12)
                same(ctx, r, m0.astype(float), s0.astype(float), what)
                r2 = normalize(f)
                same(ctx, r2, m0.astype(float), s0.astype(float), what + ", called again")
                ctx.close(h5get(f), apply(A, m0, s0), what + ", called again", 1e-6 if how == "f4" else 1e-12)
                # the returned and the given vectors are not linked to later results
                ctx.state(how, batch, form)
                for bad in (([1.0, 2], [1.0, 2, 3]), ([1.0, 2, 3], [1.0, 2]), ([1.0], [2.0]), ([1.0] * 4, [2.0] * 4)):
                    B = h5get(f)
                    ctx.raises(lambda: normalize(f, np.array(bad[0]), np.array(bad[1])), what + ": vectors of wrong length")
                    ctx.ok(np.array_equal(h5get(f), B), what + ": refused vectors changed the data")
    ctx.trace()


def special(case, ctx):
    """Parameters with special values are parameters like others."""
    how = case["how"]
    mats = [np.array(a, float) for a in ([[1, -2], [-1, 2]], [[3, -6, 0], [-3, 6, 0], [0, 0, 0]], [[0, 0], [0, 0]], [[1, 1], [-1, -1]], [[5, 7], [5, 7]],
                                         [[5, 0], [3, -2]], [[0.5], [-0.5]], [[0.0]], [[1.0]], [[4, 2], [2, -2], [3, 0]], [[1, 4], [-1, 4]], [[1, 0], [3, 0]])]
    for A in mats:
        m, s = stats(A)
        d = A.shape[1]
        for b1, b2 in itertools.product((None, 1, 2, 5), repeat=2):
            f = put(A, how)
            what = "%s %s batch %s, %s" % (how, A.tolist(), b1, b2)
            r = normalize(f, batch=b1)
            same(ctx, r, m, s, what)
            B = h5get(f)
            ctx.close(B, apply(A, m, s), what + ": data", 1e-6 if how == "f4" else 1e-12)
            for i in range(2):
                r2 = normalize(f, batch=b2)
                ctx.ok(np.array_equal(r2[0], r[0]) and np.array_equal(r2[1], r[1]), "%s: again returned %s instead of %s" % (what, r2, r))
                ctx.ok(np.array_equal(h5get(f), B), what + ": the second call changed the data")
            ctx.step(3)
            ctx.state(how, A.tolist(), b1, b2)
        for gm, gs in itertools.product((0.0, 1.0, -2.0), (0.0, 1.0, 4.0)):
            f = put(A, how)
            what = "%s %s given mean %s std %s" % (how, A.tolist(), gm, gs)
            gm, gs = np.full(d, gm), np.full(d, gs)
            want = apply(A, gm, gs)
            for i in range(3):      # set once, then kept
                r = normalize(f, gm, gs) if i == 0 else normalize(f)
                same(ctx, r, gm, gs, what)
                ctx.close(h5get(f), want, what + ", call %d" % (i + 1), 1e-6 if how == "f4" else 1e-12)
            ctx.step(3)
            ctx.state(how, A.tolist(), gm, gs)
            f = put(A, how)         # computed first, then given
            r = normalize(f)
            r = normalize(f, gm, gs)
            same(ctx, r, gm, gs, what + " after computed ones")
            ctx.close(h5get(f), apply(apply(A, m, s), gm, gs), what + " after computed ones", 1e-6 if how == "f4" else 1e-12)
            r = normalize(f)
            same(ctx, r, gm, gs, what + " after computed ones, kept")
            ctx.close(h5get(f), apply(apply(A, m, s), gm, gs), what + " after computed ones, kept", 1e-6 if how == "f4" else 1e-12)
    ctx.trace()
