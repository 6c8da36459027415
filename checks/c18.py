"""C18: passed arrays and files stay as they are, later changes of them do not reach a model, and models share nothing."""
import itertools
import os

from mc.lib import *
from hpelm import make_hdf5
from hpelm.modules import hdf5_tools, mrsr, mrsr2, rbf_param

ID = "C18"
LEVEL = "model_checking"
RULE = ("case 'args' = (class and solver, operation): every memory layout and type of its arrays: bytes of the arrays (and their bases) and files "
        "compared before/after, results against the reference; then arrays, returned results and their bases are overwritten and the model "
        "must answer the same and continue to train as a fresh one; case 'two' = every interleaving of two programs of 4 operations on two "
        "models (all ordered pairs of programs), each result bitwise equal to running the program alone; case 'buffer' = every ordered pair (and "
        "the first three in a row) of operations that are given the same array objects with new contents, against fresh arrays; case 'chain' = models loaded from "
        "each other and models made from the same arrays; case 'tools' = the file and ranking tools")
ASSUMPTIONS = ["arrays returned by nnet.get_neurons(), get_corr() and get_B() may be internal"]
TIMEOUT = 200

D, C, N = 3, 3, 14
KINDS = ("elm", "elm:b", "elm:32", "elm:b32", "hp", "hp:b", "hp:32")
HOWS = ("arr", "F", "view", "rev", "ro")
TYPES = ("f8", "f4", "i8", "u1")
NET = "tanh:2,lin:2,rbf_l1:1"


def cases(tier):
    deep = tier == "thorough"
    for kind in KINDS:
        for op in OPS:
            if op.startswith("sel") and not kind.startswith("elm") or op.startswith("hp") and not kind.startswith("hp"):
                continue
            yield {"k": "args", "kind": kind, "op": op}
    n = len(PROGRAMS)
    for i, j in itertools.product(range(n), repeat=2):
        yield {"k": "two", "a": i, "b": j, "kinds": KINDS2 if deep else KINDS2[(i + 3 * j) % 3::3]}
    for kind in KINDS:
        yield {"k": "chain", "kind": kind}
    for how in HOWS:
        yield {"k": "tools", "how": how}
    for kind in KINDS:
        yield {"k": "buffer", "kind": kind}


KINDS2 = (("elm", "elm"), ("hp", "elm"), ("hp", "hp"), ("elm:b", "elm:b"), ("elm", "elm:32"), ("hp:b", "hp"))


class Box(object):
    """Arrays handed to the implementation: remembers their bytes and can overwrite them."""

    def __init__(self):
        self.items = []

    def give(self, A, how, dtype=None):
        A = np.asarray(A)
        if dtype is not None:
            A = A.astype(dtype)
        B = src(A, how)
        base = B if B.base is None else B.base
        self.items.append((B, base, base.tobytes(), B.dtype))
        return B

    def same(self):
        return all(base.tobytes() == b and B.dtype == dt for B, base, b, dt in self.items)

    def scramble(self):
        for B, base, _, _ in self.items:
            try:
                base.flags.writeable = True
            except ValueError:
                continue
            base[...] = 7 if base.dtype.kind in "iu" else 1e3


def base_model(kind, mode=None, w=None):
    return add(mk(kind, D, C, *([mode] if mode else []), w=w, norm=0.25, batch=5), spec_mix(D, NET, "c18"))


def watch(m, X, T):
    """Everything a user can see of the model."""
    r = [[(n, f if isinstance(f, str) else f.__name__, np.array(W).tobytes(), np.array(B).tobytes()) for n, f, W, B in m.nnet.get_neurons()]]
    r.append(np.array(m.project(X)).tobytes())
    try:
        Y = m.predict(X)
    except Exception:
        return r + ["no solution"]
    r += [np.array(Y).tobytes(), float(m.error(T, Y))]
    if m.classification is not None:
        r.append(np.array(m.confusion(T, Y)).tobytes())
    r.append(m.dumps() and None)
    return r


def tol_of(kind, *dts):
    return 3e-3 if kind.endswith("32") else 1e-8


# one entry per operation: (box, model, how, data type) -> (model, result arrays, function for a fresh model with clean arrays)

def op_neurons(kind, give, X, T):
    res = []
    m = mk(kind, D, C, norm=0.25, batch=5)
    for n, f, W, B in spec_mix(D, NET + ",np.sin:2", "c18"):
        m.add_neurons(n, func_of(f), give(W, True), give(B, True))
    return m, res


def op_train(mode):
    def f(kind, give, X, T):
        m = base_model(kind)
        m.train(give(X), give(T), *mode)
        return m, []
    return f


def op_train_w(kind, give, X, T):
    m = base_model(kind)
    m.train(give(X), give(T), "wc", w=give(np.array([1.0, 4, 2])))
    return m, []


def op_init_w(kind, give, X, T):
    m = base_model(kind, "wc", give(np.array([1.0, 4, 2])))
    m.train(give(X), give(T))
    return m, []


def op_init_w_later(kind, give, X, T):
    return base_model(kind, "wc", give(np.array([1.0, 4, 2]))), []


def op_add_data(kind, give, X, T):
    m = base_model(kind)
    m.add_data(give(X[:6]), give(T[:6]))
    m.add_data(give(X[6:]), give(T[6:]))
    return m, []


def op_predict(kind, give, X, T):
    m = base_model(kind)
    m.train(X, T, "c")
    r = [m.predict(give(X)), m.project(give(X)), m.predict(give(X[:1])), m.project(give(X[2:4]))]
    return m, r


def op_error(kind, give, X, T):
    m = base_model(kind)
    m.train(X, T, "wc")
    Y = m.predict(X)
    m.error(give(T), give(Y))
    m.confusion(give(T), give(Y))
    m.train(X, T, "ml")
    m.error(give(T), give(Y))
    m.confusion(give(T), give(Y))
    m.train(X, T)
    m.error(give(T), give(Y))
    return m, []


def op_corr(kind, give, X, T):
    m = base_model(kind)
    H = h_ref(X, spec_mix(D, NET, "c18"))
    HH, HT = corr(H, T, 0.25)
    B = m.nnet.solve_corr(give(HH, True), give(HT, True))
    m.nnet.set_B(np.array(B))
    return m, []


def op_set_corr(kind, give, X, T):
    m = base_model(kind)
    H = h_ref(X, spec_mix(D, NET, "c18"))
    HH, HT = corr(H, T, 0.25)
    m.nnet.set_corr(give(HH, True), give(HT, True))
    m.nnet.solve()
    m.add_data(X, T)
    m.nnet.solve()
    return m, []


def op_set_b(kind, give, X, T):
    m = base_model(kind)
    H = h_ref(X, spec_mix(D, NET, "c18"))
    m.nnet.set_B(give(ridge(H, T, 0.25), True))
    return m, []


def op_sel(method, *mode):
    def f(kind, give, X, T):
        m = base_model(kind)
        kw = {"k": 4} if method == "CV" else {"Xv": give(X[::-1]), "Tv": give(T[::-1])} if method == "V" else {}
        m.train(give(X), give(T), method, "OP", *mode, **kw)
        return m, []
    return f


def op_hp_out(kind, give, X, T):
    m = base_model(kind)
    m.train(X, T)
    Y, H = np.zeros((N, C)), np.zeros((N, 5))
    m.predict(give(X), Y)
    m.project(give(X), H)
    return m, [Y, H]


def op_hp_files(kind, give, X, T):
    m = base_model(kind)
    m.train(give(X), give(T), "c", istart=1, icount=9)
    m.add_data(give(X), give(T), istart=1, fHH="HH.h5", fHT="HT.h5")
    m.solve_corr("HH.h5", "HT.h5")
    m.validation_corr("HH.h5", "HT.h5", give(X), give(T), 4)
    return m, []


def op_hp_range(kind, give, X, T):
    m = base_model(kind)
    m.train(give(X), give(T), istart=2, icount=11)
    return m, [m.predict(give(X), istart=3), m.project(give(X), istart=3, icount=5)]


OPS = {"neurons": op_neurons, "train": op_train([]), "train c": op_train(["c"]), "train wc": op_train(["wc"]), "train ml": op_train(["ml"]),
       "train w": op_train_w, "init w": op_init_w, "init w later": op_init_w_later, "add_data": op_add_data, "predict": op_predict,
       "error": op_error, "corr": op_corr, "set_corr": op_set_corr, "set_B": op_set_b, "sel V": op_sel("V"), "sel LOO": op_sel("LOO"), "sel CV": op_sel("CV"),
       "sel V c": op_sel("V", "c"), "sel LOO wc": op_sel("LOO", "wc"), "sel CV ml": op_sel("CV", "ml"), "hp out": op_hp_out, "hp files": op_hp_files,
       "hp range": op_hp_range}


def run(case, ctx):
    {"args": args_, "two": two, "chain": chain, "tools": tools, "buffer": buffer}[case["k"]](case, ctx)


def go_on(m, X, T, op):
    """Further use of the model: more data on top, then a new training."""
    r = []
    if op in ("add_data", "init w later", "set_corr", "train w", "init w"):
        m.add_data(X[:4], T[:4])
        m.nnet.solve()
        r.append(np.array(m.predict(X)))
        r.append(np.array([m.error(T, r[0])]))
    m.train(X, T)
    r.append(np.array(m.predict(X)))
    m.train(X[:9], T[:9], "wc" if C > 1 else "r")
    r.append(np.array(m.predict(X)))
    m.add_neurons(1, "tanh", np.ones((D, 1)) / 2, np.zeros(1))
    m.train(X, T)
    r.append(np.array(m.predict(X)))
    return r


def args_(case, ctx):
    kind, op = case["kind"], case["op"]
    f = OPS[op]
    X0 = np.rint(data(N, D, "c18") * 2) + 4          # small non-negative integers: every type holds them
    T0 = targets(N, C, "c", "c18")
    P, PT = data(6, D, "c18p"), targets(6, C, "c", "c18p")
    tol = tol_of(kind)
    np.random.seed(1)
    wanted, r0 = f(kind, lambda A, own=False: np.array(A), X0, T0)
    wanted_go = None
    wanted_obs = watch(wanted, P, PT)
    wanted_y = None if wanted.nnet.get_B() is None else np.array(wanted.predict(P))
    wanted_go = go_on(wanted, X0, T0, op)
    for how in HOWS + (("h5", "h5e") if op in ("train", "train c", "train wc", "train ml", "predict", "hp out", "hp files", "hp range", "error", "add_data")
                       and kind.startswith("hp") else ()):
        for dt in TYPES:
            box, files = Box(), {}

            def give(A, own=False, names=itertools.count()):
                if how.startswith("h5"):
                    n = "in%d" % next(names)
                    p = src(np.asarray(A, float) if dt == "f8" else A.astype(dt) if A.dtype.kind != "f" or (A == np.rint(A)).all() else A, how, n)
                    with open(p, "rb") as h:
                        files[p] = h.read()
                    return p
                d = dt
                if own or not (np.asarray(A) == np.rint(A)).all():
                    d = "f8" if dt in ("i8", "u1") else dt
                return box.give(A, how, d)
            what = "%s %s %s %s" % (kind, op, how, dt)
            for fn in ("HH.h5", "HT.h5"):
                if os.path.exists(fn):
                    os.remove(fn)
            np.random.seed(1)
            m, res = f(kind, give, X0, T0)
            ctx.step()
            if not ctx.ok(box.same(), what + ": passed arrays were modified"):
                return
            for p in files:
                with open(p, "rb") as h:
                    b = h.read()
                ctx.ok(b == files[p], "%s: the file %s was modified" % (what, os.path.basename(p)))
            ctx.ok(bool(box.items) or bool(files), what + ": nothing passed")
            for a, b in zip(res, r0):
                ctx.close(a, b, what + ": result", 1e-4 if dt == "f4" else tol)
            before = watch(m, P, PT)
            if wanted_y is not None and not op.startswith("sel"):
                ctx.close(m.predict(P), wanted_y, what + ": predictions", 1e-4 if dt == "f4" and tol < 1e-4 else tol)
            box.scramble()
            for a in res:
                a[...] = -55
            for p in files:
                h5put(p, np.full((2, 2), 9.0))
            if not ctx.ok(watch(m, P, PT) == before, what + ": overwriting passed arrays or results changed the model"):
                return
            if dt != "f4" and not (op == "set_corr" and False):
                for a, b in zip(go_on(m, X0, T0, op), wanted_go):
                    if not ctx.close(a, b, what + ": used further", max(tol, 1e-7)):
                        return
            # results handed out earlier do not change by later use
            ctx.state(kind, op, how, dt)
            ctx.trace()
    # returned results are not changed by later operations
    m, res = f(kind, lambda A, own=False: np.array(A), X0, T0)
    keep = [np.array(a) for a in res]
    Y = m.predict(P) if m.nnet.get_B() is not None else np.zeros(1)
    H = m.project(P)
    keep += [np.array(Y), np.array(H)]
    m.project(P * 2 + 1)
    if m.nnet.get_B() is not None:
        m.predict(P * 2 + 1)
    go_on(m, X0, T0, op)
    m.predict(P + 1), m.project(P + 1)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(list(res) + [Y, H], keep)), "%s %s: results handed out before changed" % (kind, op))


# ---- two models ----------------------------------------------------------------------------------------------------

class Slot(object):
    """The model of one program; the first step creates it with the program's own options."""

    def __init__(self, kind):
        self.kind = kind

    def new(self, *args, **kw):
        kw.setdefault("norm", 0.5)
        kw.setdefault("batch", 6)
        self.m = mk(self.kind, D, C, *args, **kw)
        return self.m


def P1(q, s):
    X, T = data(N, D, ("p", s)), targets(N, C, "c", ("p", s))
    yield lambda: add(q.new(), spec_mix(D, NET, ("p", s)))
    yield lambda: q.m.train(X, T)
    yield lambda: q.m.predict(X)
    yield lambda: (q.m.project(X[:3]), q.m.error(T, q.m.predict(X)))


def P2(q, s):
    X, T = data(N, D, ("p2", s)), targets(N, C, "c", ("p2", s))
    yield lambda: add(q.new("wc", [3.0, 2, 1] if s == "A" else [1.0, 5, 1], norm=0.125), spec_mix(D, "sigm:3,np.exp2:1", ("p2", s)))
    yield lambda: q.m.train(X, T)
    yield lambda: (q.m.add_data(X[:5], T[:5]), q.m.nnet.solve())
    yield lambda: (q.m.predict(X), q.m.error(T, q.m.predict(X)), q.m.confusion(T, q.m.predict(X)))


def P3(q, s):
    X, T = data(N, D, ("p3", s)), targets(N, C, "c", ("p3", s))
    yield lambda: add(q.new("c", batch=4), spec_mix(D, "tanh:2,lin:1", ("p3", s)))
    yield lambda: q.m.add_data(X[:7], T[:7])
    yield lambda: (q.m.add_data(X[7:], T[7:]), q.m.nnet.solve())
    yield lambda: (q.m.predict(X), q.m.nnet.reset(), q.m.predict(X[:2]), q.m.error(T, q.m.predict(X)))


def P4(q, s):
    X, T = data(N, D, ("p4", s)), targets(N, C, "c", ("p4", s))
    yield lambda: (add(q.new(), spec_mix(D, "rbf_linf:2,tanh:2", ("p4", s))), q.m.train(X, T, "c"))
    yield lambda: (q.m.nnet._prune([3, 0]), q.m.add_data(X, T), q.m.nnet.solve())
    yield lambda: (q.m.save("model%s" % s), q.m.predict(X))
    yield lambda: (q.m.load("model%s" % s), q.m.predict(X), q.m.error(T, q.m.predict(X)))


def P5(q, s):
    X, T = data(N, D, ("p5", s)), targets(N, C, "c", ("p5", s))
    yield lambda: (add(q.new("ml"), spec_mix(D, "tanh:4", ("p5", s))), q.m.train(X, T))
    yield lambda: q.m.train(X[:8], T[:8], "wc", w=[1, 2, 3], batch=3)
    yield lambda: add(q.m, [group(D, "rbf_l2", 2, ("p5", s))])
    yield lambda: (q.m.train(X, T, batch=4), q.m.predict(X), q.m.confusion(T, q.m.predict(X)))


PROGRAMS = (P1, P2, P3, P4, P5)


def flat(r):
    if r is None or isinstance(r, (int, float, str)):
        return r
    if isinstance(r, (tuple, list)):
        return [flat(x) for x in r]
    if isinstance(r, (ELM, HPELM)):
        return "model"
    return np.asarray(r).tobytes()


def two(case, ctx):
    for ka, kb in case["kinds"]:
        def steps(kind, prog, s):
            q = Slot(kind)
            return q, list(prog(q, s))
        solo = []
        for kind, prog, s in ((ka, PROGRAMS[case["a"]], "A"), (kb, PROGRAMS[case["b"]], "B")):
            m, st = steps(kind, prog, s)
            solo.append([flat(f()) for f in st] + [flat(m.m.predict(data(4, D, "end")))])
        for pos in itertools.combinations(range(8), 4):
            ma, sa = steps(ka, PROGRAMS[case["a"]], "A")
            mb, sb = steps(kb, PROGRAMS[case["b"]], "B")
            ia = ib = 0
            what = "programs %d, %d on %s, %s, order %s" % (case["a"] + 1, case["b"] + 1, ka, kb, pos)
            for i in range(8):
                if i in pos:
                    r, w = flat(sa[ia]()), solo[0][ia]
                    ia += 1
                else:
                    r, w = flat(sb[ib]()), solo[1][ib]
                    ib += 1
                ctx.step()
                if not ctx.ok(r == w, "%s: step %d gives another result than alone" % (what, i)):
                    return
                ctx.state(ka, kb, case["a"], case["b"], ia, ib)
            ctx.ok(flat(ma.m.predict(data(4, D, "end"))) == solo[0][4], what + ": the first model ends different")
            ctx.ok(flat(mb.m.predict(data(4, D, "end"))) == solo[1][4], what + ": the second model ends different")
            ctx.trace()


def chain(case, ctx):
    """Models from the same arrays or from each other's saved state; one is changed in every way, the others stay."""
    kind = case["kind"]
    X, T = data(N, D, "ch"), targets(N, C, "c", "ch")
    P, PT = data(5, D, "chp"), targets(5, C, "c", "chp")
    w = np.array([2.0, 1, 3])
    dt = prec(kind)
    groups = [(n, f, W.astype(dt), B.astype(dt)) for n, f, W, B in spec_mix(D, NET, "ch")]
    neurons_saved = None
    actions = [("train", lambda m: m.train(X[:9], T[:9])), ("weights", lambda m: m.train(X, T, "wc", w=[9, 1, 1])),
               ("add", lambda m: add(m, [group(D, "tanh", 2, "ch")])), ("prune", lambda m: m.nnet._prune([1, 2])),
               ("add_data", lambda m: (m.add_data(X, T), m.nnet.solve())), ("load", lambda m: m.loads(other)),
               ("reset", lambda m: m.nnet.reset()), ("set_B", lambda m: m.nnet.set_B(np.ones_like(np.array(m.nnet.get_B())))),
               ("norm", lambda m: (setattr(m.nnet, "norm", 33.0), m.train(X, T))), ("predict", lambda m: m.predict(X).fill(3)),
               ("project", lambda m: m.project(X).fill(3))]
    o = add(mk("elm", D, C), spec_mix(D, "sigm:2", "other"))
    o.train(X, T)
    other = o.dumps()
    for how in ("same arrays", "loads", "load"):
        for name, act in actions:
            a = add(mk(kind, D, C, "wc", w, norm=0.5), groups, copy=False)
            a.train(X, T)
            if how == "same arrays":
                b = add(mk(kind, D, C, "wc", w, norm=0.5), groups, copy=False)
                b.train(X, T)
            elif how == "loads":
                b = mk(kind, D, C, norm=0.5)
                b.loads(a.dumps())
            else:
                a.save("ch.model")
                b = mk(kind, D, C, norm=0.5)
                b.load("ch.model")
            c = mk("hp", D, C)
            c.loads(a.dumps())
            for changed, others in ((a, (b, c)), (b, (a, c)), (c, (a, b))):
                before = [watch(m, P, PT) for m in others]
                act(changed)
                ctx.step()
                what = "%s, %s: %s of one model" % (kind, how, name)
                if not ctx.ok([watch(m, P, PT) for m in others] == before, what + " changed another"):
                    return
                for m in others:        # also what they train next
                    z = mk(kind if m is not c else "hp", D, C)
                    z.loads(m.dumps())
                    z.train(X, T)
                    y = mk(kind if m is not c else "hp", D, C)
                    y.loads(m.dumps())
                    y.train(X, T)
                    ctx.ok(np.array_equal(y.predict(P), z.predict(P)), what + ": training is not repeatable")
                ctx.state(kind, how, name)
            ctx.ok(np.array_equal(w, [2, 1, 3]) and all(np.array_equal(W, W2.astype(dt)) and np.array_equal(B, B2.astype(dt))
                                                         for (_, _, W, B), (_, _, W2, B2) in zip(groups, spec_mix(D, NET, "ch"))),
                   "%s %s %s: shared arrays were modified" % (kind, how, name))
            ctx.trace()


def tools(case, ctx):
    how = case["how"]
    for dt in TYPES:
        box = Box()
        A = np.rint(data(9, 4, "tools") * 2) + 4
        T = np.rint(data(9, 2, "toolt") * 2) + 4
        G = box.give(A, how, dt)
        make_hdf5(G, "a.h5")
        make_hdf5(G, "b.h5", dtype=np.float32, comp_level=3)
        make_hdf5(box.give(A[:, 0], how, dt), "c.h5")
        ctx.close(h5get("a.h5"), A, "make_hdf5 %s %s" % (how, dt))
        np.save("a.npy", A)
        with open("a.csv", "w") as f:
            f.write("\n".join(",".join("%g" % x for x in r) for r in A))
        srcs = {}
        for s, kw in (("a.npy", {}), ("a.csv", {"delimiter": ","})):
            with open(s, "rb") as f:
                b = f.read()
            make_hdf5(s, "d.h5", **kw)
            ctx.close(h5get("d.h5"), A, "make_hdf5 " + s)
            with open(s, "rb") as f:
                ctx.ok(f.read() == b, "make_hdf5 modified its source " + s)
        m0, s0 = box.give(np.arange(4.0), how, "f8" if dt in ("i8", "u1") else dt), box.give(np.array([1.0, 0, 2, 4]), how, "f8" if dt in ("i8", "u1") else dt)
        hdf5_tools.normalize_hdf5("a.h5", m0, s0)
        ctx.ok(box.same(), "%s %s: make_hdf5 or normalize_hdf5 modified its arrays" % (how, dt))
        h = box.give(A, how, "f8" if dt != "f4" else dt)
        t = box.give(T, how, "f8" if dt != "f4" else dt)
        for k in (1, 3, 4):
            mrsr(h, t, k), mrsr2(h, t, k)
            ctx.step(2)
        ctx.ok(box.same(), "%s %s: a ranking modified its arrays" % (how, dt))
        np.random.seed(3)
        for kind in ("rbf_l1", "rbf_l2", "rbf_linf"):
            W, B = rbf_param(box.give(A, how, "f8"), 3, kind)
            ctx.step()
        ctx.ok(box.same(), "%s %s: rbf_param modified its array" % (how, dt))
        h5put("x.h5", A, name="data")
        with open("x.h5", "rb") as f:
            b = f.read()
        rbf_param("x.h5", 3, "rbf_l2")
        with open("x.h5", "rb") as f:
            ctx.ok(f.read() == b, "rbf_param modified its file")
        # returned parameters are not linked to the data
        W, B = rbf_param(G.astype(float), 3, "rbf_l2")
        Wc = np.array(W)
        ctx.state(how, dt)
        ctx.trace()


# ---- the same array objects with new contents ------------------------------------------------------------------------

class Buf(object):
    """Arrays for one operation: either always the same objects (overwritten in place) or fresh ones."""

    def __init__(self, reuse):
        self.reuse, self.keep = reuse, {}

    def __call__(self, key, A):
        A = np.array(A, dtype=float)
        if not self.reuse:
            return A
        k = (key, A.shape)
        if k in self.keep:
            self.keep[k][...] = A
        else:
            self.keep[k] = A
        return self.keep[k]


def b_w(m, g, X, T):
    m.train(g("X", X), g("T", T), "wc", w=g("w", 1 + np.abs(X[0, :C])))


def b_neurons(m, g, X, T):
    m.add_neurons(2, "tanh", g("W", X[:D, :2] / 4 if D == C else X[:2].T / 4), g("B", X[0, :2]))
    m.train(g("X", X), g("T", T))


def b_corr(m, g, X, T):
    L = m.nnet.L
    A = X[:, :1].dot(np.arange(1.0, L + 1)[None, :]) + np.sin(np.arange(N * L).reshape(N, L))
    m.nnet.set_corr(g("HH", A.T.dot(A) + np.eye(L)), g("HT", A.T.dot(T)))
    m.nnet.solve()


def b_setb(m, g, X, T):
    L = m.nnet.L
    m.nnet.set_B(g("BB", np.cos(np.arange(L * C).reshape(L, C) + X[0, 0])))


def b_add(m, g, X, T):
    m.add_data(g("X", X), g("T", T))
    m.nnet.solve()


def b_error(m, g, X, T):
    return [m.error(g("T", T), g("Y", T + X / 3)), m.confusion(g("T", T), g("Y", T + X / 3)) if m.classification else 0]


def b_out(m, g, X, T):
    if isinstance(m, HPELM):
        Y, H = g("Yo", np.zeros((N, C))), g("Ho", np.zeros((N, m.nnet.L)))
        m.predict(g("X", X), Y)
        m.project(g("X", X), H)
        return [np.array(Y), np.array(H)]
    return [m.predict(g("T", T)), m.project(g("T", T))]


def b_sel(m, g, X, T):
    if isinstance(m, HPELM):
        m.train(g("X", X), g("T", T), "c", istart=1, icount=9)
    else:
        m.train(g("X", X), g("T", T), "V", Xv=g("Xv", X[::-1]), Tv=g("Tv", T[::-1]))


def b_temp(m, g, X, T):
    """Arrays that are dropped at once: the next one may get the same address."""
    alive = []
    r = []
    for f in (m.project, m.predict):
        for q in (1.0, 2.0, 3.0):
            A = X * q
            r.append(np.array(f(A)))
            if not g.reuse:
                alive.append(A)
            del A
    return r


BUF = [("train", lambda m, g, X, T: m.train(g("X", X), g("T", T))), ("train c", lambda m, g, X, T: m.train(g("X", X), g("T", T), "c")),
       ("train wc", lambda m, g, X, T: m.train(g("X", X), g("T", T), "wc")), ("train w", b_w), ("neurons", b_neurons), ("set_corr", b_corr),
       ("set_B", b_setb), ("add_data", b_add), ("predict", lambda m, g, X, T: [np.array(m.predict(g("X", X)))]),
       ("project", lambda m, g, X, T: [np.array(m.project(g("X", X)))]), ("error", b_error), ("out", b_out), ("select", b_sel), ("temporary", b_temp)]


def buffer(case, ctx):
    kind = case["kind"]
    n = len(BUF)
    P, PT = data(6, D, "c18p"), targets(6, C, "c", "c18p")
    hist = [(i, j) for i in range(n) for j in range(n)] + [(i, i, i) for i in range(n)] + [(0, i, j) for i in range(n) for j in range(n) if i % 3 == j % 3]
    for h in hist:
        out = []
        for reuse in (False, True):
            np.random.seed(3)
            m, g, r = base_model(kind), Buf(reuse), []
            m.train(data(N, D, "c18b"), targets(N, C, "c", "c18b"))
            for q, i in enumerate(h):
                r.append(BUF[i][1](m, g, data(N, D, ("c18b", q)), targets(N, C, "c", ("c18b", q))) or [])
                r.append(watch(m, P, PT) if q == len(h) - 1 else [])       # nothing else between the calls
                ctx.step()
            out.append(r)
        what = "%s %s with the same arrays" % (kind, " ".join(BUF[i][0] for i in h))
        for q in range(len(out[0])):
            if not ctx.ok(all(np.array_equal(a, b) for a, b in zip(out[0][q], out[1][q])) and len(out[0][q]) == len(out[1][q]) if q % 2 == 0
                          else out[0][q] == out[1][q], "%s: call %d differs from fresh arrays" % (what, q // 2 + 1), list(h)):
                return
        ctx.state(kind, h)
        ctx.trace()
