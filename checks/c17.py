"""C17: a catalogue of malformed arguments of every entry point, applied in every lifecycle state of a model."""
import os
import pickle

from mc.lib import *
from hpelm import make_hdf5

ID = "C17"
LEVEL = "model_checking"
RULE = ("case 'calls' = (class and solver, lifecycle state, family of calls): every call of the catalogue (entry point x argument x kind of "
        "malformation, as array or file) must raise an error; before/after comparison of neurons, weights, hidden layer, predictions or their "
        "refusal, contents of all files and of the passed arrays, files usable again; then a valid training gives the reference model; case "
        "'chain' = all calls one after another on one model; case 'pairs' = all ordered pairs of representative calls; case 'cut' = "
        "loading a model file cut at every byte")
ASSUMPTIONS = ["data accumulated for a solution and the classification type may be reset by a refused train()",
               "the target of a failed make_hdf5 may be incomplete"]
TIMEOUT = 200

D, C, N = 3, 2, 12
KINDS = ("elm", "elm:b", "elm:32", "hp", "hp:b")
STATES = ("empty", "neurons", "data", "trained", "multi", "class", "weighted", "loaded", "pruned", "stale", "reset")
FAMILIES = ("init", "neurons", "X", "T", "pairs", "options", "select", "use", "load", "corr", "valcorr", "async")


def cases(tier):
    deep = tier == "thorough"
    for kind in KINDS:
        for state in STATES:
            for fam in FAMILIES:
                if fam in ("corr", "valcorr", "async") and not kind.startswith("hp"):
                    continue
                if kind in ("elm:b", "elm:32", "hp:b") and not deep and state not in ("empty", "data", "trained", "pruned", "stale"):
                    continue
                yield {"k": "calls", "kind": kind, "state": state, "fam": fam}
            if deep or kind in ("elm", "hp"):
                yield {"k": "chain", "kind": kind, "state": state}
    for kind in ("elm", "hp"):
        for state in ("neurons", "trained", "class", "stale"):
            yield {"k": "pairs", "kind": kind, "state": state, "n": 60 if deep else 18}
        yield {"k": "save", "kind": kind}
    for how in ("load", "loads"):
        for kind in ("elm", "hp"):
            yield {"k": "cut", "how": how, "kind": kind}


class Env(object):
    """Valid data in memory and in files, and malformed variants of both."""

    def __init__(self):
        self.X, self.Y = data(N, D, "c17"), None
        self.T = targets(N, C, "c", "c17")
        self.Xv, self.Tv = data(7, D, "c17v"), targets(7, C, "c", "c17v")
        self.fX, self.fT = h5put("X.h5", self.X), h5put("T.h5", self.T, earray=True)
        self.fXv, self.fTv = h5put("Xv.h5", self.Xv), h5put("Tv.h5", self.Tv)
        h5put("old.h5", np.full((4, C), 7.0))           # an existing output
        h5put("cols.h5", self.X[:, :2])
        h5put("rows.h5", self.X[:-1])
        h5put("trows.h5", self.T[:-2])
        h5put("tcols.h5", np.hstack((self.T, self.T)))
        h5put("one.h5", np.arange(N * 1.0))
        h5put("cube.h5", np.zeros((N, D, 2)))
        h5put("text.h5", np.array([[b"a"] * D] * N))
        h5put("ttext.h5", np.array([[b"a"] * C] * N))
        with tables.open_file("empty.h5", "w"):
            pass
        with open("garbage.h5", "w") as f:
            f.write("1 2 3\n4 5 6\n")
        os.mkdir("dir.h5")
        # matrices
        for L in (3, 4, 5):
            h5put("HH%d.h5" % L, np.eye(L) * 2)
            h5put("HT%d.h5" % L, np.ones((L, C)))
        h5put("HTw.h5", np.ones((4, C + 1)))
        h5put("HTn.h5", np.ones((4, 1)))
        h5put("HHr.h5", np.ones((4, 3)))
        h5put("HHt.h5", np.ones((3, 4)))

    def bad_x(self):
        X = self.X
        r = [("fewer columns", X[:, :2]), ("more columns", np.hstack((X, X[:, :1]))), ("one column", X[:, 0]), ("transposed", X.T),
             ("3 dimensions", X[:, :, None]), ("3 dimensions, last right", X[None]), ("no dimension", np.array(1.5)),
             ("text", X.astype("U")), ("bytes", X.astype("S")), ("objects", X.astype(object)), ("list of lists", X.tolist())]
        r += [("file " + f, f) for f in ("none.h5", "dir.h5", "garbage.h5", "empty.h5", "cols.h5", "one.h5", "cube.h5", "text.h5", "nodir/x.h5", "")]
        return r

    def bad_t(self):
        T = self.T
        r = [("fewer columns", T[:, :1]), ("vector", T[:, 0]), ("more columns", np.hstack((T, T[:, :1]))), ("transposed", T.T),
             ("3 dimensions", T[:, :, None]), ("text", T.astype("U")), ("bytes", T.astype("S")), ("objects", T.astype(object))]
        r += [("file " + f, f) for f in ("none.h5", "dir.h5", "garbage.h5", "empty.h5", "tcols.h5", "X.h5", "one.h5", "cube.h5", "ttext.h5")]
        return r


def model(kind, state, env):
    """A model in the lifecycle state, and the groups of neurons a later training must use (None: not trainable)."""
    m = mk(kind, D, C, *(["wc", np.array([1.0, 2])] if state == "weighted" else []), norm=0.5, batch=5)
    g = spec_mix(D, "tanh:4" if state in ("neurons", "data", "trained", "class", "weighted", "reset") else "sigm:1,lin:2,rbf_l2:1", "c17")
    if state == "empty":
        return m, None
    if state == "loaded":
        a = add(mk("elm", D, C, norm=0.5), g)
        a.train(env.X, env.T)
        m.loads(a.dumps())
        return m, g
    add(m, g)
    if state == "data":
        m.add_data(env.X, env.T)
    elif state == "class":
        m.train(env.X, env.T, "c")
    elif state != "neurons":
        m.train(env.X, env.T)
    if state == "pruned":
        m.nnet._prune([1, 2])
        m.add_data(env.X, env.T)
        m.nnet.solve()
        g = [g[1]]
    if state == "stale":
        x = group(D, "tanh", 1, "c17s")
        add(m, [x])
        g = g + [x]
    if state == "reset":
        m.nnet.reset()
    return m, g


def catalogue(env, fam, m, hp, state):
    """(description, call) for the calls of one family."""
    X, T, Xv, Tv = env.X, env.T, env.Xv, env.Tv
    c = []

    def a(what, f):
        c.append((what, f))
    cls = HPELM if hp else ELM
    have = state != "empty"
    if fam == "init":
        for what, args, kw in [("float inputs", (3.0, 2), {}), ("text inputs", ("3", 2), {}), ("float outputs", (3, 2.5), {}), ("None outputs", (3, None), {}),
                               ("batch 0", (3, 2), {"batch": 0}), ("negative batch", (3, 2), {"batch": -5}),
                               ("3 weights for 2 classes", (3, 2, "wc", [1, 2, 3]), {}), ("1 weight for 2 classes", (3, 2, "wc"), {"w": [1]}),
                               ("no weights", (3, 2, "wc"), {"w": []})]:
            a("new model, " + what, lambda args=args, kw=kw: cls(*args, **kw))
    if fam == "neurons":
        W, B = np.ones((D, 2)), np.ones(2)
        for f in ("tnh", "TANH", "rbf", "rbf_l3", "linear", "", "gauss", b"tanh", None, 5, np.mean, abs, lambda x: x, "np.sin"):
            a("neurons of type %r" % (f,), lambda f=f: m.add_neurons(2, f))
            a("neurons of type %r with W, B" % (f,), lambda f=f: m.add_neurons(2, f, W, B))
        for f in ("tanh", "lin", "sigm", "rbf_l2", "rbf_linf", np.sin):
            for what, w in [("fewer rows", W[:2]), ("more rows", np.ones((D + 1, 2))), ("fewer columns", W[:, :1]), ("more columns", np.ones((D, 3))),
                            ("transposed", W.T), ("vector", np.ones(D * 2)), ("3 dimensions", np.ones((D, 2, 1))), ("list", W.tolist()), ("scalar", 1.0),
                            ("text", "W")]:
                a("%s neurons, W: %s" % (f, what), lambda f=f, w=w: m.add_neurons(2, f, w, B))
                a("%s neurons, W: %s, no B" % (f, what), lambda f=f, w=w: m.add_neurons(2, f, w))
            for what, b in [("shorter", B[:1]), ("longer", np.ones(3)), ("column", B[:, None]), ("row", B[None]), ("list", [1.0, 2.0]), ("scalar", 1.0),
                            ("no dimension", np.array(1.0))]:
                a("%s neurons, B: %s" % (f, what), lambda f=f, b=b: m.add_neurons(2, f, W, b))
                a("%s neurons, no W, B: %s" % (f, what), lambda f=f, b=b: m.add_neurons(2, f, None, b))
            for n in (2.0, "2", None, [2], np.array([2]), -1):
                a("%r %s neurons" % (n, f), lambda f=f, n=n: m.add_neurons(n, f))
            a("3 %s neurons with 2 in W and B" % f, lambda f=f: m.add_neurons(3, f, W, B))
            a("1 %s neuron with 2 in W and B" % f, lambda f=f: m.add_neurons(1, f, W, B))
    if fam == "X":
        for what, x in env.bad_x():
            a("train X: " + what, lambda x=x: m.train(x, T))
            a("train X: %s, T file" % what, lambda x=x: m.train(x, env.fT))
            a("train 'c' X: " + what, lambda x=x: m.train(x, T, "c"))
            a("add_data X: " + what, lambda x=x: m.add_data(x, T))
            a("add_data X: %s, T file" % what, lambda x=x: m.add_data(x, env.fT))
            a("predict X: " + what, lambda x=x: m.predict(x))
            a("project X: " + what, lambda x=x: m.project(x))
            if hp:
                a("predict into a file, X: " + what, lambda x=x: m.predict(x, "old.h5"))
                a("project into a file, X: " + what, lambda x=x: m.project(x, "old.h5"))
                a("predict a range into a file, X: " + what, lambda x=x: m.predict(x, "old.h5", istart=1, icount=3))
                a("add_data with matrix files, X: " + what, lambda x=x: m.add_data(x, T, fHH="HH4.h5", fHT="HT4.h5"))
                a("train a range, X: " + what, lambda x=x: m.train(x, T, istart=2, icount=5))
    if fam == "T":
        for what, t in env.bad_t():
            a("train T: " + what, lambda t=t: m.train(X, t))
            a("train T: %s, X file" % what, lambda t=t: m.train(env.fX, t))
            a("train 'wc' T: " + what, lambda t=t: m.train(X, t, "wc"))
            a("add_data T: " + what, lambda t=t: m.add_data(X, t))
            a("error T: " + what, lambda t=t: m.error(t, T))
            a("error Y: " + what, lambda t=t: m.error(T, t))
            a("confusion T: " + what, lambda t=t: m.confusion(t, T))
            a("confusion Y: " + what, lambda t=t: m.confusion(T, t))
            if hp:
                a("add_data with matrix files, T: " + what, lambda t=t: m.add_data(X, t, fHH="HH4.h5", fHT="HT4.h5"))
    if fam == "pairs":
        more = np.vstack((X, X))
        for what, x, t in [("T one row shorter", X, T[:-1]), ("T one row longer", X, np.vstack((T, T[:1]))), ("X one row", X[:1], T), ("T one row", X, T[:1]),
                           ("twice the rows in X", more, T), ("files, X shorter", "rows.h5", env.fT), ("files, T shorter", env.fX, "trows.h5"),
                           ("X file shorter, T array", "rows.h5", T), ("X array, T file shorter", X, "trows.h5"), ("X shorter than one batch", X[:4], T[:3]),
                           ("no rows in T", X, T[:0])]:
            a("train, " + what, lambda x=x, t=t: m.train(x, t))
            a("train 'c', " + what, lambda x=x, t=t: m.train(x, t, "c"))
            a("train 'wc', " + what, lambda x=x, t=t: m.train(x, t, "wc"))
            a("train batch 100, " + what, lambda x=x, t=t: m.train(x, t, batch=100))
            a("add_data, " + what, lambda x=x, t=t: m.add_data(x, t))
            if not hp:
                a("train 'V', validation: " + what, lambda x=x, t=t: m.train(X, T, "V", Xv=x, Tv=t))
                a("train 'LOO', " + what, lambda x=x, t=t: m.train(x, t, "LOO"))
                a("train 'CV', " + what, lambda x=x, t=t: m.train(x, t, "CV", k=3))
            else:
                a("add_data with matrix files, " + what, lambda x=x, t=t: m.add_data(x, t, fHH="HH4.h5", fHT="HT4.h5"))
    if fam == "options":
        for o in [("c", "wc"), ("c", "ml"), ("wc", "ml"), ("ML", "c"), ("C", "WC"), ("mc", "c"), ("wc", "C", "ml"), ("r", "c"), ("wc", "r")]:
            a("train %s" % (o,), lambda o=o: m.train(X, T, *o))
            if not hp:
                a("train 'LOO' %s" % (o,), lambda o=o: m.train(X, T, "LOO", *o))
        if not hp:
            for o in [("V", "CV"), ("V", "LOO"), ("CV", "LOO"), ("v", "loo"), ("V", "CV", "LOO", "OP"), ("cv", "V", "c")]:
                a("train %s" % (o,), lambda o=o: m.train(X, T, *o, Xv=Xv, Tv=Tv, k=3))
        for w in ([1, 2, 3], [1], [], np.ones(5), (2.0,)):
            a("train 'wc' w=%r" % (w,), lambda w=w: m.train(X, T, "wc", w=w))
            if not hp:
                a("train 'V' 'wc' w=%r" % (w,), lambda w=w: m.train(X, T, "V", "wc", w=w, Xv=Xv, Tv=Tv))
        one = mk("hp" if hp else "elm", D, 1)
        add(one, [group(D, "tanh", 2)])
        for o in ("c", "wc", "ml"):
            a("train %s with one output" % o, lambda o=o: one.train(X, T[:, :1], o))
    if fam == "select" and not hp:
        a("'V' without validation data", lambda: m.train(X, T, "V"))
        a("'V' without Tv", lambda: m.train(X, T, "V", Xv=Xv))
        a("'V' without Xv", lambda: m.train(X, T, "v", Tv=Tv))
        a("'V' 'OP' without Tv", lambda: m.train(X, T, "V", "OP", "c", Xv=Xv))
        a("'CV' without k", lambda: m.train(X, T, "CV"))
        for k in (2, 1, 0, -3):
            a("'CV' with k=%d" % k, lambda k=k: m.train(X, T, "CV", k=k))
        for what, x in env.bad_x():
            a("'V' Xv: " + what, lambda x=x: m.train(X, T, "V", Xv=x, Tv=Tv))
            a("'LOO' X: " + what, lambda x=x: m.train(x, T, "LOO"))
            a("'CV' 'OP' X: " + what, lambda x=x: m.train(x, T, "CV", "OP", k=3))
        for what, t in env.bad_t():
            a("'V' Tv: " + what, lambda t=t: m.train(X, T, "V", Xv=Xv, Tv=t))
            a("'V' 'OP' 'c' Tv: " + what, lambda t=t: m.train(X, T, "V", "OP", "c", Xv=Xv, Tv=t))
    if fam == "use":
        if state in ("empty", "neurons", "data", "stale"):
            a("predict without a solution", lambda: m.predict(X))
            a("predict a file without a solution", lambda: m.predict(env.fX))
            if hp:
                a("predict without a solution into a file", lambda: m.predict(env.fX, "old.h5"))
                a("predict_async without a solution", lambda: m.predict_async(env.fX, "old.h5"))
        if not have:
            a("train without neurons", lambda: m.train(X, T))
            a("train files without neurons", lambda: m.train(env.fX, env.fT, "c"))
            if hp:
                a("project without neurons", lambda: m.project(X, "old.h5"))
                a("add_data without neurons", lambda: m.add_data(X, T, fHH="HH4.h5", fHT="HT4.h5"))
                a("train_async without neurons", lambda: m.train_async(env.fX, env.fT))
                a("solve_corr without neurons", lambda: m.solve_corr("HH4.h5", "HT4.h5"))
        if state not in ("class", "weighted"):
            a("confusion of regression", lambda: m.confusion(T, T))
            a("confusion of regression, files", lambda: m.confusion(env.fT, env.fT))
        if hp and state not in ("empty", "neurons", "data", "stale"):
            Ys = np.full((N - 1, C), 3.0)
            Yc = np.full((N, C + 1), 3.0)
            for b in (1, 4, 5, 100):
                for what, y in (("few rows", Ys), ("many columns", Yc)):
                    def f(y=y, b=b):
                        old = m.batch
                        m.batch = b
                        try:
                            m.predict(X, y)
                        finally:
                            m.batch = old
                    a("predict into an array with too %s, batch %d" % (what, b), f)
        if hp and have:
            a("project into an array with few rows", lambda: m.project(X, np.full((N - 1, len(pruned(m))), 3.0)))
            a("project into an array with few columns", lambda: m.project(X, np.full((N, len(pruned(m)) - 1), 3.0)))
    if fam == "load":
        with open("notpickle", "w") as f:
            f.write("no model here")
        with open("list.pkl", "wb") as f:
            pickle.dump([1, 2], f)
        with open("dict.pkl", "wb") as f:
            pickle.dump({"a": 1}, f)
        with open("emptyfile", "w") as f:
            pass
        for f in ("nofile", "notpickle", "list.pkl", "dict.pkl", "emptyfile", "dir.h5", "nodir/m", 5, None, b"x", "X.h5"):
            a("load %r" % (f,), lambda f=f: m.load(f))
        x = add(mk("elm", 5, 3), [group(5, "tanh", 3)])
        x.train(data(9, 5), targets(9, 3, "c"), "wc", w=[1, 2, 3])
        good = pickle.loads(x.dumps())
        bad = [("without " + repr(k), {q: v for q, v in good.items() if q != k}) for k in good]
        bad += [("with %r for %r" % (v, k), dict(good, **{k: v})) for k in good for v in ("x", [7], {}, 2.5)
                if k == "neurons" and v != {} or k == "Beta" and v in ("x", {})]
        bad += [("with incomplete neurons", dict(good, neurons=good["neurons"] + [(1, "tanh", None, None)]))]
        for i, (what, b) in enumerate(bad):
            with open("bad%d.pkl" % i, "wb") as f:
                pickle.dump(b, f)
            a("load a model " + what, lambda i=i: m.load("bad%d.pkl" % i))
            a("loads a model " + what, lambda b=b: m.loads(pickle.dumps(b)))
        for b in (b"", b"garbage", pickle.dumps([1]), pickle.dumps({}), "text", None, 3):
            a("loads %r" % (b,), lambda b=b: m.loads(b))
        for f in ("nodir/m", "dir.h5", 5, None, ""):
            a("save %r" % (f,), lambda f=f: m.save(f))
    if fam == "corr":
        L = len(pruned(m))
        good = ("HH%d.h5" % L, "HT%d.h5" % L) if os.path.exists("HH%d.h5" % L) else (h5put("HHg.h5", np.eye(max(L, 1))), h5put("HTg.h5", np.ones((max(L, 1), C))))
        badHH = [f for f in ("HH3.h5", "HH4.h5", "HH5.h5", "HHr.h5", "HHt.h5", "HT4.h5", "empty.h5", "garbage.h5", "dir.h5", "one.h5") if f != good[0]]
        badHT = [f for f in ("HT3.h5", "HT4.h5", "HT5.h5", "HTw.h5", "HTn.h5", "HH4.h5", "empty.h5", "garbage.h5", "dir.h5", "one.h5") if f != good[1]]
        if L == 0:
            badHH, badHT = ["HH3.h5"], ["HT3.h5"]
        for f in badHH + ["none.h5"]:
            a("solve_corr HH " + f, lambda f=f: m.solve_corr(f, good[1]))
            a("validation_corr HH " + f, lambda f=f: m.validation_corr(f, good[1], Xv, Tv))
            if have and f != "none.h5":
                a("add_data HH " + f, lambda f=f: m.add_data(X, T, fHH=f, fHT=good[1]))
                a("add_data files HH " + f, lambda f=f: m.add_data(env.fX, env.fT, 0, 5, f, good[1]))
        for f in badHT + ["none.h5"]:
            a("solve_corr HT " + f, lambda f=f: m.solve_corr(good[0], f))
            a("validation_corr HT " + f, lambda f=f: m.validation_corr(good[0], f, Xv, Tv))
            if have and f != "none.h5":
                a("add_data HT " + f, lambda f=f: m.add_data(X, T, fHH=good[0], fHT=f))
                a("add_data files HT " + f, lambda f=f: m.add_data(env.fX, env.fT, 0, 5, good[0], f))
        if L != C:
            a("solve_corr swapped", lambda: m.solve_corr(good[1], good[0]))
    if fam == "valcorr" and have:
        L = len(pruned(m))
        h5put("HHv.h5", np.eye(L) * 3)
        h5put("HTv.h5", np.ones((L, C)))
        for what, x in env.bad_x():
            a("validation_corr Xv: " + what, lambda x=x: m.validation_corr("HHv.h5", "HTv.h5", x, Tv))
        for what, t in env.bad_t():
            a("validation_corr Tv: " + what, lambda t=t: m.validation_corr("HHv.h5", "HTv.h5", Xv, t))
        for what, x, t in [("Xv shorter", Xv[:-1], Tv), ("Tv shorter", Xv, Tv[:-1]), ("files", env.fXv, env.fT)]:
            a("validation_corr, " + what, lambda x=x, t=t: m.validation_corr("HHv.h5", "HTv.h5", x, t))
        for s in ([L + 1], [0], [1, L, L + 3], [-1, 1], np.array([0, 1])):
            a("validation_corr steps %s" % (s,), lambda s=s: m.validation_corr("HHv.h5", "HTv.h5", Xv, Tv, s))
    if fam == "async" and have:
        for what, x in env.bad_x():
            if isinstance(x, str):
                a("train_async X: " + what, lambda x=x: m.train_async(x, env.fT))
                a("add_data_async X: " + what, lambda x=x: m.add_data_async(x, env.fT))
                a("add_data_async matrix files X: " + what, lambda x=x: m.add_data_async(x, env.fT, fHH="HH4.h5", fHT="HT4.h5"))
                a("predict_async X: " + what, lambda x=x: m.predict_async(x, "old.h5"))
        for what, t in env.bad_t():
            if isinstance(t, str):
                a("train_async T: " + what, lambda t=t: m.train_async(env.fX, t))
        a("train_async rows", lambda: m.train_async("rows.h5", env.fT))
        a("train_async options", lambda: m.train_async(env.fX, env.fT, "c", "wc"))
        a("train_async weights", lambda: m.train_async(env.fX, env.fT, "wc", w=[1, 2, 3]))
        if len(pruned(m)) != 3:
            a("add_data_async HH3", lambda: m.add_data_async(env.fX, env.fT, fHH="HH3.h5", fHT="HT4.h5"))
        a("add_data_async HTw", lambda: m.add_data_async(env.fX, env.fT, fHH="HH4.h5", fHT="HTw.h5"))
        if state in ("neurons", "data", "stale"):
            a("predict_async without a solution", lambda: m.predict_async(env.fX, "old.h5"))
    return c


PROBE = data(4, D, "c17p")


def snapshot(m):
    """What must not change: neurons, weights, hidden layer, predictions or their refusal."""
    nn = [(n, f, np.array(W).tobytes(), np.array(B).tobytes()) for n, f, W, B in m.nnet.get_neurons()]
    B = m.nnet.get_B()
    H = m.project(PROBE).tobytes() if nn else None
    try:
        Y = m.predict(PROBE).tobytes()
    except Exception:
        Y = "refused"
    return nn, None if B is None else np.array(B).tobytes(), H, Y


def arrays(env):
    return [env.X.tobytes(), env.T.tobytes(), env.Xv.tobytes(), env.Tv.tobytes()]


class Proxy(object):
    """Stands for the current model, so that a catalogue of calls is built once."""

    def __getattr__(self, name):
        return getattr(self.__dict__["_m"], name)

    def __setattr__(self, name, value):
        if name == "_m":
            self.__dict__["_m"] = value
        else:
            setattr(self._m, name, value)


class Disk(object):
    """Contents of all files; only files with a new size or time are read again."""

    def __init__(self):
        self.stat, self.files = {}, {}
        self.changed()

    def changed(self):
        now = {}
        for dp, dn, fn in os.walk("."):
            for f in fn:
                if not f.endswith(".lock"):
                    f = os.path.join(dp, f)
                    s = os.stat(f)
                    now[f] = (s.st_size, s.st_mtime_ns, s.st_ino)
        res = [f for f in self.files if f not in now]
        for f in now:
            if self.stat.get(f) != now[f]:
                with open(f, "rb") as h:
                    b = h.read()
                if f in self.files and self.files[f] != b:
                    res.append(f)
                self.files[f] = b
                self.stat[f] = now[f]
        return res


def refused(ctx, env, m, what, call, before, files, arrs):
    """The call raises and nothing changes."""
    ctx.step()
    ctx.raises(call, what)
    after = snapshot(m)
    ok = True
    for name, x, y in zip(("neurons", "weights", "hidden layer", "predictions"), before, after):
        ok = ctx.ok(x == y, "%s: the refused call changed the %s" % (what, name)) and ok
    for f in files.changed():
        ok = ctx.ok(False, "%s: the refused call changed the file %s" % (what, f))
    ctx.ok(arrays(env) == arrs, what + ": the refused call changed the passed arrays")
    left = held_open()
    if left:
        ok = ctx.ok(False, "%s: the refused call left files open: %s" % (what, left)) and False
        tables.file._open_files.close_all()
    return ok


def usable(ctx, env, m, g, what, kind):
    """A valid training after the refused calls gives the reference model."""
    if g is None:
        return
    m.train(env.X, env.T, "r")
    H = h_ref(PROBE, g)
    ctx.close(m.predict(PROBE), H.dot(ridge(h_ref(env.X, g), env.T, 0.5)), what + ": training afterwards", 2e-4 if kind.endswith("32") else 1e-8)


def run(case, ctx):
    np.random.seed(5)
    env = Env()
    if case["k"] == "cut":
        return cut(case, ctx, env)
    if case["k"] == "save":
        return failed_save(case, ctx, env)
    kind, state = case["kind"], case["state"]
    hp = kind.startswith("hp")
    what0 = "%s %s: " % (kind, state)
    if case["k"] == "calls":
        p = Proxy()
        p._m, g = model(kind, state, env)
        files = Disk()
        first = True
        for what, call in catalogue(env, case["fam"], p, hp, state):
            if not first:
                p._m, g = model(kind, state, env)
            first = False
            ctx.state(kind, state, what)
            files.changed()
            if not refused(ctx, env, p._m, what0 + what, call, snapshot(p._m), files, arrays(env)):
                if len(ctx.violations) > 4:
                    return
                continue
            usable(ctx, env, p._m, g, what0 + what, kind)
            ctx.trace()
        return
    p = Proxy()
    p._m, g = model(kind, state, env)
    fams = [f for f in FAMILIES if hp or f not in ("corr", "valcorr", "async")]
    calls = [c for f in fams for c in catalogue(env, f, p, hp, state) if not c[0].startswith("confusion of")]     # the type may be reset
    files, arrs = Disk(), arrays(env)
    if case["k"] == "chain":
        before = snapshot(p._m)
        for what, call in calls:
            if not refused(ctx, env, p._m, what0 + "after others: " + what, call, before, files, arrs):
                return
        usable(ctx, env, p._m, g, what0 + "all calls", kind)
        ctx.trace()
        return
    # pairs of representative calls: about one per entry point and malformation kind
    calls = calls[::max(1, len(calls) // case["n"])]
    ctx.count("calls in pairs", len(calls))
    for a in calls:
        for b in calls:
            p._m, g = model(kind, state, env)
            before = snapshot(p._m)
            for i in (a, b):
                if not refused(ctx, env, p._m, what0 + "%s, then %s: " % (a[0], b[0]), i[1], before, files, arrs):
                    return
            usable(ctx, env, p._m, g, what0 + a[0] + ", " + b[0], kind)
            ctx.trace()


def failed_save(case, ctx, env):
    """A model that cannot be written (its custom function has no name) leaves an existing model file intact."""
    kind = case["kind"]
    g = spec_mix(D, "tanh:3,lin:1", "c17")
    a = add(mk(kind, D, C, norm=0.5), g)
    a.train(env.X, env.T)
    a.save("good")
    odd = np.frompyfunc(lambda v: v * 0.5, 1, 1)
    for n in (1, 2):
        for first in (True, False):
            m = mk(kind, D, C, norm=0.5)
            if not first:
                add(m, g)
            m.add_neurons(n, odd, np.ones((D, n)), np.zeros(n))
            if first:
                add(m, g)
            files = Disk()
            for name in ("good", "new"):
                ctx.raises(lambda: m.save(name), "%s save of a function without a name as %r" % (kind, name))
                ctx.raises(lambda: m.dumps(), "%s dumps of a function without a name" % kind)
                ctx.ok(not files.changed(), "%s: a failed save() changed an existing file" % kind)
                b = mk(kind, D, C)
                b.load("good")
                ctx.close(b.predict(PROBE), a.predict(PROBE), "%s: the existing model file after a failed save()" % kind, 1e-12)
                ctx.step()
                ctx.state("save", kind, n, first, name)
    ctx.trace()


def cut(case, ctx, env):
    kind = case["kind"]
    a, _ = model(kind, "multi", env)
    blob = a.dumps()
    for state in ("trained", "stale"):
        m, g = model(kind, state, env)
        before = snapshot(m)
        for n in range(len(blob)):
            if case["how"] == "load":
                with open("cut.bin", "wb") as f:
                    f.write(blob[:n])
                r = ctx.raises(lambda: m.load("cut.bin"), "model file cut after %d of %d bytes" % (n, len(blob)))
            else:
                r = ctx.raises(lambda: m.loads(blob[:n]), "model bytes cut after %d of %d bytes" % (n, len(blob)))
            ctx.step()
            if not ctx.ok(snapshot(m) == before, "loading %d of %d bytes changed the model" % (n, len(blob))) or r is None:
                return
            ctx.state(state, n)
        usable(ctx, env, m, g, "after loading cut files", kind)
        ctx.trace()
