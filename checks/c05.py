"""C05: all preemption-bounded interleavings of real worker processes adding to the same matrix files."""
import shutil

from mc.lib import *
from mc import procs

ID = "C05"
LEVEL = "model_checking"
RULE = ("case = (workers and their parts, files absent/existing, solver, step of the first switch): every schedule of real "
        "processes at lock, unlock, open, close, flush, matrix read/write and existence-check operations with at most the "
        "given number of preemptions; the files are compared with norm*I plus all parts")
ASSUMPTIONS = ["visible operations are those of PyTables files and arrays, fcntl locks and os.path/os file calls",
               "a lock requested with a time-out may time out whenever it is taken"]
TIMEOUT = 600
D, C, NORM = 2, 2, 0.5
SCEN = {
    # name: (parts per worker [(istart, icount), ...], files exist before)
    "2new": ([[(0, 3)], [(3, 4)]], False),
    "2old": ([[(0, 3)], [(3, 4)]], True),
    "2x2new": ([[(0, 2), (2, 1)], [(3, 4)]], False),
    "3new": ([[(0, 3)], [(3, 2)], [(5, 2)]], False),
    "3old": ([[(0, 3)], [(3, 2)], [(5, 2)]], True),
    "2same": ([[(0, 7)], [(0, 7)]], False),
    "2hh": ([[(0, 3)], [(3, 4)]], "HH"),       # only one of the two files exists
    "2ht": ([[(0, 3)], [(3, 4)]], "HT"),
    # workers in different folders that name the same files in different ways
    "2newmix": ([[(0, 3)], [(3, 4)]], False),
    "2oldmix": ([[(0, 3)], [(3, 4)]], True),
    "3newmix": ([[(0, 3)], [(3, 2)], [(5, 2)]], False),
}


def cases(tier):
    deep = tier == "thorough"
    plan = [("2new", "hp", 2), ("2old", "hp", 2), ("3new", "hp", 1), ("2hh", "hp", 1), ("2ht", "hp", 1), ("2new", "hp:b", 1),
            ("2newmix", "hp", 1), ("2oldmix", "hp", 1)]
    if deep:
        plan = [("2new", "hp", 3), ("2old", "hp", 3), ("2x2new", "hp", 2), ("3new", "hp", 2), ("3old", "hp", 2),
                ("2same", "hp:b", 2), ("2hh", "hp", 2), ("2ht", "hp", 2), ("2new", "hp:32", 2),
                ("2newmix", "hp", 2), ("2oldmix", "hp", 2), ("3newmix", "hp", 1)]
    for name, kind, bound in plan:
        n = 34 * (2 if name[0] == "2" else 3) * (2 if "x2" in name else 1)
        yield {"scen": name, "kind": kind, "bound": bound, "first": None}
        for i in range(n):
            for r in range(8 if i == 0 else 1):
                yield {"scen": name, "kind": kind, "bound": bound, "first": i, "part": [r, 8 if i == 0 else 1]}


def run(case, ctx):
    parts, exist = SCEN[case["scen"]]
    kind = case["kind"]
    G = spec_mix(D, "tanh:2,lin:1")
    X, T = data(7, D, "c5"), targets(7, C, "r", "c5")
    fx, ft = h5put("x.h5", X), h5put("t.h5", T)
    fx, ft = os.path.abspath(fx), os.path.abspath(ft)
    H = h_ref(X, G)
    pre = (np.arange(9.0).reshape(3, 3) + np.arange(9.0).reshape(3, 3).T, np.arange(6.0).reshape(3, 2))
    h5put("HH0.h5", pre[0] + NORM * np.eye(3), prec(kind))
    h5put("HT0.h5", pre[1], prec(kind))
    HH0, HT0 = NORM * np.eye(3), np.zeros((3, C))
    if exist in (True, "HH"):
        HH0 = HH0 + pre[0]
    if exist in (True, "HT"):
        HT0 = HT0 + pre[1]
    for p in parts:
        for i, n in p:
            HH0, HT0 = HH0 + H[i:i + n].T.dot(H[i:i + n]), HT0 + H[i:i + n].T.dot(T[i:i + n])
    base = os.getcwd()
    tol = 1e-9 if not kind.endswith("32") else 1e-5

    mixed = case["scen"].endswith("mix")

    def worker(k, p):
        def body():
            m = add(mk(kind, D, C, norm=NORM, batch=3), G)
            place = ""
            if mixed and k == 1:
                os.mkdir("sub")
                os.chdir("sub")
                place = "../"
            elif mixed and k == 2:
                place = os.getcwd() + "/"
            for i, n in p:
                m.add_data(fx, ft, istart=i, icount=n, fHH=place + "HH.h5", fHT=place + "HT.h5")
        return body

    pool = []

    def one(choices):
        ex = attempt(choices, pool)
        if ex.error:        # confirm in fresh processes
            for w in pool:
                w.end()
            pool[:] = []
            ex2 = attempt(choices, None)
            if not ex2.error:
                ctx.count("not reproduced")
            ex = ex2
        return ex

    def attempt(choices, pool):
        d = os.path.join(base, "run")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        os.chdir(d)
        if exist in (True, "HH"):
            shutil.copy("../HH0.h5", "HH.h5")
        if exist in (True, "HT"):
            shutil.copy("../HT0.h5", "HT.h5")
        ex = procs.execute([worker(k, p) for k, p in enumerate(parts)], choices, pool=pool, private=("x.h5", "t.h5"))
        if ex.error is None:
            try:
                HH, HT = h5get("HH.h5"), h5get("HT.h5")
                if not (relclose(HH, HH0, tol) and relclose(HT, HT0, tol)):
                    ex.error = "files hold HH %s HT %s, expected %s %s" % (
                        np.round(HH, 3).tolist(), np.round(HT, 3).tolist(), np.round(HH0, 3).tolist(),
                        np.round(HT0, 3).tolist())
            except Exception as e:
                ex.error = "files unreadable: %r" % e
        os.chdir(base)
        return ex

    def on_exec(ex):
        ctx.trace()
        ctx.step(len(ex.choices))
        for pc, l in zip(ex.pcs, ex.labels):
            ctx.state(case["scen"], kind, pc, l)
        ctx.count("schedules")
        if ex.error:
            ctx.fail("%s %s: %s | schedule %s" % (case["scen"], kind, ex.error, " ".join(
                "%d:%s" % (c, l.replace(" ", "(") + ")") for c, l in zip(ex.choices, ex.labels))), {"choices": ex.choices})
            return len(ctx.violations) < 2

    procs.explore(one, case["first"], case["bound"], on_exec, part=case.get("part", (0, 1)))
    for w in pool:
        w.end()
