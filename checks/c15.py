"""C15: make_hdf5 from every kind of source, shape, dtype and option; contents compared exactly."""
import bz2
import gzip
import itertools

from mc.lib import *
from hpelm import make_hdf5

ID = "C15"
LEVEL = "model_checking"
RULE = ("case = (source kind, shape): all dtypes x (arrays: input dtypes and memory layouts; text: delimiters, skipped header "
        "rows, line ends, number formats, compression) x compression levels x existing target files; contents, dtype, "
        "number of arrays, closed file, use by HPELM and by make_hdf5/normalize_hdf5 again")
ASSUMPTIONS = ["text holds numbers that the requested dtype can represent; boolean text is not claimed"]
TIMEOUT = 150
SHAPES = ((1, 1), (1, 4), (4, 1), (2, 3), (5, 2), (3, 11), (1001, 3), (2500, 2), (6, 300), (4999, 1), (1025, 2), (HUGE, 1))
DT = (np.float64, np.float32, np.int64, np.int32, np.int16, np.uint8, np.int8)
DELIMS = (" ", ",", ";", "\t", "|", ":")


def cases(tier):
    deep = tier == "thorough"
    for src_ in ("array", "array1d", "npy", "npy1d", "text", "gz", "bz2", "shape"):
        for sh in SHAPES + (((20000, 5), (3, 3000)) if deep else ()):
            if "1d" in src_ and sh[1] != 1 and sh[0] < 100:
                continue
            yield {"src": src_, "shape": sh, "deep": deep}
    yield {"src": "sequence", "shape": (3, 2), "deep": deep}


def values(shape, dt, kind):
    r = rs("c15", shape, kind)
    dt = np.dtype(dt)
    if dt.kind == "f":
        A = r.randint(-800, 800, size=shape) / 16.0
        if kind == "wide":
            A = A * 10.0 ** r.randint(-30, 30, size=shape)
    elif dt.kind == "u":
        A = r.randint(0, min(np.iinfo(dt).max + 1, 2 ** 62), size=shape)
    else:
        i = np.iinfo(dt)
        A = r.randint(max(i.min, -2 ** 62), min(i.max, 2 ** 62), size=shape)
    return A.astype(dt)


def read(path):
    import tables
    with tables.open_file(path, "r") as h:
        leaves = list(h.walk_nodes("/", "Leaf"))
        assert len(leaves) == 1, "%d arrays in the file" % len(leaves)
        return leaves[0][:], leaves[0].dtype


def is_closed(path):
    import tables
    return not [f for f in tables.file._open_files.filenames if os.path.realpath(f) == os.path.realpath(path)]


def old_target(how, path):
    import tables
    if os.path.exists(path):
        os.remove(path)
    if how == "larger":
        h5put(path, np.ones((50, 7)))
    elif how == "two":
        with tables.open_file(path, "w") as h:
            h.create_array(h.root, "data", np.ones((3, 3)))
            h.create_array(h.root, "zzz", np.ones((30, 2)))
    elif how == "garbage":
        with open(path, "wb") as f:
            f.write(b"not HDF5" * 100)


OLD = ("none", "larger", "two", "garbage")


def check(ctx, path, want, what):
    ctx.step()
    ok = ctx.ok(is_closed(path), what + ": the file is left open")
    got, dt = read(path)
    ok &= ctx.ok(dt == want.dtype, "%s: stored as %s instead of %s" % (what, dt, want.dtype))
    ok &= ctx.ok(got.shape == want.shape, "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    if ok and not np.array_equal(got, want):
        i = tuple(np.argwhere(got != want)[0])
        ok = ctx.ok(False, "%s: element %s is %r instead of %r" % (what, i, got[i], want[i]))
    return ok


def use(ctx, path, want, what):
    """At once as training data and again as a target."""
    N, d = want.shape
    X = want.astype(float)
    X = X / (1 + np.abs(X).max())
    m = add(mk("hp", d, 1, norm=0.5), [group(d, "lin", 2)])
    H = m.project(path)
    ctx.close(np.asarray(H) / (1 + np.abs(want).max()), h_ref(want.astype(float), [group(d, "lin", 2)]) / (1 + np.abs(want).max()),
              what + ": used by HPELM", 1e-9)
    make_hdf5((2, 2), path)
    check(ctx, path, np.zeros((2, 2)), what + ": made again")


def run(case, ctx):
    s, shape, deep = case["src"], tuple(case["shape"]), case["deep"]
    {"array": arrays, "array1d": arrays, "npy": arrays, "npy1d": arrays, "text": texts, "gz": texts, "bz2": texts, "shape": shapes,
     "sequence": sequences}[s](ctx, s, shape, deep)
    ctx.trace()


def arrays(ctx, s, shape, deep):
    big = shape[0] * shape[1] > 1000
    n = 0
    for dt in DT + (np.float16, np.bool_, np.uint16, np.uint64):
        for kind in ("small", "wide") if np.dtype(dt).kind == "f" and dt != np.float16 else ("small",):
            base = values(shape if "1d" not in s else shape[:1], np.int8 if dt in (np.float16,) else np.uint8 if dt is np.bool_ else dt, kind)
            if dt is np.bool_:
                base = base > 100
            base = base.astype(dt)
            for out in (dt, np.float64, np.float32, "f4", float) + ((int,) if np.dtype(dt).kind in "iu" else ()):
                if kind == "wide" and dt is np.float64 and np.dtype(out) != np.float64:
                    base = base.astype(np.float32).astype(np.float64)
                want = base.astype(out)
                want = want[:, None] if want.ndim == 1 else want
                for how in ("arr", "F", "view", "rev", "ro") if s.startswith("array") else ("npy",):
                    n += 1
                    if big and n % ((4 if shape[0] < 4000 else 40) if not deep else 1):
                        continue
                    level = n % 10
                    old = OLD[n % 4]
                    what = "%s %s %s -> %s layout %s level %d over %s" % (s, shape, np.dtype(dt), np.dtype(out), how, level, old)
                    old_target(old, "o.h5")
                    if how == "npy":
                        A = base
                        np.save("in.npy", np.asfortranarray(base) if n % 3 == 0 else base)
                        arg = "in.npy" if n % 2 else os.path.abspath("in.npy")
                    else:
                        A = arg = src(base, how)
                    if n % 7 == 0 and np.dtype(out) == np.float64:
                        make_hdf5(arg, "o.h5")
                    else:
                        make_hdf5(arg, "o.h5", dtype=out, comp_level=level)
                    if not check(ctx, "o.h5", want, what):
                        return
                    ctx.ok(np.array_equal(A, base), what + ": source modified")
                    ctx.state(s, shape, str(dt), str(np.dtype(out)), how, level, old)
                    if n % 5 == 0 and np.abs(want.astype(float)).max() < 1e6 and np.dtype(out).kind == "f":
                        use(ctx, "o.h5", want, what)


def number(x, style):
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    return {0: "%r", 1: "%.17g", 2: "%.17e", 3: "%+.17g"}[style] % float(x)


def texts(ctx, s, shape, deep):
    n = 0
    big = shape[0] * shape[1] > 1000
    for dt in DT:
        for kind in ("small", "wide") if np.dtype(dt).kind == "f" else ("small",):
            A = values(shape, dt, kind)
            for di, delim in enumerate(DELIMS):
                for skip in (0, 1, 3):
                    for end in ("\n", "\r\n", "none", "blank"):
                        n += 1
                        if big and n % (17 if not deep else 5) or shape[0] > 4000 and n % (17 * 9) or shape[0] > 10000 and n % (17 * 90) or not deep and not big and n % 2 and s != "text":
                            continue
                        nl = "\r\n" if end == "\r\n" else "\n"
                        style = n % 4
                        rows = [delim.join(number(x, style) for x in r) for r in A]
                        head = ["some header %d" % i if i else delim.join("col%d" % j for j in range(shape[1])) for i in range(skip)]
                        text = nl.join(head + rows) + ("" if end == "none" else nl * (2 if end == "blank" else 1))
                        f = {"text": ("in.txt", "in.csv")[n % 2], "gz": ("in.txt.gz", "in.csv.gz")[n % 2], "bz2": "in.bz2"}[s]
                        with {"text": open, "gz": gzip.open, "bz2": bz2.open}[s](f, "wt", newline="") as h:
                            h.write(text)
                        if n % 3 == 0:
                            f = os.path.abspath(f)
                        level, old = n % 10, OLD[n % 4]
                        what = "%s %s %s delimiter %r skip %d end %r numbers %d level %d over %s" % (
                            s, shape, np.dtype(dt), delim, skip, end, style, level, old)
                        old_target(old, "o.h5")
                        kw = {}
                        if delim != " ":
                            kw["delimiter"] = delim
                        if skip:
                            kw["skiprows"] = skip
                        if dt is not np.float64:
                            kw["dtype"] = dt
                        if level:
                            kw["comp_level"] = level
                        make_hdf5(f, "o.h5", **kw)
                        if not check(ctx, "o.h5", A, what):
                            return
                        ctx.state(s, shape, str(dt), delim, skip, end, style)
                        if n % 11 == 0 and np.dtype(dt).kind == "f" and kind == "small":
                            use(ctx, "o.h5", A, what)


def shapes(ctx, s, shape, deep):
    for dt in DT + (float, "f4", np.bool_):
        for level in range(10):
            for old in OLD if shape[0] < 4000 else OLD[level % 4:][:1]:
                old_target(old, "o.h5")
                what = "shape %s %s level %d over %s" % (shape, np.dtype(dt), level, old)
                arg = shape if level % 2 else (np.int64(shape[0]), np.int32(shape[1]))
                make_hdf5(arg, "o.h5", dtype=dt, comp_level=level)
                if not check(ctx, "o.h5", np.zeros(shape, dtype=dt), what):
                    return
                ctx.state(shape, str(dt), level, old)


def sequences(ctx, s, shape, deep):
    """The same target made again and again from different sources, used in between."""
    A = values((4, 3), np.float64, "small")
    np.save("s.npy", A * 2)
    with open("s.csv", "w") as f:
        f.write("a,b,c\n" + "\n".join(",".join("%r" % float(x) for x in r) for r in A * 3) + "\n")
    ops = {"array": lambda: (make_hdf5(A, "o.h5"), A)[1], "1d": lambda: (make_hdf5(A[:, 0], "o.h5"), A[:, :1])[1],
           "npy": lambda: (make_hdf5("s.npy", "o.h5", comp_level=5), A * 2)[1],
           "csv": lambda: (make_hdf5("s.csv", "o.h5", delimiter=",", skiprows=1), A * 3)[1],
           "zeros": lambda: (make_hdf5((5, 2), "o.h5", np.float32), np.zeros((5, 2), np.float32))[1],
           "hdf5 of another": lambda: (make_hdf5(h5get("o.h5") if os.path.exists("o.h5") else A, "o2.h5"), None)[1]}
    for seq in itertools.product(sorted(ops), repeat=4 if deep else 3):
        for f in ("o.h5", "o2.h5"):
            if os.path.exists(f):
                os.remove(f)
        want = None
        for i, o in enumerate(seq):
            r = ops[o]()
            if o == "hdf5 of another":
                r2 = want if want is not None else A
                check(ctx, "o2.h5", np.asarray(r2, np.float64), "sequence %s (copy)" % (seq[:i + 1],))
                continue
            want = r
            check(ctx, "o.h5", want, "sequence %s" % (seq[:i + 1],))
            m = add(mk("hp", want.shape[1], 1, norm=0.5), [group(want.shape[1], "tanh", 2)])
            ctx.close(m.project("o.h5"), h_ref(want, [group(want.shape[1], "tanh", 2)]), "used in sequence %s" % (seq[:i + 1],))
        ctx.state(seq)
