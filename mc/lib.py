"""Shared fixtures and the plain reference model: data, neurons, hidden layer, ridge solution, HDF5 helpers."""
import itertools
import os

import numpy as np
import scipy.special
import tables

import hpelm
from hpelm import ELM, HPELM

TYPES = ("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf")
UFUNCS = {"np.sin": np.sin, "np.exp2": np.exp2, "np.negative": np.negative, "np.arctan": np.arctan,
          "scipy.expit": scipy.special.expit, "np.floor": np.floor}


def rs(*key):
    """Fixed data source: the values depend only on the key, never on a run-time seed."""
    import zlib
    return np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7fffffff)


def dyadic(shape, *key, **kw):
    """Multiples of 1/8 in [-scale, scale]: sums and products of a few of them are exact."""
    s = kw.get("scale", 1.5)
    return rs("dyadic", shape, key).randint(-int(8 * s), int(8 * s) + 1, size=shape) / 8.0


HUGE = 128001      # one more than a multiple of 500, 512, 1000, 1024, 2000, 4000, 16000, ...: no last row may be lost
FINE = 1.001        # makes values that need all the digits of double precision: silent conversions are seen


def data(N, d, key=0):
    return dyadic((N, d), "X", key) * FINE


def labels(N, c, key=0):
    """Every class is present if N >= c."""
    y = rs("labels", N, c, key).randint(0, c, size=N)
    k = min(N, c)
    y[:k] = rs("perm", N, c, key).permutation(c)[:k]
    return y


def onehot(y, c):
    T = np.zeros((len(y), c))
    T[np.arange(len(y)), y] = 1
    return T


def targets(N, c, kind="r", key=0):
    if kind == "r":
        return dyadic((N, c), "T", key) * FINE
    if kind in ("c", "wc"):
        return onehot(labels(N, c, key), c)
    return (rs("ml", N, c, key).rand(N, c) > 0.5).astype(float)


def func_of(name):
    return UFUNCS.get(name, name)


def group(d, func, n, key=0):
    """One call of add_neurons: (n, function name, W, B)."""
    r = rs("neurons", d, func, n, key)
    W = r.randint(-12, 13, size=(d, n)) / 8.0 * FINE
    if func.startswith("rbf"):
        B = r.randint(4, 33, size=n) / 4.0 * d * FINE
    else:
        B = r.randint(-8, 9, size=n) / 8.0 * FINE
    return (n, func, W, B)


def mix(d, spec, key=0):
    """spec: list of (function name, number) -> list of groups."""
    return [group(d, f, n, (key, i)) for i, (f, n) in enumerate(spec)]


def spec_mix(d, text, key=0):
    """'tanh:3,lin:2' -> groups"""
    return mix(d, [(p.split(":")[0], int(p.split(":")[1])) for p in text.split(",")], key)


def add(model, groups, copy=True):
    for n, f, W, B in groups:
        model.add_neurons(n, func_of(f), W.copy() if copy else W, B.copy() if copy else B)
    return model


def merged(groups):
    """Columns of the hidden layer: grouped by type in order of first use, insertion order within a type."""
    order, res = [], {}
    for n, f, W, B in groups:
        if f not in res:
            order.append(f)
            res[f] = (np.zeros((W.shape[0], 0)), np.zeros(0))
        res[f] = (np.hstack((res[f][0], W)), np.hstack((res[f][1], B)))
    return [(f,) + res[f] for f in order]


def columns(groups):
    """Flat list of neurons (func, w, b) in hidden layer order."""
    return [(f, W[:, j], B[j]) for f, W, B in merged(groups) for j in range(W.shape[1])]


def h_col(X, f, w, b):
    """Output of one neuron, straight from its documented formula."""
    X = np.asarray(X, dtype=float)
    if f.startswith("rbf"):
        D = np.abs(X - w[None, :])
        if f == "rbf_l1":
            r = D.sum(1)
        elif f == "rbf_l2":
            r = np.sqrt((D ** 2).sum(1))
        else:
            r = D.max(1)
        return np.exp(-r ** 2 / b)
    a = (X * w[None, :]).sum(1) + b
    if f == "lin":
        return a
    if f == "sigm":
        return 1.0 / (1.0 + np.exp(a))
    if f == "tanh":
        return np.tanh(a)
    return UFUNCS[f](a)


def h_ref(X, groups):
    X = np.asarray(X, dtype=float)
    if X.ndim == 1:
        X = X[:, None]
    cols = columns(groups)
    return np.stack([h_col(X, *c) for c in cols], axis=1) if cols else np.zeros((X.shape[0], 0))


def ridge(H, T, norm, w=None):
    """argmin_B  sum_i w_i |H_i B - T_i|^2 + norm |B|^2 by an orthogonal factorisation of the stacked system."""
    H, T = np.asarray(H, float), np.asarray(T, float)
    if w is not None:
        s = np.sqrt(np.asarray(w, float))[:, None]
        H, T = H * s, T * s
    L = H.shape[1]
    A = np.vstack((H, np.sqrt(norm) * np.eye(L)))
    R = np.vstack((T, np.zeros((L, T.shape[1]))))
    return np.linalg.lstsq(A, R, rcond=None)[0]


def corr(H, T, norm, w=None):
    """(HH with norm on the diagonal, HT)"""
    Hw = H if w is None else H * np.asarray(w, float)[:, None]
    return Hw.T.dot(H) + norm * np.eye(H.shape[1]), Hw.T.dot(T)


# ---- models -------------------------------------------------------------------------------------------------------

SOLVERS = {"": {}, "b": {"accelerator": "basic"}, "32": {"precision": "single"},
           "b32": {"accelerator": "basic", "precision": "single"}}


def mk(kind, d, c, *args, **kw):
    """kind: 'elm' or 'hp' + ':' + solver code ('', 'b', '32', 'b32')"""
    cls, _, sol = kind.partition(":")
    k = dict(SOLVERS[sol])
    k.update(kw)
    k.setdefault("tprint", -1 if k.get("batch", 1000) % 2 else 1000)     # odd batches: reports after every batch
    return (ELM if cls == "elm" else HPELM)(d, c, *args, **k)


def prec(kind):
    return np.float32 if kind.endswith("32") else np.float64


def pruned(model):
    """Neurons of a model as a flat list (func, w, b)."""
    return [(f, np.asarray(W)[:, j], np.asarray(B)[j]) for n, f, W, B in model.nnet.get_neurons()
            for j in range(np.asarray(W).shape[1])]


# ---- HDF5 ---------------------------------------------------------------------------------------------------------

LAYOUTS = ("carray data", "array x", "carray g/values", "earray T", "array a/b/c")


def h5put(path, A, dtype=None, earray=None, name=None, chunks=None):
    """Writes one 2-d array with PyTables only (independent of make_hdf5); the name and kind of the node vary with the file name."""
    import zlib
    A = np.asarray(A)
    if dtype is not None:
        A = A.astype(dtype)
    layout, where = LAYOUTS[zlib.crc32(repr((os.path.basename(path), A.shape)).encode()) % len(LAYOUTS)].split()
    if name is not None or earray is not None or chunks is not None or 0 in A.shape:
        layout, where = "earray" if earray else "carray", name or "data"
    path_, _, name = ("/" + where).rpartition("/")
    with tables.open_file(path, "w") as h:
        a = tables.Atom.from_dtype(A.dtype)
        kw = {"where": path_ or "/", "name": name, "createparents": True}
        if layout == "array":
            h.create_array(obj=np.ascontiguousarray(A), **kw)
        elif layout == "earray":
            n = h.create_earray(atom=a, shape=(0,) + A.shape[1:], **kw)
            n.append(np.ascontiguousarray(A))
        else:
            n = h.create_carray(atom=a, shape=A.shape, chunkshape=chunks, **kw)
            n[:] = A
    return path


def h5get(path):
    with tables.open_file(path, "r") as h:
        nodes = [n for n in h.walk_nodes("/", "Leaf")]
        assert len(nodes) == 1, "file must hold exactly one array"
        return nodes[0][:]


def src(A, how, name="f", dtype=None):
    """The same data as an array of some layout, or as an HDF5 file."""
    A = np.asarray(A) if dtype is None else np.asarray(A).astype(dtype)
    if how == "arr":
        return A.copy()
    if how == "F":
        return np.asfortranarray(A)
    if how == "view":       # non-contiguous view
        big = np.full((A.shape[0] * 2,) + tuple(2 * s for s in A.shape[1:]), 99, dtype=A.dtype)
        v = big[(slice(None, None, 2),) * A.ndim]
        v[...] = A
        return v
    if how == "rev":        # negative strides
        return A[::-1].copy()[::-1]
    if how == "ro":
        B = A.copy()
        B.flags.writeable = False
        return B
    if how == "h5":
        return h5put(os.path.abspath(name + ".h5"), A)
    if how == "h5e":
        return h5put(os.path.abspath(name + ".h5"), A, earray=True, name="anything")
    raise ValueError(how)


def held_open():
    """Files under the working directory that this process still has open."""
    here = os.getcwd() + "/"
    res = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            f = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if f.startswith(here):
            res.append(f[len(here):])
    return sorted(res)


def compositions(n):
    """All ordered ways to write n as a sum of positive parts."""
    if n == 0:
        yield ()
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


def relclose(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or bool(np.abs(a - b).max() <= tol * (1 + np.abs(b).max())))


# ---- independent definitions of errors ----------------------------------------------------------------------------

def amax_set(row):
    m = max(row)
    return [j for j, v in enumerate(row) if v == m]


def err_ref(T, Y, mode, wc=None):
    """(lowest, highest) admissible error: an interval because a tie of the largest output has no documented winner."""
    T, Y = np.asarray(T, float), np.asarray(Y, float)
    N, c = T.shape
    if mode is None:
        e = sum((float(Y[i, j]) - float(T[i, j])) ** 2 for i in range(N) for j in range(c)) / (N * c)
        return e, e
    if mode == "ml":
        e = sum((Y[i, j] > 0.5) != (T[i, j] > 0.5) for i in range(N) for j in range(c)) / float(N * c)
        return e, e
    lo, hi = [], []
    for i in range(N):
        ts, ys = amax_set(T[i]), amax_set(Y[i])
        right = set(ts) & set(ys)
        lo.append(0 if right else 1)
        hi.append(0 if len(ts) == 1 and len(ys) == 1 and right else 1)
    if mode == "c":
        return sum(lo) / float(N), sum(hi) / float(N)
    wc = [float(x) for x in wc]
    res = []
    for w in (lo, hi):
        s = 0.0
        for k in range(c):
            rows = [i for i in range(N) if T[i, k] == 1]
            if rows:
                s += wc[k] * sum(w[i] for i in rows) / float(len(rows))
        res.append(s / sum(wc))
    return tuple(res)


def close_rows(mode, c):
    """(targets, outputs) whose values hardly differ, are very large or very small; no ties."""
    alpha = [(1.0, 1 - 1e-12), (1e10, 1e10 + 1e-5), (1e-300, 2e-300), (1e300, 1.1e300), (-1e-9, 0.0), (-1e300, 1e-300), (0.25, np.nextafter(0.25, 1))]
    if mode == "ml":
        alpha = [(np.nextafter(0.5, 1), 0.5), (0.5 + 1e-12, 0.5 - 1e-12), (1e300, -1e300), (1e-300, 0.7)]
    for a in alpha:
        for v in itertools.product(a, repeat=c):
            if mode != "ml" and v.count(max(v)) > 1:
                continue
            Y = np.array([v, v[::-1], v[1:] + v[:1]])
            for k in range(c):
                if mode == "ml":
                    T = np.array([[(i + j + k) % 2 for j in range(c)] for i in range(3)], float)
                else:
                    T = np.eye(c)[[k, (k + 1) % c, k]]
                yield T, Y


def conf_ref(T, Y, mode):
    """Confusion matrix for rows without ties."""
    T, Y = np.asarray(T, float), np.asarray(Y, float)
    N, c = T.shape
    C = np.zeros((c, c))
    for i in range(N):
        if mode == "ml":
            for a in range(c):
                for b in range(c):
                    C[a, b] += (T[i, a] > 0.5) and (Y[i, b] > 0.5)
        else:
            C[amax_set(T[i])[0], amax_set(Y[i])[0]] += 1
    return C
