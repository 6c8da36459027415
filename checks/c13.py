"""C13: all sequences of adding neurons and all subsets kept, against a list of columns."""
import itertools

from mc.lib import *

ID = "C13"
LEVEL = "model_checking"
RULE = ("case 'add' = (class:solver, first group): all sequences of up to 4 add_neurons calls over five types and two sizes; "
        "case 'keep' = (class:solver, network): every subset (small networks: every order of every subset) of the neurons "
        "kept, then neurons of every type added again, kept again, trained; case 'public' = the subset chosen through "
        "training with a validation set under every order of a random ranking; case 'random' = default weights")
ASSUMPTIONS = ["an emptied type may keep or lose its place in the column order"]
TIMEOUT = 120
FT = ("tanh", "lin", "rbf_l2", "np.sin", "sigm")


def cases(tier):
    deep = tier == "thorough"
    for kind in ("elm", "elm:b", "hp", "elm:32") + (("hp:b", "hp:32", "elm:b32") if deep else ()):
        for f in FT:
            for n in (1, 2):
                yield {"k": "add", "kind": kind, "f": f, "n": n, "depth": 4 if deep else 3}
        for spec in ("tanh:3", "tanh:2,lin:1", "lin:1,rbf_l2:2", "sigm:1,tanh:1,lin:1", "np.sin:2,tanh:2", "rbf_l1:1,rbf_linf:1,rbf_l2:1,lin:1",
                     "tanh:5", "lin:2,tanh:3") + (("tanh:2,lin:2,sigm:2", "np.sin:1,np.exp2:2,tanh:3") if deep else ()):
            yield {"k": "keep", "kind": kind, "spec": spec, "deep": deep}
        for spec in ("tanh:4,lin:3,rbf_l2:4", "sigm:12", "tanh:1,sigm:1,lin:2,np.sin:3,rbf_l1:2,rbf_linf:1,rbf_l2:1"):
            yield {"k": "subsets", "kind": kind, "spec": spec, "deep": deep}
        yield {"k": "random", "kind": kind}
        yield {"k": "large", "kind": kind}
        yield {"k": "custom", "kind": kind}
    for kind in ("elm", "elm:b", "hp"):
        for spec in ("tanh:2,lin:1", "lin:1,tanh:1,rbf_l2:2", "sigm:2,np.sin:2"):
            yield {"k": "public", "kind": kind, "spec": spec}


def tol(kind):
    return 1e-4 if kind.endswith("32") else 1e-9


D = 3


def same_cols(H, cols):
    """Is H the given columns, in any order?"""
    H = np.asarray(H, float)
    if H.shape != cols.shape:
        return False
    left = list(range(cols.shape[1]))
    for j in range(H.shape[1]):
        hit = [k for k in left if np.abs(H[:, j] - cols[:, k]).max() <= 1e-5]
        if not hit:
            return False
        left.remove(hit[0])
    return True


def blocks(H, sizes):
    p = 0
    for s in sizes:
        yield H[:, p:p + s]
        p += s


def check_net(ctx, m, groups, X, what, tl):
    """groups: what was added, in order. Exact column order."""
    want = h_ref(X, groups)
    ctx.step()
    ok = ctx.close(m.project(X), want, what + ": hidden layer", tl)
    ok &= ctx.ok(m.nnet.L == want.shape[1], "%s: L=%s instead of %d" % (what, m.nnet.L, want.shape[1]))
    got, ref = m.nnet.get_neurons(), merged(groups)
    if ctx.ok(len(got) == len(ref), "%s: %d types instead of %d" % (what, len(got), len(ref))):
        for (n, f, W, B), (f2, W2, B2) in zip(got, ref):
            ok &= ctx.ok(f == func_of(f2) and n == W2.shape[1], "%s: %s %s instead of %s %s" % (what, n, f, W2.shape[1], f2))
            ok &= ctx.close(W, W2, what + ": W of " + f2, 1e-6 if tl > 1e-6 else 1e-15)
            ok &= ctx.close(B, B2, what + ": B of " + f2, 1e-6 if tl > 1e-6 else 1e-15)
    return ok


def check_train(ctx, m, groups_cols, X, what, tl):
    """Training uses exactly the columns of project()."""
    T = targets(len(X), 2, "r", "c13")
    H = np.asarray(m.project(X), float)
    m.train(X, T)
    ctx.close(m.predict(X), H.dot(ridge(H, T, 0.5)), what + ": trained predictions", max(tl, 1e-9) * 20)
    ctx.step()


def run(case, ctx):
    {"add": add_seq, "keep": keep, "subsets": subsets, "public": public, "random": random_, "large": large, "custom": custom}[case["k"]](case, ctx)


def add_seq(case, ctx):
    kind = case["kind"]
    X = data(7, D, "c13")
    opts = [(f, n) for f in FT for n in (1, 2)]
    for k in range(case["depth"]):
        for rest in itertools.product(opts, repeat=k):
            if k == 3 and len(set(f for f, _ in rest)) == 3 and case["f"] not in [f for f, _ in rest] and rest[0][1] == 2:
                continue        # four different types with another size: nothing merges
            seq = [(case["f"], case["n"])] + list(rest)
            m = mk(kind, D, 2, norm=0.5)
            G = []
            for i, (f, n) in enumerate(seq):
                g = group(D, f, n, ("seq", i))
                G.append(g)
                add(m, [g])
                if k < 2 and not check_net(ctx, m, G, X, "%s add %s" % (kind, seq[:i + 1]), tol(kind)):
                    return
            if not check_net(ctx, m, G, X, "%s add %s" % (kind, seq), tol(kind)):
                return
            if k < 2:
                check_train(ctx, m, None, X, "%s add %s" % (kind, seq), tol(kind))
                g = group(D, "tanh", 1, "after")        # and after training
                add(m, [g])
                check_net(ctx, m, G + [g], X, "%s add %s, train, add" % (kind, seq), tol(kind))
                ctx.raises(lambda: m.predict(X), "%s: predict with neurons added after training" % kind)
            ctx.state(kind, [(f, n) for f, n in seq])
        ctx.trace()


def check_kept(ctx, m, G, idx, X, what, tl):
    """The kept neurons, by type, in any order within the type; nothing else."""
    want = h_ref(X, G)
    cols = columns(G)
    H = np.asarray(m.project(X), float)
    ctx.step()
    if not ctx.ok(H.shape == (len(X), len(idx)), "%s: %s columns" % (what, H.shape)):
        return False
    ctx.ok(m.nnet.L == len(idx), "%s: L=%s" % (what, m.nnet.L))
    p = 0
    for f, W, B in merged(G):
        mine = [i for i in idx if cols[i][0] == f]
        if not ctx.ok(same_cols(H[:, p:p + len(mine)], want[:, mine]), "%s: the %d columns of %s are not those selected" % (
                what, len(mine), f)):
            return False
        p += len(mine)
    # the reported neurons are those of the hidden layer
    flat = [(g[0], np.asarray(g[1]), g[2]) for g in pruned(m)]
    for j, (f, w, b) in enumerate(flat):
        name = [k for k in list(UFUNCS) + list(TYPES) if func_of(k) == f][0]
        if not ctx.close(h_col(X, name, w, b), H[:, j], what + ": reported neuron %d" % j, 1e-4):
            return False
    return ctx.ok(len(flat) == len(idx), "%s: %d neurons reported" % (what, len(flat)))


def after(ctx, m, X, what, tl):
    """More neurons: old columns stay, the new one joins its type."""
    for f in ("tanh", "lin", "np.sin"):
        old = np.asarray(m.project(X), float)
        g = group(D, f, 1, "again")
        add(m, [g])
        H = np.asarray(m.project(X), float)
        new = h_ref(X, [g])
        ctx.ok(same_cols(H, np.hstack((old, new))), "%s: columns after adding %s are not the old ones and the new one" % (what, f))
        ctx.ok(m.nnet.L == H.shape[1], "%s: L=%s after adding to %d" % (what, m.nnet.L, old.shape[1]))
        ctx.step()


def keep(case, ctx):
    kind, spec = case["kind"], case["spec"]
    X = data(6, D, "c13k")
    G = spec_mix(D, spec)
    L = sum(g[0] for g in G)
    for k in range(1, L + 1):
        sets = itertools.permutations(range(L), k) if L <= 4 or case["deep"] and L <= 5 else itertools.combinations(range(L), k)
        for idx in sets:
            for rev in ((False,) if L <= 4 else (False, True)):
                ix = list(idx)[::-1] if rev else list(idx)
                m = add(mk(kind, D, 2, norm=0.5), G)
                what = "%s %s keep %s" % (kind, spec, ix)
                m.nnet._prune(np.array(ix) if k % 2 else ix)
                if not check_kept(ctx, m, G, ix, X, what, tol(kind)):
                    return
                ctx.state(kind, spec, ix)
                if L <= 4 and k < 4 or L > 4 and k in (1, 3):
                    check_train(ctx, m, None, X, what, tol(kind))
                    after(ctx, m, X, what, tol(kind))
                    check_train(ctx, m, None, X, what + " + added", tol(kind))
                    # and keep again
                    H = np.asarray(m.project(X), float)
                    n = H.shape[1]
                    sel = list(range(n - 1, -1, -2))
                    m.nnet._prune(sel)
                    ctx.ok(same_cols(m.project(X), H[:, sel]), what + ": kept again %s" % sel)
                ctx.trace()


def subsets(case, ctx):
    """Every subset of a larger network with several types."""
    kind, spec = case["kind"], case["spec"]
    X = data(5, D, "c13k")
    G = spec_mix(D, spec)
    L = sum(g[0] for g in G)
    for bits in range(1, 2 ** L, 1 if case["deep"] else 3):
        ix = [i for i in range(L) if bits >> i & 1]
        ix = ix[bits % len(ix):] + ix[:bits % len(ix)]
        m = add(mk(kind, D, 2), G)
        m.nnet._prune(ix)
        if not check_kept(ctx, m, G, ix, X, "%s %s keep %s" % (kind, spec, ix), tol(kind)):
            return
        ctx.state(kind, spec, bits)
    ctx.trace()


def public(case, ctx):
    """Model structure selection keeps neurons of the network, whatever ranking is drawn."""
    kind, spec = case["kind"], case["spec"]
    G = spec_mix(D, spec)
    L = sum(g[0] for g in G)
    X, Xv = data(12, D, "pub"), data(8, D, "pubv")
    real = np.random.shuffle
    for perm in itertools.permutations(range(L)):
        for key in (0, 1):
            T, Tv = targets(12, 2, "r", ("pub", key)), targets(8, 2, "r", ("pubv", key))
            m = add(mk(kind, D, 2, norm=0.5), G)

            def shuffle(a, perm=perm):
                a[:] = np.asarray(a)[list(perm)] if len(a) == L else a
            np.random.shuffle = shuffle
            try:
                m.train(X, T, "V", Xv=Xv, Tv=Tv)
            finally:
                np.random.shuffle = real
            n = m.nnet.L
            what = "%s %s selected with order %s" % (kind, spec, perm)
            H, full = np.asarray(m.project(X), float), h_ref(X, G)
            left = list(range(L))
            for j in range(H.shape[1]):
                hit = [k for k in left if np.abs(full[:, k] - H[:, j]).max() < 1e-9]
                if not ctx.ok(hit, "%s: column %d is not one of the network" % (what, j)):
                    return
                left.remove(hit[0])
            ctx.ok(H.shape[1] == n and len(pruned(m)) == n, what + ": neuron counts differ")
            ctx.close(m.predict(X), H.dot(ridge(H, T, 0.5)), what + ": retrained", 1e-9)
            ctx.step()
            ctx.trace()
            ctx.state(kind, spec, perm, key, n)


def random_(case, ctx):
    """Default weights: shapes, values kept, number of linear neurons limited by the inputs."""
    kind = case["kind"]
    for d in (1, 2, 4):
        for f in TYPES + ("np.sin",):
            for n in (1, 3, 6):
                for given in ("none", "W", "B"):
                    m = mk(kind, d, 2, norm=0.5)
                    _, _, W, B = group(d, f, n, "rnd")
                    if given == "none":
                        m.add_neurons(n, func_of(f))
                    elif given == "W":
                        m.add_neurons(n, func_of(f), W=W.copy())
                    elif f != "lin" or n <= d:
                        m.add_neurons(n, func_of(f), B=B.copy())
                    else:
                        continue
                    want = min(n, d) if f == "lin" and given == "none" else n
                    what = "%s d=%d %s:%d given %s" % (kind, d, f, n, given)
                    (k, g, W1, B1), = m.nnet.get_neurons()
                    W1, B1 = np.asarray(W1), np.asarray(B1)
                    ctx.ok(k == want and W1.shape == (d, want) and B1.shape == (want,), "%s: %s %s %s" % (what, k, W1.shape, B1.shape))
                    ctx.ok(np.isfinite(W1).all() and np.isfinite(B1).all(), what + ": values not finite")
                    if given == "W":
                        ctx.close(W1, W, what + ": W", 1e-6 if kind.endswith("32") else 1e-15)
                    if given == "B":
                        ctx.close(B1, B, what + ": B", 1e-6 if kind.endswith("32") else 1e-15)
                    if f.startswith("rbf"):
                        ctx.ok((B1 > 0).all(), what + ": width not positive")
                    if f == "lin" and given == "none":
                        ctx.close(m.project(data(5, d)), data(5, d)[:, :want], what + ": linear neurons copy inputs")
                    # add again: both groups kept
                    m.add_neurons(2, "tanh" if f != "tanh" else "sigm")
                    m.add_neurons(1, func_of(f))
                    A = m.nnet.get_neurons()
                    ctx.ok(np.array_equal(np.asarray(A[0][2])[:, :want], W1) and np.array_equal(np.asarray(A[0][3])[:want], B1),
                           what + ": weights lost when more neurons are added")
                    ctx.ok(m.nnet.L == want + 2 + 1, what + ": L=%s" % m.nnet.L)
                    ctx.ok(m.project(data(5, d)).shape == (5, want + 3), what + ": hidden layer shape")
                    ctx.step()
                    ctx.state(kind, d, f, n, given)
    ctx.trace()


def custom(case, ctx):
    """Custom functions are told apart by identity, not by name: all sequences of up to 4 of three functions and tanh."""
    kind = case["kind"]
    fs = [np.frompyfunc(f, 1, 1) for f in (lambda a: a + 1, lambda a: 2 * a, lambda a: a * a)] + [np.tanh]
    X = data(5, D, "custom")
    for k in (1, 2, 3, 4):
        for seq in itertools.product(range(4), repeat=k):
            m = mk(kind, D, 2, norm=0.5)
            G = [(fs[f],) + group(D, "np.tanh", 1 + i % 2, ("custom", i))[2:] for i, f in enumerate(seq)]
            want = []
            for f, W, B in G:
                m.add_neurons(W.shape[1], f, W.copy(), B.copy())
            for f in sorted(set(seq), key=seq.index):
                want += [fs[f](X.dot(W) + B).astype(float) for g, W, B in G if g is fs[f]]
            if not ctx.close(m.project(X), np.hstack(want), "%s custom functions %s" % (kind, seq), tol(kind)):
                return
            ctx.step()
            ctx.state(kind, "custom", seq)
        ctx.trace()


def large(case, ctx):
    kind = case["kind"]
    X = data(11, D, "c13l")
    G = []
    m = mk(kind, D, 2, norm=0.5)
    for i, (f, n) in enumerate((("tanh", 300), ("rbf_l1", 120), ("tanh", 1), ("lin", 2), ("np.sin", 257), ("rbf_l1", 130), ("tanh", 700))):
        g = group(D, f, n, ("large", i))
        G.append(g)
        add(m, [g])
        check_net(ctx, m, G, X, "%s large %d" % (kind, i), tol(kind))
    L = sum(g[0] for g in G)
    for sel in (range(0, L, 7), range(L - 1, -1, -3), range(299, 1200), [0, L - 1], [700], [1000, 5, 1001, 1131, 2]):
        m = add(mk(kind, D, 2), G)
        m.nnet._prune(list(sel))
        check_kept(ctx, m, G, list(sel), X, "%s large keep %s" % (kind, sel), tol(kind))
        ctx.trace()
        ctx.state(kind, str(sel))
