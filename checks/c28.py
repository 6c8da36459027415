"""C28: an error at every access of every process of an asynchronous method, in every interleaving, and with real processes."""
import gc
import multiprocessing
import signal
import threading

from mc.lib import *
from mc import sim

ID = "C28"
LEVEL = "fault_enumeration"
RULE = ("case 'sim' = (method, rows, batch, process, fault): the fault is raised at the k-th file access or matrix product of the main "
        "process, a reader or the writer, for every k, in every reachable state of main process, helpers and queue feeders (the real hpelm "
        "code on simulated multiprocessing); case 'real' = the same faults with real processes, with and without slow processes; case "
        "'damaged' = HDF5 files with every single chunk damaged: the method raises (or returns with the complete result), nothing waits "
        "forever, no helper is left, the call can be repeated")
ASSUMPTIONS = ["closing a file does not fail", "errors while a part is merged into the matrix files are out of scope", "a helper process is not killed from outside: a caller waits for a killed helper",
               "queue transport: unbounded pipe for small objects, one object for large ones"]
D, C, NORM = 2, 2, 0.5


def TIMEOUT(case):
    return 1500 if case.get("deep") else 300


METHODS = ("train_async", "add_data_async", "files", "predict_async")
WHO = {"train_async": ("main", "child0", "child1"), "add_data_async": ("main", "child0", "child1"),
       "files": ("main", "child0", "child1"), "predict_async": ("main", "child0", "child1")}


def cases(tier):
    deep = tier == "thorough"
    for m in METHODS:
        for j, (N, b) in enumerate(((5, 2), (4, 4), (3, 1)) if not deep else ((5, 2), (4, 4), (3, 1), (6, 1), (1, 5), (9, 2))):
            for i, who in enumerate(WHO[m]):
                for kind in ("io", "memory", "type") if deep else (("io", "memory", "type")[(i + j) % 3],):
                    for slow in (None, "main", "child0", "child1") if deep else ((None, "main", "child0", "child1")[(i + j) % 4],):
                        yield {"k": "real", "m": m, "N": N, "b": b, "who": who, "kind": kind, "slow": slow, "deep": deep}
    for m in METHODS:
        for f in ("x", "t") if m != "predict_async" else ("x",):
            for b in (3, 5, 20) if not deep else (1, 2, 3, 4, 5, 7, 20):
                yield {"k": "damaged", "m": m, "f": f, "b": b}
    if deep:
        for m in METHODS:
            for N, b in ((1, 1), (2, 2), (2, 1), (3, 2), (4, 2)) + (((5, 2), (6, 2), (3, 1)) if m == "predict_async" else ()):
                for who in WHO[m]:
                    for large in (False, True):
                        for part in range(6):
                            yield {"k": "sim", "m": m, "N": N, "b": b, "who": who, "kind": ("io", "memory")[part % 2], "large": large,
                                   "part": part, "of": 6, "deep": True}
    else:
        for m, N, b, large in (("train_async", 2, 2, False), ("predict_async", 3, 2, True), ("predict_async", 4, 2, False)):
            for who in WHO[m]:
                if N < 4 or who == "child1":
                    for part in range(5):
                        yield {"k": "sim", "m": m, "N": N, "b": b, "who": who, "kind": ("io", "memory")[part % 2], "large": large, "part": part,
                               "of": 5}


class Injected(IOError):
    pass


class Odd(Exception):
    """An exception that pickle cannot rebuild."""

    def __init__(self, a, b):
        Exception.__init__(self, "%s%s" % (a, b))


def error(kind):
    return {"io": Injected("injected"), "memory": MemoryError("injected"), "type": Odd("injected", 1)}[kind]


class Faults(object):
    """Counts accesses of the chosen process and raises at one of them."""

    def __init__(self, mine, at, kind, fired):
        self.mine, self.at, self.kind, self.fired = mine, at, kind, fired
        self.n, self.inside, self.saved = 0, 0, []
        self.on = True

    def wrap(self, owner, attr):
        real = getattr(owner, attr)
        self.saved.append((owner, attr, real, attr in vars(owner)))

        def hooked(*a, **k):
            if self.on and not self.inside and self.mine():
                self.n += 1
                if self.n - 1 == self.at:
                    self.fired()
                    raise error(self.kind)
            self.inside += 1
            try:
                return real(*a, **k)
            finally:
                self.inside -= 1
        setattr(owner, attr, hooked)

    def __enter__(self):
        self.wrap(tables.File, "__init__")
        for o, a in ((tables.File, "create_carray"), (tables.File, "create_earray"), (tables.File, "flush"), (tables.Array, "__getitem__"),
                     (tables.Array, "__setitem__"), (tables.Array, "read"), (tables.Leaf, "flush"), (np, "dot")):
            self.wrap(o, a)
        return self

    def __exit__(self, *a):
        for o, n, v, own in reversed(self.saved):
            if own:
                setattr(o, n, v)
            else:
                delattr(o, n)


class World(object):
    def __init__(self, N):
        self.N = N
        self.G = spec_mix(D, "tanh:2,lin:1")
        self.X, self.T = data(N, D, "c28"), targets(N, C, "r", "c28")
        self.H = h_ref(self.X, self.G)
        self.fx, self.ft = os.path.abspath(h5put("x.h5", self.X)), os.path.abspath(h5put("t.h5", self.T))
        m = add(mk("hp", D, C, norm=NORM), self.G)
        m.train(data(12, D, "c28t"), targets(12, C, "r", "c28t"))
        self.blob, self.B = m.dumps(), np.array(m.nnet.get_B())

    def model(self, batch):
        m = mk("hp", D, C, norm=NORM, batch=batch)
        m.loads(self.blob)
        return m

    def call(self, m, method, fx=None, ft=None):
        fx, ft = fx or self.fx, ft or self.ft
        if method == "predict_async":
            m.predict_async(fx, "y.h5")
        elif method == "train_async":
            m.train_async(fx, ft)
        elif method == "files":
            m.add_data_async(fx, ft, fHH="HH.h5", fHT="HT.h5")
        else:
            m.add_data_async(fx, ft)

    def result(self, m, method):
        if method == "predict_async":
            return {"Y": h5get("y.h5")}
        if method == "train_async":
            return {"B": np.array(m.nnet.get_B())}
        if method == "files":
            return {"fHH": h5get("HH.h5"), "fHT": h5get("HT.h5")}
        HH, HT = m.nnet.get_corr()
        return {"HH": np.array(HH), "HT": np.array(HT)}

    def expect(self, method):
        if method == "predict_async":
            return {"Y": self.H.dot(self.B)}
        if method == "train_async":
            return {"B": ridge(self.H, self.T, NORM)}
        HH, HT = corr(self.H, self.T, NORM)
        return {"fHH": HH, "fHT": HT} if method == "files" else {"HH": HH, "HT": HT}

    def untouched(self):
        """The matrix files, if they exist, hold no part yet."""
        try:
            return all(not os.path.exists(f) or close_to(h5get(f), A)
                       for f, A in (("HH.h5", NORM * np.eye(3)), ("HT.h5", np.zeros((3, C)))))
        except Exception:
            return True         # an unreadable file: adding the part has to cope with it

    def same(self, ctx, got, method, what, sub=None):
        want = self.expect(method)
        ctx.step()
        return all([ctx.close(got[k], want[k], what + ": " + k, 1e-8, sub) for k in want])


def close_to(A, B):
    return A.shape == B.shape and np.allclose(A, B)


def clean():
    for f in ("y.h5", "HH.h5", "HT.h5", "HH.h5.lock", "HT.h5.lock", "HH.h5.part", "HT.h5.part", "fired"):
        if os.path.exists(f):
            os.remove(f)


def close_all():
    tables.file._open_files.close_all()


def run(case, ctx):
    {"sim": simulate, "real": real, "damaged": damaged}[case["k"]](case, ctx)


def simulate(case, ctx):
    w = World(case["N"])
    method = case["m"]
    state = {}

    def mine():
        s = state.get("sim")
        a = getattr(threading.current_thread(), "_actor_name", None)
        return a == case["who"]

    def fn():
        threading.current_thread()._actor_name = "main"
        close_all()
        clean()
        m = w.model(case["b"])
        state["fired"] = False
        f = state["faults"]
        f.n, f.inside, f.on = 0, 0, True
        try:
            try:
                w.call(m, method)
            finally:
                f.on = False
        except sim.Abort:
            raise
        except Exception as e:
            return ("raised", "%s: %s" % (type(e).__name__, e))
        f.on = False
        close_all()
        return ("returned", w.result(m, method))

    body = sim.Actor._body

    def named(self):
        threading.current_thread()._actor_name = self.name
        body(self)
    sim.Actor._body = named
    gc.disable()
    try:
        for k in range(case["part"], 100, case["of"]):
            what = "%s N=%d batch=%d, %s at access %d of %s" % (method, case["N"], case["b"], case["kind"], k, case["who"])
            with Faults(mine, k, case["kind"], lambda: state.update(fired=True)) as f:
                state["faults"] = f

                def check(status, payload, trace):
                    ctx.trace()
                    path = {"at": k, "schedule": [list(t[1]) for t in trace]}
                    if status == "ok":
                        if payload[0] == "returned":
                            on, f.on = f.on, False
                            r = w.same(ctx, payload[1], method, what + ": returned with a wrong result", path)
                            return r
                        return ctx.ok(state["fired"], what + ": failed without a fault: %s" % payload[1], path)
                    ctx.fail("%s: %s: %s | %s" % (what, status, payload, ", ".join(t[3] for t in trace[-14:])), path)
                    return False
                sim.execute(fn, [], case["large"], failing=True)
                if not state["fired"]:
                    f.on = False
                    break
                execs, seen = sim.explore(fn, check, case["large"], failing=True)
                f.on = False
            ctx.count("executions", execs)
            ctx.step(execs)
            for s in seen:
                ctx.states.add(int.from_bytes(s[:8], "big") ^ hash((method, case["N"], case["b"], k, case["who"])))
            ctx.count("faults")
        else:
            ctx.fail("%s: no end of faults" % what)
    except sim.Unsupported:
        ctx.count("not simulated")
    finally:
        gc.enable()
        sim.Actor._body = body
        close_all()


class Late(BaseException):
    pass


class alarm(object):
    """A call that does not end in time."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def late(*a):
            raise Late()
        self.old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def helpers():
    return multiprocessing.active_children()


def attempt(ctx, w, m, method, what, may_fail, **files):
    """One call with real processes; returns 'raised', 'returned' or None (violation)."""
    try:
        with alarm(30):
            try:
                w.call(m, method, **files)
                how = "returned"
            except Late:
                raise
            except BaseException as e:
                how = "raised"
                if not may_fail:
                    ctx.fail("%s: %s: %s" % (what, type(e).__name__, e))
    except Late:
        ctx.fail(what + ": still waiting after 30 seconds")
        how = None
    left = helpers()
    if how:
        ctx.ok(not left, what + ": helper processes left: %s" % left)
    for p in left:
        p.terminate()
        p.join()
    ctx.trace()
    return how


def real(case, ctx):
    import time
    w = World(case["N"])
    method, me = case["m"], os.getpid()
    # helpers are told apart by the order in which they start
    starts = []
    start = multiprocessing.Process.start

    def started(self, *a, **k):
        starts.append(1)
        return start(self, *a, **k)

    def role():
        return "main" if os.getpid() == me else "child%d" % (len(starts) - 1)
    nap = []
    real_get = tables.Array.__getitem__

    def napping():
        if case["slow"] and role() == case["slow"]:
            time.sleep(0.01)
        return role() == case["who"]

    multiprocessing.Process.start = started
    try:
        for k in range(100):
            what = "%s N=%d batch=%d, %s at access %d of %s, slow %s" % (
                method, case["N"], case["b"], case["kind"], k, case["who"], case["slow"])
            clean()
            m = w.model(case["b"])

            def fired():
                open("fired", "w").close()
            with Faults(napping, k, case["kind"], fired) as f:
                del starts[:]
                how = attempt(ctx, w, m, method, what, True)
                f.on = False
            hit = os.path.exists("fired")
            if how is None:
                return
            if how == "returned":
                w.same(ctx, w.result(m, method), method, what + ": returned with a wrong result")
            else:
                ctx.ok(hit, what + ": failed without a fault")
                if method == "predict_async":
                    ctx.close(m.predict(w.X), w.H.dot(w.B), what + ": model changed", 1e-8)
                if method == "add_data_async":
                    m.nnet.reset()
                if method == "files" and not w.untouched():
                    ctx.count("merge begun")        # the part may be in one of the files already
                elif attempt(ctx, w, m, method, what + ", repeated", False) == "returned":
                    w.same(ctx, w.result(m, method), method, what + ", repeated")
            ctx.count("real runs")
            ctx.state(method, case["N"], case["b"], k, case["who"], case["slow"])
            if not hit:
                break
        else:
            ctx.fail("%s: no end of faults" % what)
    finally:
        multiprocessing.Process.start = start


def h5chunked(fname, A, rows):
    with tables.open_file(fname, "w") as h:
        c = h.create_carray(h.root, "data", tables.Float64Atom(), A.shape, chunkshape=(rows, A.shape[1]), filters=tables.Filters(fletcher32=True))
        c[:] = A


def damaged(case, ctx):
    """One chunk of the file does not match its checksum."""
    N, rows = 12, 4
    w = World(N)
    A = w.X if case["f"] == "x" else w.T
    h5chunked("good.h5", A, rows)
    blob = open("good.h5", "rb").read()
    for c in range(N // rows):
        raw = np.ascontiguousarray(A[c * rows:(c + 1) * rows]).tobytes()
        at = blob.find(raw)
        if at < 0:
            ctx.fail("harness: chunk not found")
            return
        bad = bytearray(blob)
        bad[at + 9] ^= 0x55
        open("bad.h5", "wb").write(bytes(bad))
        what = "%s batch=%d, chunk %d of %s is damaged" % (case["m"], case["b"], c, case["f"])
        clean()
        m = w.model(case["b"])
        how = attempt(ctx, w, m, case["m"], what, True, **{"f" + case["f"]: os.path.abspath("bad.h5")})
        if how is None:
            return
        ctx.ok(how == "raised", what + ": reported as success")
        if case["m"] == "add_data_async":
            m.nnet.reset()
        if attempt(ctx, w, m, case["m"], what + ", repeated with a good file", False) == "returned":
            w.same(ctx, w.result(m, case["m"]), case["m"], what + ", repeated with a good file")
        ctx.state(case["m"], case["b"], c, case["f"])
