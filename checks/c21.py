"""C21: faults at every data access and processing step of add_data to matrix files, with a second worker anywhere."""
import shutil

from mc.lib import *
from mc import procs

ID = "C21"
LEVEL = "fault_enumeration"
RULE = ("case = (matrix files absent/existing/made by an earlier part of the same model, solver, classification, batch size, fault): the fault "
        "(SIGKILL, read error, KeyboardInterrupt, MemoryError) hits a real worker process at every step of the creation of the matrix files, every access of the data files and every matrix "
        "product while a second worker has not started, or stands at any of its own steps; then the second worker ends, the part is added "
        "again (by the same model after an exception, by a new process after a kill), compared with norm*I plus all parts; case 'chunk' = "
        "damaged chunks of a compressed file; case 'twice' = all pairs of fault points in a row")
ASSUMPTIONS = ["faults while a part is merged into the matrix files are out of scope", "exceptions do not hit the locks themselves or the closing of files", "processing steps are calls of np.dot"]
TIMEOUT = 600
D, C, NORM = 2, 2, 0.5
N = 8
PART1, PART2 = (1, 4), (5, 3)
FAULTS = {"kill": None, "read error": b"x", "interrupt": b"i", "memory": b"m"}


def cases(tier):
    deep = tier == "thorough"
    base = {"files": "absent", "kind": "hp", "cl": "", "batch": 2}
    for files in ("absent", "exist", "own", "HH", "HT"):
        for f in FAULTS:
            for v in ({}, {"kind": "hp:b"}, {"cl": "wc"}, {"batch": 100}, {"batch": 1}, {"cl": "c", "kind": "hp:32"}):
                if not deep and (v and (files in ("HH", "HT") or f == "memory") or files in ("HH", "HT") and f == "memory"):
                    continue
                yield dict(base, k="fault", files=files, fault=f, second="start", **v)
    for files in ("absent", "exist", "own", "HH", "HT"):
        for f in ("kill", "read error") + (("interrupt",) if deep else ()):
            for v in ({}, {"cl": "wc"}, {"kind": "hp:b"}) if deep else ({},):
                if files in ("absent", "exist") or deep:
                    for part in range(4):
                        yield dict(base, k="fault", files=files, fault=f, second="any", part=part, deep=deep, **v)
    for files in ("absent", "exist"):
        for f in ("kill", "read error", "interrupt"):
            yield dict(base, k="twice", files=files, fault=f)
        yield dict(base, k="chunk", files=files)


class Setup(object):
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.kind, self.cl, self.batch = case["kind"], case["cl"], case["batch"]
        self.w = [1, 3] if self.cl == "wc" else None
        self.G = spec_mix(D, "tanh:2,lin:1")
        self.X, self.T = data(N, D, "c21"), targets(N, C, self.cl or "r", "c21")
        self.base = os.getcwd()
        self.fx, self.ft = os.path.abspath(h5put("x.h5", self.X)), os.path.abspath(h5put("t.h5", self.T))
        self.pre = (np.arange(9.0).reshape(3, 3) + np.arange(9.0).reshape(3, 3).T, np.arange(6.0).reshape(3, 2))
        h5put("HH0.h5", self.pre[0] + NORM * np.eye(3), prec(self.kind))
        h5put("HT0.h5", self.pre[1], prec(self.kind))
        self.tol = 1e-5 if self.kind.endswith("32") else 1e-9
        self.H = h_ref(self.X, self.G)
        self.P = data(3, D, "c21p")

    def model(self):
        m = mk(self.kind, D, C, self.cl, *(), norm=NORM, batch=self.batch, w=self.w)
        return add(m, self.G)

    def expect(self, *parts):
        HH, HT = NORM * np.eye(3), np.zeros((3, C))
        f = self.case["files"]
        if f in ("exist", "HH"):
            HH = HH + self.pre[0]
        if f in ("exist", "HT"):
            HT = HT + self.pre[1]
        if f == "own":
            parts = ((0, 1),) + parts
        for i, n in parts:
            H, T = self.H[i:i + n], self.T[i:i + n]
            w = np.ones(n) if self.w is None else np.array(self.w, float)[T.argmax(1)]
            HH, HT = HH + (H * w[:, None]).T.dot(H), HT + (H * w[:, None]).T.dot(T)
        return HH, HT

    def fresh(self):
        """A new run directory with the initial files; returns the model of the first worker."""
        d = os.path.join(self.base, "run")
        os.chdir(self.base)
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        os.chdir(d)
        f = self.case["files"]
        if f in ("exist", "HH"):
            shutil.copy("../HH0.h5", "HH.h5")
        if f in ("exist", "HT"):
            shutil.copy("../HT0.h5", "HT.h5")
        m = self.model()
        if f == "own":      # an earlier part, and the model is trained
            m.add_data(self.fx, self.ft, istart=0, icount=1, fHH="HH.h5", fHT="HT.h5")
            m.nnet.set_B(np.arange(6.0).reshape(3, 2))
        return m

    def body(self, m, part, retry):
        """One part; after an exception it stops at a point 'caught' and then tries again with the same model."""
        def fn():
            for attempt in range(5):
                before = m.predict(self.P).tobytes() if m.nnet.get_B() is not None else None
                os.path.exists("begin")
                try:
                    m.add_data(self.fx, self.ft, istart=part[0], icount=part[1], fHH="HH.h5", fHT="HT.h5")
                    return
                except (Exception, KeyboardInterrupt):
                    if not retry:
                        raise
                left = [f for f in held_open() if not f.endswith(".lock")]
                if left:
                    raise AssertionError("files held open after the fault: %s" % left)
                if before is not None and (m.nnet.get_B() is None or m.predict(self.P).tobytes() != before):
                    raise AssertionError("the model has changed in the failed call")
                os.path.exists("caught")
        return fn

    def worker(self, m, part, retry=False):
        return procs.Worker(self.body(m, part, retry), extra_hooks=[(np, "dot", "dot")])

    def check_files(self, what, parts, fresh_ok=False):
        """Files hold exactly these parts; files may be absent if nothing was added."""
        HH0, HT0 = self.expect(*parts)
        for f, ref in (("HH.h5", HH0), ("HT.h5", HT0)):
            if fresh_ok and not os.path.exists(f) and not os.path.exists("../" + f[:2] + "0.h5.used"):
                continue
            try:
                A = h5get(f)
            except Exception as e:
                self.ctx.fail("%s: %s unreadable: %r" % (what, f, e))
                return False
            if not relclose(A, ref, self.tol):
                self.ctx.fail("%s: %s holds %s, expected %s" % (what, f, np.round(A, 3).tolist(), np.round(ref, 3).tolist()))
                return False
        return True


def points(log, kill=False):
    """Indices of the steps at which the matrix files are created or the data is read or processed: up to the last access
    of a data file and the products that follow it before anything else is touched."""
    res = []
    begin = [i for i, l in enumerate(log) if l.endswith("begin")][0]
    last = max(i for i, l in enumerate(log) if l.split()[-1] in ("x.h5", "t.h5") and l.split()[0] == "get")
    first = min(i for i, l in enumerate(log) if l.split()[-1] in ("x.h5", "t.h5") and l.split()[0] == "get")
    for i, l in enumerate(log):
        touches = accesses(l) or i < first and (kill or l.split()[0] in ("open-w", "open-r", "open-a", "set", "get", "flush", "rename", "replace"))
        if i > begin and touches and (i <= last or all(x.split()[0] == "dot" for x in log[last + 1:i + 1])):
            res.append(i)
    return res


def accesses(label):
    return label.split()[0] == "dot" or label.split()[-1] in ("x.h5", "t.h5") and not label.startswith("close")


def advance(w, n):
    """Lets the worker do n steps; stops early if it has to wait."""
    for k in range(n):
        if w.status != "run":
            return False
        w.step()
    return w.status == "run"


def finish(w, ctx, what, until=None):
    """Runs a worker to its end (or to a label); it must never wait for anybody."""
    for k in range(3000):
        if w.status == "done":
            return True
        if w.status == "run":
            if until and w.label.endswith(until):
                return True
            w.step()
        elif w.status == "blocked":     # one more attempt is fine: the other one may just have let go
            w.step()
            if w.status == "blocked" or w.label.startswith("lock"):
                w.step()
                if w.status == "blocked":
                    ctx.fail("%s: waits for %s" % (what, w.label))
                    return False
        else:
            ctx.fail("%s: %s" % (what, w.error))
            return False
    ctx.fail("%s: no end" % what)
    return False


def run(case, ctx):
    {"fault": fault, "twice": twice, "chunk": chunk}[case["k"]](case, ctx)
    os.chdir(os.path.dirname(os.getcwd()) if os.getcwd().endswith("/run") else os.getcwd())


def dry(S, part):
    m = S.fresh()
    w = S.worker(m, part)
    finish(w, S.ctx, "undisturbed")
    log = list(w.log)
    w.end()
    return log


def fault(case, ctx):
    S = Setup(case, ctx)
    log1, log2 = dry(S, PART1), None
    if len(ctx.violations) or not S.check_files("undisturbed", [PART1]):
        return
    log2 = dry(S, PART2)
    how = FAULTS[case["fault"]]
    F = points(log1, how is None)
    ctx.count("fault points", len(F) if case["second"] == "start" else 0)
    Q = [0] if case["second"] == "start" else list(range(1, len(log2) + 4))
    pairs = [(p, q) for p in F for j, q in enumerate(Q) if accesses(log1[p]) or case.get("deep") or j % 8 == p % 8 or Q == [0]]
    if "part" in case:
        pairs = pairs[case["part"]::4]
    for p, q in pairs:
        m = S.fresh()
        ws = [S.worker(m, PART1, True)]
        what = "%s (%s, %s, batch %d, files %s) at %d:%s" % (case["fault"], S.kind, S.cl or "r", S.batch, case["files"], p, log1[p])
        try:
            if not advance(ws[0], p):
                ctx.fail("%s: the run before the fault is not repeatable (%s)" % (what, ws[0].error or ws[0].label))
                return
            if q:
                what += ", second worker at %d" % q
                ws.append(S.worker(S.model(), PART2))
                advance(ws[1], q)
                if ws[1].status in ("error", "dead"):
                    ctx.fail("%s: %s" % (what, ws[1].error))
                    return
            # the fault
            if how is None:
                ws[0].kill()
            else:
                ws[0].step(how)
                if not finish(ws[0], ctx, what, until="caught"):
                    return
                if ws[0].status == "done":
                    ctx.fail("%s: the error was swallowed" % what)
                    return
            if not q:
                if not S.check_files(what + ": files", [], fresh_ok=case["files"] in ("absent", "HH", "HT")):
                    return
                ws.append(S.worker(S.model(), PART2))
            if not finish(ws[1], ctx, what + ": second worker"):
                return
            if not S.check_files(what + ": files after the second worker", [PART2]):
                return
            if how is None:
                ws[0].status = "ended"
                ws[0] = S.worker(S.model(), PART1)
            if not finish(ws[0], ctx, what + ": part again"):
                return
            if not S.check_files(what + ": files after the part was added again", [PART2, PART1]):
                return
            ctx.step(4)
            ctx.state(case["files"], case["fault"], S.kind, S.cl, S.batch, p, q)
            ctx.trace()
        finally:
            for w in ws:
                w.end()


def twice(case, ctx):
    """The part fails at p, is tried again and fails at q, then succeeds and the model is solved."""
    S = Setup(case, ctx)
    log1 = dry(S, PART1)
    how = FAULTS[case["fault"]]
    F = [p for p in points(log1) if accesses(log1[p])]
    for p in F:
        for k in range(len(F)):
            m = S.fresh()
            w = S.worker(m, PART1, True)
            what = "%s (files %s) at %d:%s and the %d. point" % (case["fault"], case["files"], p, log1[p], k)
            try:
                advance(w, p)
                if how is None:
                    w.kill()
                    w.status = "ended"
                    w = S.worker(S.model(), PART1, True)
                else:
                    w.step(how)
                    if not finish(w, ctx, what, until="caught"):
                        return
                    w.step()
                # the k-th data access or product of the second attempt
                seen = 0
                while w.status == "run" and not w.label.endswith("begin"):
                    w.step()
                while w.status == "run":
                    if accesses(w.label):
                        if seen == k:
                            break
                        seen += 1
                    w.step()
                if not w.alive:
                    ctx.fail("%s: %s" % (what, w.error))
                    return
                if how is None:
                    w.kill()
                    w.status = "ended"
                    w = S.worker(S.model(), PART1, True)
                else:
                    w.step(how)
                    if not finish(w, ctx, what, until="caught"):
                        return
                if not S.check_files(what, [], fresh_ok=case["files"] == "absent") or not finish(w, ctx, what):
                    return
            finally:
                w.end()
            if not S.check_files(what + ": at the end", [PART1]):
                return
            m = S.model()
            m.solve_corr("HH.h5", "HT.h5")
            HH, HT = S.expect(PART1)
            ctx.close(m.nnet.get_B(), np.linalg.solve(HH, HT), what + ": solution", S.tol * 1e3)
            ctx.step(3)
            ctx.state("twice", case["files"], case["fault"], p, k)
            ctx.trace()


def chunk(case, ctx):
    """Compressed data files with one damaged chunk: the part fails where it is read, other parts are fine."""
    S = Setup(case, ctx)
    for which in ("x", "t"):
        for bad in range(4):
            S.fresh()
            A = S.X if which == "x" else S.T
            f = os.path.abspath("bad.h5")
            with tables.open_file(f, "w") as h:
                n = h.create_carray(h.root, "data", tables.Float64Atom(), A.shape, chunkshape=(2, 2), filters=tables.Filters(fletcher32=True))
                n[:] = A
            raw = bytearray(open(f, "rb").read())
            pos = raw.find(np.ascontiguousarray(A[2 * bad:2 * bad + 2]).tobytes())
            if pos < 0:
                ctx.fail("harness: chunk %d not found" % bad)
                return
            raw[pos] ^= 255
            open(f, "wb").write(raw)
            fx, ft = (f, S.ft) if which == "x" else (S.fx, f)
            for batch in (1, 2, 3, 100):
                for g in ("HH.h5", "HT.h5"):
                    if os.path.exists(g):
                        os.remove(g)
                    if case["files"] == "exist":
                        shutil.copy("../" + g.replace(".h5", "0.h5"), g)
                S.batch = batch
                m = S.model()
                done = []
                for part in ((0, 2), (2, 2), (4, 2), (6, 2), (0, 8), (3, 3)):
                    what = "damaged chunk %d of %s, batch %d, rows %s" % (bad, which, batch, part)
                    touched = part[0] < 2 * bad + 2 and part[0] + part[1] > 2 * bad
                    e = None
                    try:
                        m.add_data(fx, ft, istart=part[0], icount=part[1], fHH="HH.h5", fHT="HT.h5")
                    except Exception as err:
                        e = err
                    if touched:
                        ctx.ok(e is not None, what + ": no error")
                    else:
                        ctx.ok(e is None, what + ": failed: %r" % e)
                        done.append(part)
                    left = [f for f in held_open() if not f.endswith(".lock")]
                    ctx.ok(not left, "%s: files held open: %s" % (what, left))
                    if len(ctx.violations) or not S.check_files(what, done, fresh_ok=case["files"] == "absent"):
                        return
                    ctx.step()
                    ctx.state("chunk", case["files"], which, bad, batch, part)
                ctx.trace()
