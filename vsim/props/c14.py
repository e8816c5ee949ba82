"""A saved model loads back identical, or the failure is reported."""
import inspect
import io as pyio
import os
import random

import numpy as np

from vsim import common, conc, gen, io, rt

ID = "C14"


def plan_case(r, crash=False):
    if crash:
        return {"cls": io.MUT, "nth": r.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 16, 20, 25, 30, 40]), "act": r.choice([io.CRASH_BEFORE, io.CRASH_PART, io.CRASH_PART, io.CRASH_AFTER]), "frac": r.randrange(256)}
    k = r.random()
    if k < 0.55:
        return {"cls": r.choice([io.WRITE, io.WRITE, io.MUT, io.MUT, io.CLOSE, io.OPENW]), "nth": r.choice([1, 1, 2, 3, 4, 5, 7, 9, 12, 16, 20, 25]), "act": io.ERR, "err": r.choice(["ENOSPC", "EIO", "EDQUOT", "EFBIG"]), "sticky": r.random() < 0.5}
    if k < 0.7:
        return {"cls": io.WRITE, "nth": r.choice([1, 1, 2, 5, 9]), "act": io.SHORT, "frac": r.randrange(256), "sticky": r.random() < 0.5}
    if k < 0.8:
        return {"cls": io.MUT, "nth": r.choice([1, 2, 3, 5, 8]), "act": io.ERR, "err": "EINTR"}
    return {"cls": io.WRITE, "nth": r.choice([1, 2, 3, 6, 10, 15, 20]), "act": io.LOSE}


def read_plan(r):
    if r.random() < 0.6:
        err = r.choice(["EIO", "EINTR", "ENOMEM"])
        return {"cls": r.choice([io.READ, io.READ, io.OPENR]), "nth": r.choice([1, 2, 3, 4, 6, 9, 14, 20]), "act": io.ERR, "err": err, "sticky": err != "EINTR" and r.random() < 0.3}
    return {"cls": io.READ, "nth": r.choice([1, 2, 4, 8]), "act": io.SHORT, "frac": r.randrange(256), "sticky": r.random() < 0.6}


def new_case(r, i=0):
    m = gen.matrix_case(r, max_users=30, max_items=30, neg=False)
    m["users"], m["items"] = max(2, m["users"]), max(2, m["items"])
    k = common.model_case(r)
    if r.random() < 0.08:
        m[r.choice(["users", "items"])] = 1
        k["factors"] = 1
    if k["kind"] == "bpr":
        k["threads"] = 1
    c = {"m": m, "k": k, "state": r.choice(["fit", "fit", "fit", "unfit", "partial", "strided", "loaded"]), "rs": r.choice(["int", "int", "none", "npint", "rs", "gen"]),
         "extra": {"cg_steps": r.choice([1, 3, 5]), "native": r.random() < 0.8},
         "via": r.choice(["path", "path", "nosuffix", "dots", "bytes", "file", "offset"]), "old": r.random() < 0.3,
         "fault": r.choice(["none", "io", "io", "crash", "crash", "damage", "damage", "read", "inject", "conc", "fobj"]), "dseed": r.randrange(1 << 30)}
    c["plans"] = [plan_case(r, c["fault"] == "crash") for _ in range(1 if c["fault"] == "crash" else r.choice([1, 1, 2]))]
    c["rplans"] = [read_plan(r)]
    c["inj"] = conc.fault_case(r)
    c["queries"] = [common.query_case(r, k["kind"], m["users"], m["items"]) for _ in range(3)]
    c["block"] = r.choice([512, 512, 4096])
    return c


def strategy(r, case):
    s = gen.strategy(r, py=True)
    s["p_team"] = 0.0
    return s


def setup():
    conc.install_alloc_faults()


def build(case, mat):
    k = case["k"]
    rs = {"int": k.get("seed"), "npint": np.int64(k.get("seed", 0)), "none": None, "rs": np.random.RandomState(k.get("seed", 0) % 2**32), "gen": np.random.default_rng(k.get("seed", 0))}[case["rs"]]
    m = common.build(k)
    if k["kind"] in common.MF:
        m.random_state = rs
    if k["kind"] == "als":
        m.cg_steps, m.use_native = case["extra"]["cg_steps"], case["extra"]["native"]
    st = case["state"]
    if st == "unfit":
        return m
    m.fit(mat, show_progress=False)
    if st == "partial" and k["kind"] == "als":
        m.partial_fit_users([0], mat[[min(1, mat.shape[0] - 1)]])
    if st == "strided" and k["kind"] in common.MF:
        m.user_factors = np.repeat(m.user_factors, 3, axis=0)[1::3]
        m.item_factors = np.repeat(m.item_factors, 2, axis=0)[::2]
    if st == "loaded":
        b = pyio.BytesIO()
        m.save(b)
        b.seek(0)
        m = type(m).load(b)
    return m


def ctor_params(m):
    """every constructor argument the object keeps under the same name, over the class hierarchy"""
    out = []
    for c in type(m).__mro__:
        if "__init__" in c.__dict__ and c is not object:
            try:
                names = list(inspect.signature(c.__init__).parameters)[1:]
            except (TypeError, ValueError):
                continue
            out += [n for n in names if n not in out and hasattr(m, n)]
    return out


def want_params(m):
    res = {}
    for n in ctor_params(m) + [n for n in ("cg_steps",) if hasattr(m, n)]:
        v = getattr(m, n)
        if n == "random_state" and isinstance(v, (np.random.RandomState, np.random.Generator)):
            continue  # cannot be stored
        res[n] = v
    return res


class Saved:
    """what a saved model has to come back as"""

    def __init__(self, m):
        self.cls = type(m)
        self.params = want_params(m)
        self.state = common.state_of(m)

    def differs(self, x):
        if type(x) is not self.cls:
            return "class %s instead of %s" % (type(x).__name__, self.cls.__name__)
        for n, v in self.params.items():
            w = getattr(x, n, "missing")
            if not (w == v and (isinstance(w, str) == isinstance(v, str)) and (isinstance(w, bool) == isinstance(v, bool)) and not isinstance(w, np.ndarray)):
                return "%s is %r instead of %r" % (n, w, v)
        if common.state_of(x) != self.state:
            return "learned state differs"
        return None


def target(case, ctx):
    v = case["via"]
    return {"path": "model.npz", "nosuffix": "model", "dots": "model.v1.2", "file": "model.npz", "bytes": None, "offset": "model.npz"}[v] and os.path.join(
        ctx.scratch, {"path": "model.npz", "nosuffix": "model", "dots": "model.v1.2", "file": "model.npz", "offset": "model.npz"}[v])


def real_path(case, ctx):
    p = target(case, ctx)
    return p if p.endswith(".npz") else p + ".npz"


def save(case, ctx, m):
    v, p = case["via"], target(case, ctx)
    if v in ("file", "offset"):
        with open(p, "wb") as f:
            m.save(f)
    else:
        m.save(p)


def load(case, ctx, cls, alt=False):
    v, p = case["via"], target(case, ctx)
    if v == "file":
        with open(p, "rb") as f:
            return cls.load(f)
    if alt:
        p = p[:-4] if p.endswith(".npz") else p + ".npz"
    return cls.load(p)


def run(case, ctx):
    if case["via"] == "bytes":
        case = dict(case, fault=case["fault"] if case["fault"] in ("none", "damage", "conc", "fobj", "inject") else "none")
    io.config(ctx.scratch)
    kind = case["k"]["kind"]
    mat = common.data_for(kind, gen.matrix(case["m"], np.float32, min_nnz=4))
    with ctx.session(mode="serial"):
        m = build(case, mat)
    if case["state"] != "unfit" and not common.usable(m):
        ctx.probe("diverged")
        return
    new = Saved(m)
    old = None
    if case["old"] and case["via"] != "bytes":
        k2 = dict(case["k"], factors=3, iters=1, seed=5, K=4)
        o = common.build(k2)
        o.fit(mat, show_progress=False)
        save(case, ctx, o)
        old = Saved(o)
    {"none": clean, "io": failing, "crash": crash, "damage": damage, "read": reading, "inject": inject, "conc": concurrent, "fobj": fileobj}[case["fault"]](case, ctx, m, new, old, mat)
    ctx.check(Saved(m).differs(m) is None and new.differs(m) is None, "model-changed", lambda: "saving changed the model: %s" % new.differs(m))
    ctx.note(repr(new.state))


def must_equal(ctx, new, x, label):
    d = new.differs(x)
    ctx.check(d is None, "differs", lambda: "%s: loaded %s" % (label, d))


def clean(case, ctx, m, new, old, mat):
    if case["via"] == "bytes":
        b = pyio.BytesIO()
        m.save(b)
        b.seek(0)
        x = type(m).load(b)
    else:
        save(case, ctx, m)
        x = load(case, ctx, type(m))
        if case["via"] in ("path", "nosuffix", "dots"):
            must_equal(ctx, new, load(case, ctx, type(m), alt=True), "with the other form of the path")
    must_equal(ctx, new, x, "after a save that returned")
    usable(case, ctx, m, x, mat)


def usable(case, ctx, m, x, mat):
    """same answers, same retraining"""
    mat_t = mat.T.tocsr()
    if case["state"] != "unfit":
        for q in case["queries"]:
            with ctx.session(mode="serial"):
                a = common.call(m, q, mat, mat_t)
            with ctx.session():
                b = common.call(x, q, mat, mat_t)
            ctx.check(common.same_result(b, a)[0], "query-differs", lambda: "%s: loaded model %s, saved model %s" % (q["op"], common.describe(b), common.describe(a)))
    if case["rs"] in ("int", "npint") or case["k"]["kind"] in common.KNN:
        y = common.fresh_copy(m, case["k"]) if case["state"] != "unfit" else common.build(case["k"])
        for n, v in want_params(m).items():
            setattr(y, n, v)
        with ctx.session(mode="serial"):
            y.fit(mat, show_progress=False)
        with ctx.session():
            x.fit(mat, show_progress=False)
        ctx.check(common.state_of(x) == common.state_of(y), "retraining-differs", lambda: "retraining the loaded model gives another result than retraining the saved one%s" % diff(x, y))


def diff(x, y):
    if hasattr(x, "similarity"):
        return ""
    return " (users by %.3g, items by %.3g)" % (np.abs(x.user_factors - y.user_factors).max(initial=0), np.abs(x.item_factors - y.item_factors).max(initial=0))


def check_after(case, ctx, m, new, old, how, old_ok=True):
    """whatever is on disk: load raises, or gives a model that was saved"""
    try:
        x = load(case, ctx, type(m))
    except rt.Violation:
        raise
    except Exception as e:  # noqa
        ctx.probe("load_raises")
        return None
    d = new.differs(x)
    if d is not None and old is not None and old_ok and old.differs(x) is None:
        ctx.probe("load_old")
        return None
    ctx.check(d is None, "different-model", lambda: "%s: load returned a model that was never saved: %s" % (how, d))
    ctx.probe("load_saved")
    return x


def failing(case, ctx, m, new, old, mat):
    _, err, fired = io.under(ctx, case["plans"], lambda: save(case, ctx, m))
    if err is None:
        try:
            x = load(case, ctx, type(m))
        except Exception as e:  # noqa
            ctx.check(False, "save-error-lost", "save returned although %s, but loading raises %s: %s" % (", ".join(io.plan_name(p) for p in case["plans"]), type(e).__name__, str(e)[:200]))
        must_equal(ctx, new, x, "save returned although %s" % ", ".join(io.plan_name(p) for p in case["plans"]))
        ctx.probe("save_survived" if fired else "not_fired")
    else:
        if not fired:
            raise err
        ctx.probe("save_raised")
        check_after(case, ctx, m, new, old, "save raised %s" % type(err).__name__)
        # the disk works again
        save(case, ctx, m)
        must_equal(ctx, new, load(case, ctx, type(m)), "second save")


def crash(case, ctx, m, new, old, mat):
    r = random.Random(case["dseed"])
    how = io.crashing(ctx, case["plans"], lambda: save(case, ctx, m))
    if how not in ("crashed", "returned"):
        raise rt.HarnessError("save in a child process: " + how)
    if how == "returned":
        must_equal(ctx, new, load(case, ctx, type(m)), "after a save that returned")
        if r.random() < 0.5:
            ctx.probe("not_fired")
            return
        # power cut after the save: nothing was promised to be durable, but it must not be mistaken
    if r.random() < 0.6:
        io.lose_writes(ctx, r, ctx.scratch, io.under.last_log, case["block"])
    if os.path.exists(real_path(case, ctx)):
        check_after(case, ctx, m, new, old, "after a crash")
    save(case, ctx, m)
    must_equal(ctx, new, load(case, ctx, type(m)), "save after the crash")


def damage(case, ctx, m, new, old, mat):
    """the file exists only up to some byte, or blocks of it were never written"""
    r = random.Random(case["dseed"])
    b = pyio.BytesIO()
    m.save(b)
    whole = b.getvalue()
    for _ in range(12):
        d = bytearray(whole)
        if r.random() < 0.5:
            cut = r.choice([r.randrange(len(d)), len(d) - 1 - r.randrange(min(len(d), 120)), (r.randrange(len(d)) // 512) * 512])
            d = d[:cut]
            ctx.fault("io:truncated_file")
            how = "file truncated to %d of %d bytes" % (cut, len(whole))
        elif r.random() < 0.3:
            at, k = r.randrange(len(d)), r.choice([512, 512, 1024, 4096])
            k = min(k, len(d) - at)
            d[at:at + k] = b"\0" * k
            ctx.fault("io:lost_range")
            how = "%d bytes from %d never written" % (k, at)
        else:
            n = r.choice([1, 1, 2, 4])
            bl = case["block"]
            lost = sorted({r.randrange((len(d) + bl - 1) // bl) for _ in range(n)})
            if r.random() < 0.3:
                lost = list(range(min(lost), (len(d) + bl - 1) // bl))
            for i in lost:
                k = min(bl, len(d) - i * bl)
                d[i * bl:i * bl + k] = b"\0" * k
            ctx.fault("io:lost_block", len(lost))
            how = "blocks %s of %d bytes never written" % (lost[:5], bl)
        if case["via"] == "bytes":
            try:
                x = type(m).load(pyio.BytesIO(bytes(d)))
            except Exception:  # noqa
                ctx.probe("load_raises")
                continue
            df = new.differs(x)
            ctx.check(df is None, "different-model", lambda: "%s: load returned a model that was never saved: %s" % (how, df))
        else:
            with open(real_path(case, ctx), "wb") as f:
                f.write(d)
            check_after(case, ctx, m, new, None, how)


def reading(case, ctx, m, new, old, mat):
    save(case, ctx, m)
    for _ in range(2):
        x, err, fired = io.under(ctx, case["rplans"], lambda: load(case, ctx, type(m)))
        if err is not None:
            if not fired:
                raise err
            ctx.probe("load_raises")
        else:
            must_equal(ctx, new, x, "load under %s" % io.plan_name(case["rplans"][0]))
    x = load(case, ctx, type(m))
    must_equal(ctx, new, x, "after a failed load")
    usable(case, ctx, m, x, mat)


def inject(case, ctx, m, new, old, mat):
    f = case["inj"]
    b = pyio.BytesIO()

    def go():
        if case["via"] == "bytes":
            m.save(b)
        else:
            save(case, ctx, m)

    with ctx.session(py=True):
        res, err, fired = conc.faulty(ctx, f, go)
    if err is not None and not fired:
        raise err
    if case["via"] == "bytes":
        if err is None:
            b.seek(0)
            must_equal(ctx, new, type(m).load(b), "after a save that returned")
        return
    if err is None:
        must_equal(ctx, new, load(case, ctx, type(m)), "after a save that returned")
    elif os.path.exists(real_path(case, ctx)):
        check_after(case, ctx, m, new, old, "save interrupted")
    ctx.check(new.differs(m) is None, "model-changed", lambda: "an interrupted save changed the model: %s" % new.differs(m))
    save(case, ctx, m)
    x = load(case, ctx, type(m))
    must_equal(ctx, new, x, "second save")
    with ctx.session(py=True):
        y, err, fired = conc.faulty(ctx, f, lambda: load(case, ctx, type(m)))
    if err is not None and not fired:
        raise err
    if err is None:
        must_equal(ctx, new, y, "load with an allocation failure or interrupt that was survived")


class BadFile(pyio.BytesIO):
    """a file object whose n-th write fails"""

    def __init__(self, at, exc):
        super().__init__()
        self.at, self.exc, self.n = at, exc, 0

    def write(self, d):
        self.n += 1
        if self.n == self.at:
            raise self.exc
        return super().write(d)


def fileobj(case, ctx, m, new, old, mat):
    r = random.Random(case["dseed"])
    at = r.choice([1, 2, 3, 5, 8, 13, 20, 30])
    b = BadFile(at, OSError(28, "injected"))
    try:
        m.save(b)
        err = None
    except OSError as e:
        err = e
    hit = b.n >= at
    ctx.fault("io:file_object_write_error", int(hit))
    if err is None:
        b.seek(0)
        try:
            x = type(m).load(b)
        except Exception as e:  # noqa
            ctx.check(False, "save-error-lost", "save to a file object returned%s, but loading raises %s" % (" although a write failed" if hit else "", type(e).__name__))
        must_equal(ctx, new, x, "file object")
        usable(case, ctx, m, x, mat)
    else:
        ctx.check(hit, "unexpected", "save to a working file object raised")
        g = BadFile(0, None)
        m.save(g)
        g.seek(0)
        must_equal(ctx, new, type(m).load(g), "second save to a file object")


def concurrent(case, ctx, m, new, old, mat):
    """several threads save and load the model and query it at the same time"""
    r = random.Random(case["dseed"])
    mat_t = mat.T.tocsr()

    def saver(j):
        def f():
            p = os.path.join(ctx.scratch, "c%d.npz" % j)
            m.save(p)
            return type(m).load(p)
        return f

    def asker(q):
        return lambda: common.call(m, q, mat, mat_t)

    fns = [saver(0), saver(1)]
    qs = []
    if case["state"] != "unfit":
        qs = [q for q in case["queries"] if r.random() < 0.7]
        fns += [asker(q) for q in qs]
    alone = [common.call(common.fresh_copy(m, case["k"]), q, mat, mat_t) if q["op"] in ("recommend", "similar_items", "similar_users") and not q.get("recalc") else None for q in qs]
    res = ctx.par(fns)
    for x, e in res:
        if e is not None:
            raise e
    for x, _ in res[:2]:
        must_equal(ctx, new, x, "saved while used by other threads")
    for (x, _), a in zip(res[2:], alone):
        if a is not None:
            ctx.check(common.same_result(x, a)[0], "query-differs", "a query during a save gives another result")
