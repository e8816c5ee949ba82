"""Errors of worker threads reach the caller; the process stays usable."""
import sys

import numpy as np
import scipy.sparse as sp

from implicit.recommender_base import ModelFitError
from vsim import common, gen, rt

ID = "C02"
KINDS = ["unsolvable", "unsolvable", "recalculate", "partial", "filter", "liked_range", "progress", "progress", "nan_cg", "nan_bpr", "nan_lmf", "nan_row", "nan_row"]


def new_case(r, i=0):
    k = r.choice(KINDS)
    c = {"what": k, "m": gen.matrix_case(r, neg=False), "seed": r.randrange(1 << 30), "threads": r.choice([0, 0, 2, 3, 8]),
         "n_bad": r.choice([1, 1, 1, 2, 3, 8]), "bad": r.choice(["nan", "inf", "nan"]), "f32": r.random() < 0.6,
         "factors": r.choice([2, 3, 4, 8]), "iters": r.choice([1, 2, 3]), "badseed": r.randrange(1 << 30)}
    c["m"]["users"] = max(c["m"]["users"], 5)
    c["m"]["items"] = max(c["m"]["items"], 5)
    if k == "unsolvable":
        c["nan"] = r.random() < 0.3
    if k in ("filter", "liked_range"):
        c["rows"] = r.choice([90, 150, 201, 230, 305, 420])
        c["op"] = r.choice(["recommend", "recommend", "similar_items", "similar_users"]) if k == "filter" else "recommend"
    if k == "nan_row":
        c["kind"] = r.choice(["als", "bpr", "bpr", "lmf", "lmf"])
        c["side"] = r.choice(["user", "item"])
        c["iters"] = r.choice([0, 1, 1, 2])
    if k == "progress":
        c["model"] = common.model_case(r, ("als", "bpr", "lmf") + common.KNN * 2)
        c["at"] = r.choice([1, 2, 3, 5, 8, 13, 20, 40])
        c["exc"] = r.choice(["OSError", "BrokenPipeError", "ValueError"])
        c["burst"] = r.choice([1, 1, 2, 1 << 30])
    return c


def strategy(r, case):
    s = gen.strategy(r)
    if s["mode"] == "serial" and r.random() < 0.7:
        s.update(mode="random", p_sync=0.5, p_mem=1e-3)
    return s


class Sink:
    """an output stream that starts failing"""

    def __init__(self, at, exc, burst):
        self.at, self.exc, self.burst, self.n, self.fired = at, exc, burst, 0, 0
        self.encoding = "utf-8"

    def write(self, s):
        self.n += 1
        if self.n >= self.at and self.fired < self.burst:
            self.fired += 1
            raise {"OSError": OSError(28, "No space left on device"), "BrokenPipeError": BrokenPipeError(32, "Broken pipe"),
                   "ValueError": ValueError("stream is broken")}[self.exc]
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def als(case, **kw):
    c = {"kind": "als", "factors": case["factors"], "reg": 0.5, "iters": case["iters"], "threads": case["threads"],
         "seed": case["seed"], "f32": case["f32"], "alpha": 1.0, "cg": False, "loss": False}
    c.update(kw)
    return common.build(c)


def good(case, ctx):
    """a healthy training and query; must give the same before and after"""
    mat = gen.matrix(dict(case["m"], mseed=77), np.float32)
    with ctx.session():
        m = als(case, cg=True).__class__(factors=3, iterations=1, random_state=5, num_threads=case["threads"], regularization=1.0)
        m.fit(mat, show_progress=False)
        knn = common.build({"kind": "cosine", "K": 5, "threads": case["threads"]})
        knn.fit(mat.astype(np.float64), show_progress=False)
        ids = np.arange(230) % mat.shape[0]
        rec = m.recommend(ids, mat[ids], N=3)
    return [m.user_factors.tobytes(), m.item_factors.tobytes(), common.state_of(knn), rec[0].tobytes(), rec[1].tobytes()]


def poison(case, mat):
    """NaN or infinite confidences at some stored positions"""
    g = gen.rs(case["badseed"])
    bad = gen.copy_csr(mat)
    n = min(case["n_bad"], len(bad.data))
    pos = g.permutation(len(bad.data))[:n]
    bad.data[pos] = np.nan if case["bad"] == "nan" else np.inf
    return bad


def indefinite(case, mat, Y, reg):
    """rows whose (finite) system is not positive definite: many zero-confidence entries of one item.
    Returns (matrix, number of rows that cannot be solved)"""
    g = gen.rs(case["badseed"])
    U, I = mat.shape
    rows = {int(u): int(g.randint(0, I)) for u in g.permutation(U)[:case["n_bad"]]}
    indptr, ind, dat = [0], [], []
    n = 20 * I + 100
    Yd = np.asarray(Y, np.float64)
    YtY = Yd.T.dot(Yd)
    unsolvable = 0
    for u in range(U):
        ix = mat.indices[mat.indptr[u]:mat.indptr[u + 1]].tolist()
        dx = mat.data[mat.indptr[u]:mat.indptr[u + 1]].tolist()
        if u in rows:
            ix, dx = [rows[u]] * n, [0.0] * n
            A = YtY + reg * np.eye(Y.shape[1]) - n * np.outer(Yd[rows[u]], Yd[rows[u]])
            w = np.linalg.eigvalsh(A)
            unsolvable += w[0] < -1e-3 * np.abs(w).max()
        ind += ix
        dat += dx
        indptr.append(len(ind))
    return sp.csr_matrix((np.array(dat, np.float32), np.array(ind, np.int32), np.array(indptr, np.int32)), shape=mat.shape), unsolvable


def attempt(ctx, fn):
    try:
        with ctx.session():
            return fn(), None
    except (rt.Violation, rt.HarnessError):
        raise
    except Exception as e:  # noqa
        return None, e


def run(case, ctx):
    before = good(case, ctx)
    k = case["what"]
    mat = gen.matrix(case["m"], np.float32, min_nnz=2)
    if k == "unsolvable":
        m = als(case, reg=0.1)
        if case["nan"]:
            data, n = poison(case, mat), 0
        else:
            g = gen.rs(case["seed"])
            m.user_factors = g.standard_normal((mat.shape[0], case["factors"])).astype(m.dtype)
            m.item_factors = g.standard_normal((mat.shape[1], case["factors"])).astype(m.dtype)
            data, n = indefinite(case, mat, m.item_factors, 0.1)
            if not n:
                return
        res, err = attempt(ctx, lambda: m.fit(data, show_progress=False))
        ctx.check(err is not None, "swallowed", "training on unsolvable rows (%s) returned normally" % (case["bad"] if case["nan"] else n))
        ctx.check(isinstance(err, ValueError) or (case["nan"] and isinstance(err, ModelFitError)), "wrong-error", "unexpected %r" % (err,))
        ctx.fault("unsolvable_row", max(1, int(n)))
    elif k in ("recalculate", "partial"):
        m = als(case)
        with ctx.session():
            m.fit(mat, show_progress=False)
        bad, n = indefinite(case, mat, m.item_factors, 0.5)
        if not n:
            return
        st = common.state_of(m)
        ids = np.arange(mat.shape[0])
        fn = (lambda: m.recalculate_user(ids, bad)) if k == "recalculate" else (lambda: m.partial_fit_users(ids, bad))
        res, err = attempt(ctx, fn)
        ctx.check(isinstance(err, ValueError), "swallowed", "%s with unsolvable rows: %r" % (k, err))
        ctx.check(common.state_of(m) == st, "half-changed", "%s failed but changed the factors" % k)
        ctx.fault("unsolvable_row", int(n))
    elif k in ("filter", "liked_range"):
        m = als(case)
        with ctx.session():
            m.fit(mat, show_progress=False)
        g = gen.rs(case["badseed"])
        U, I = mat.shape
        rows = case["rows"]
        ref = als(case)
        ref.user_factors, ref.item_factors = m.user_factors.copy(), m.item_factors.copy()
        tot = U if case["op"] == "similar_users" else I
        ids = g.randint(0, U if case["op"] != "similar_items" else I, rows)
        if k == "filter":
            bad = [0, tot + int(g.randint(0, 5))]
            if case["op"] == "recommend":
                fn = lambda x: x.recommend(ids, mat[ids], N=2, filter_items=bad)  # noqa
            elif case["op"] == "similar_items":
                fn = lambda x: x.similar_items(ids, N=2, filter_items=bad)  # noqa
            else:
                fn = lambda x: x.similar_users(ids, N=2, filter_users=bad)  # noqa
        else:
            liked = mat[ids].tolil()
            wide = sp.lil_matrix((rows, I + 3), dtype=np.float32)
            wide[:, :I] = liked
            for row in g.permutation(rows)[:case["n_bad"]]:
                wide[row, I + int(g.randint(0, 3))] = 1
            wide = wide.tocsr()
            fn = lambda x: x.recommend(ids, wide, N=2)  # noqa
        res, err = attempt(ctx, lambda: fn(m))
        ctx.check(err is not None, "swallowed", "%s: a batch of %d rows failed inside a worker but the call returned" % (case["op"], rows))
        ctx.check(isinstance(err, (IndexError, ValueError)), "wrong-error", "unexpected %r" % (err,))
        ctx.fault("failing_batch")
        # the same model answers the next query
        with ctx.session():
            a = m.recommend(ids % U, mat[ids % U], N=1)
        with ctx.session(mode="serial", max_threads=1):
            b = ref.recommend(ids % U, mat[ids % U], N=1)
        ctx.check(common.same_result(("ok", list(a)), ("ok", list(b)))[0], "unusable", "query after the failed one gives a different answer")
    elif k == "progress":
        m = common.build(case["model"])
        data = common.data_for(case["model"]["kind"], mat)
        sink = Sink(case["at"], case["exc"], case.get("burst", 1 << 30))
        err0, sys.stderr = sys.stderr, sink
        rt.CLOCK.advance = 1.0  # every clock read moves time on, so every update is displayed
        try:
            res, err = attempt(ctx, lambda: m.fit(data, show_progress=True))
            fired = sink.fired
            del m
        finally:
            rt.CLOCK.advance = 0.0
            sink.at = 1 << 60
            sys.stderr = err0
        ctx.check(bool(fired) == (err is not None), "swallowed" if fired else "spurious",
                  "progress output failed %d times, the call %s" % (fired, "returned" if err is None else "raised %r" % err))
        if fired:
            ctx.fault("progress_write_error")
    elif k == "nan_cg":
        m = als(case, cg=True, loss=case["n_bad"] > 2)
        bad = poison(case, mat)
        res, err = attempt(ctx, lambda: m.fit(bad, show_progress=False))
        ctx.check(isinstance(err, (ModelFitError, ValueError)), "swallowed", "training diverged to NaN but gave %r" % (err,))
        ctx.fault("nan_confidence")
    elif k == "nan_bpr":
        m = common.build({"kind": "bpr", "factors": case["factors"], "reg": 0.01, "lr": 1e30, "iters": 3, "threads": case["threads"],
                          "seed": case["seed"], "f32": True, "verify": False})
        res, err = attempt(ctx, lambda: m.fit(mat, show_progress=False))
        nan = np.isnan(m.user_factors).any() or np.isnan(m.item_factors).any()
        ctx.check(bool(nan) == isinstance(err, ModelFitError) and (nan or err is None), "swallowed", "NaN factors: %s, call gave %r" % (nan, err))
        ctx.fault("divergence", int(nan))
    elif k == "nan_row":
        # retraining of a model one of whose factors has become NaN: however far it spreads, it is reported
        kind = case["kind"]
        kc = {"kind": kind, "factors": case["factors"], "iters": case["iters"], "threads": case["threads"], "seed": case["seed"], "f32": True,
              "reg": 0.1, "lr": 0.05, "verify": case["n_bad"] > 1, "neg": 1, "alpha": 1.0, "cg": case["n_bad"] > 1, "loss": False}
        m = common.build(dict(kc, iters=0 if kind == "als" else 1))
        with ctx.session():
            m.fit(mat, show_progress=False)
        g = gen.rs(case["badseed"])
        arr = m.user_factors if case["side"] == "user" else m.item_factors
        arr[g.randint(0, arr.shape[0]), g.randint(0, case["factors"])] = np.nan
        m.iterations = case["iters"]
        res, err = attempt(ctx, lambda: m.fit(mat, show_progress=False))
        nan = np.isnan(m.user_factors).any() or np.isnan(m.item_factors).any()
        ctx.check(not nan or isinstance(err, (ModelFitError, ValueError)), "swallowed", "NaN factors: %s, call gave %r" % (nan, err))
        ctx.check(nan or err is None, "spurious", "finite factors, call gave %r" % (err,))
        ctx.fault("nan_factor", int(nan))
    else:
        m = common.build({"kind": "lmf", "factors": case["factors"], "reg": 0.6, "lr": 1.0, "iters": case["iters"], "threads": case["threads"],
                          "seed": case["seed"], "f32": True, "neg": 2})
        bad = poison(case, mat)
        res, err = attempt(ctx, lambda: m.fit(bad, show_progress=False))
        nan = np.isnan(m.user_factors).any() or np.isnan(m.item_factors).any()
        ctx.check(not nan or isinstance(err, ModelFitError), "swallowed", "NaN factors, call gave %r" % (err,))
        ctx.fault("nan_confidence", int(nan))
    ctx.note(type(err).__name__)
    after = good(case, ctx)
    ctx.check(before == after, "unusable", "training and queries after the failure give different results than before it")
