"""Several caller threads query models at the same time; every call is compared with the same call made alone."""
import numpy as np

import simrt
from vsim import common, rt

_ALLOC = {"on": False, "thread": None, "at": 0, "n": 0, "fired": 0}
_ALLOC_FNS = ("concatenate", "zeros", "empty", "append", "full", "in1d", "isin", "array", "argsort", "ones", "zeros_like", "empty_like")


def install_alloc_faults():
    """numpy allocation functions called by the package can be made to fail (MemoryError)"""
    def wrap(f):
        def g(*a, **kw):
            if _ALLOC["on"] and _ALLOC["thread"] == simrt.ident():
                _ALLOC["n"] += 1
                if _ALLOC["n"] == _ALLOC["at"]:
                    _ALLOC["fired"] += 1
                    raise MemoryError("injected allocation failure")
            return f(*a, **kw)
        return g

    for n in _ALLOC_FNS:
        if hasattr(np, n):
            setattr(np, n, wrap(getattr(np, n)))


def faulty(ctx, fault, fn):
    """runs fn in the calling simulated thread with one fault; (result, exception, fired)"""
    if fault["kind"] == "alloc":
        _ALLOC.update(on=True, thread=simrt.ident(), at=fault["at"], n=0, fired=0)
        res = err = None
        try:
            res = fn()
        except MemoryError as e:
            err = e
        finally:
            _ALLOC["on"] = False
        ctx.fault("allocation_failure", _ALLOC["fired"])
        return res, err, _ALLOC["fired"]
    exc = {"interrupt": KeyboardInterrupt("injected"), "error": RuntimeError("injected")}[fault["kind"]]
    res, err, fired, _ = rt.with_injection(ctx, exc, fault["at"], fn)
    return res, err, fired


def fault_case(r):
    return {"kind": r.choice(["alloc", "interrupt", "interrupt", "error"]), "at": r.choice([1, 2, 3, 4, 5, 7, 9, 12, 16, 22, 30, 45])}


def prepare(q, mat, mat_t):
    """arguments of a query, or of a call that fails"""
    if q["op"] == "bad":
        base = common.query_args(q["base"], mat, mat_t)
        a, kw = list(base[0]), dict(base[1])
        if q["bad"] == "items":
            kw.pop("filter_items", None)
            kw["items"] = np.array([0, 10 ** 6])
        elif q["bad"] == "both":
            kw["items"] = np.array([0])
            kw["filter_items"] = [0]
        elif q["bad"] == "id":
            a[0] = 10 ** 6 if not isinstance(q["base"]["ids"], list) else np.array([10 ** 6] * len(q["base"]["ids"]))
        elif q["bad"] == "dtype":
            a[1] = a[1].astype(np.int8)
        elif q["bad"] == "rows":
            a[1] = mat[[0, 0, 0, 0, 0]] if mat.shape[0] else mat
        elif q["bad"] == "dense":
            a[1] = np.zeros((1, 3))
        return tuple(a), kw
    return common.query_args(q, mat, mat_t)


def call(model, q, args):
    return common.call(model, q["base"] if q["op"] == "bad" else q, None, None, args=args)


def bad_case(r, kind, users, items):
    """a call that raises on every correct implementation"""
    while True:
        q = common.query_case(r, kind, users, items, recalc=False)
        if q["op"] in ("recommend", "similar_items"):
            break
    opts = ["both", "items"]
    if q["op"] == "recommend":
        opts += ["dense", "rows"]
        q["liked"] = True
        if kind in common.KNN and q.get("ids") is not None:
            opts += ["dtype"]
    if kind in common.MF:
        opts += ["id"]
    if kind in common.KNN and q["op"] == "similar_items":
        opts = ["both"]
    b = r.choice(opts)
    if b == "rows":
        q["ids"] = [0, 0]
    q.pop("recalc", None)
    return {"op": "bad", "bad": b, "base": q}


def run(ctx, case, model, mcase, mat):
    """case: {"calls": [[query, ...] per thread], "fault": None or {"thread", "kind", "at"}}"""
    mat_t = mat.T.tocsr()
    plans = [[(q, prepare(q, mat, mat_t)) for q in th] for th in case["calls"]]
    alone = []
    for th in plans:
        # each call alone, on a fresh copy of the model
        alone.append([call(common.fresh_copy(model, mcase), q, prepare(q, mat, mat_t)) for q, _ in th])
    st = common.state_of(model)
    f = case.get("fault")
    hit = {}

    def worker(t):
        def go():
            out = []
            for k, (q, args) in enumerate(plans[t]):
                if f and f["thread"] == t and f["call"] == k:
                    res, err, fired = faulty(ctx, f, lambda: call(model, q, args))
                    if fired:
                        hit["fired"] = err
                        out.append(None)
                        continue
                    if err is not None:
                        raise err
                    out.append(res)
                else:
                    out.append(call(model, q, args))
            return out
        return go

    res = ctx.par([worker(t) for t in range(len(plans))])
    for t, (r, e) in enumerate(res):
        ctx.check(e is None, "unexpected-error", lambda: "thread %d: %r" % (t, e))
        for k, (got, want) in enumerate(zip(r, alone[t])):
            if got is None:
                continue
            ok, exact = common.same_result(got, want)
            ctx.probe("calls_exact" if exact else "calls_rounded")
            ctx.check(ok, "interference", lambda: "thread %d call %d %s: concurrently %s, alone %s" % (
                t, k, plans[t][k][0]["op"], common.describe(got), common.describe(want)))
            ctx.note(*(got[1] if got[0] == "ok" else [got[1]]))
    ctx.check(common.state_of(model) == st, "model-changed", "queries changed the fitted model")
    # and afterwards: no residue, no held lock
    for t, th in enumerate(plans):
        for k, (q, args) in enumerate(th):
            with ctx.session(mode="serial", max_threads=1, p_team=0.0):
                got = call(model, q, args)
            ok, _ = common.same_result(got, alone[t][k])
            ctx.check(ok, "residue", lambda: "after the concurrent calls %s gives %s, on a fresh copy %s" % (
                q["op"], common.describe(got), common.describe(alone[t][k])))
    if hit:
        ctx.probe("fault_in_call")
