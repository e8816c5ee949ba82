"""Queries always reflect the model's current factors, whatever happened before."""
import copy
import os

import numpy as np

from vsim import common, conc, gen, rt

ID = "C08"
setup = conc.install_alloc_faults


def new_case(r, i=0):
    m = gen.matrix_case(r, max_users=24, max_items=24, neg=False)
    m["users"], m["items"] = max(2, m["users"]), max(2, m["items"])
    k = common.model_case(r, ("als", "als", "als", "bpr", "lmf") + (r.choice(common.KNN),))
    k["iters"] = r.choice([1, 2, 3])
    U, I, kind = m["users"], m["items"], k["kind"]

    def q():
        return common.query_case(r, kind, U, I)

    ops = [{"o": "fit", "mseed": m["mseed"], "cb": [], "stop": None}]
    for _ in range(r.choice([2, 3, 4, 6, 9])):
        o = r.choice(["query", "query", "query", "fit", "fit", "abort", "abort", "partial", "partial", "save", "pickle", "deepcopy", "bad", "zero"])
        if kind != "als" and o == "partial":
            o = "fit"
        if o == "query":
            ops.append({"o": "query", "q": q()})
        elif o in ("fit", "abort"):
            d = {"o": "fit", "mseed": r.randrange(1 << 30), "cb": [], "stop": None}
            if kind in common.MF:
                d["iters"] = r.choice([1, 2, 3])
                d["cb"] = [[r.randrange(3), q()] for _ in range(r.choice([0, 1, 1, 2, 4]))]
                if o == "abort":
                    d["stop"] = r.choice([{"how": "callback", "epoch": r.randrange(3)}, {"how": "inject", "at": r.choice([1, 3, 5, 8, 12, 16, 20, 25, 30, 40, 60])}])
                else:
                    d["progress"] = r.random() < 0.1
            elif o == "abort":
                d["stop"] = {"how": "inject", "at": r.choice([1, 2, 3, 5, 8, 12, 20])}
            ops.append(d)
        elif o == "partial":
            side = r.choice(["users", "items"])
            tot = U if side == "users" else I
            n = r.choice([1, 1, 2, 4])
            ops.append({"o": "partial", "side": side, "ids": sorted(r.sample(range(tot), min(n, tot))), "mseed": r.randrange(1 << 30),
                        "stop": r.choice([None, None, None, {"how": "inject", "at": r.choice([2, 4, 6, 9, 12, 16, 20, 25])}])})
        elif o == "bad":
            ops.append({"o": "bad", "q": conc.bad_case(r, kind, U, I)})
        elif o == "zero":
            ops.append({"o": "query", "q": q(), "alloc": r.choice([1, 2, 3, 5])})
        else:
            ops.append({"o": o})
        if r.random() < 0.4:
            ops.append({"o": "query", "q": q()})
    return {"m": m, "k": k, "ops": ops, "final": [q() for _ in range(r.choice([3, 5]))]}


def strategy(r, case):
    return gen.strategy(r, py=True)


class Stop(Exception):
    pass


def compare(ctx, model, case, q, mat, mat_t, when):
    want = common.call(common.fresh_copy(model, case["k"]), q, mat, mat_t)
    got = common.call(model, q, mat, mat_t)
    ok, _ = common.same_result(got, want)
    ctx.check(ok, "stale", lambda: "%s: %s gives %s, a fresh object with the same factors gives %s" % (when, q["op"], common.describe(got), common.describe(want)))
    ctx.note(got[0])


def run(case, ctx):
    kind = case["k"]["kind"]
    knn = kind in common.KNN
    dt = np.float64 if knn else np.float32
    model = common.build(case["k"])
    mat = gen.matrix(case["m"], dt, min_nnz=2)
    fitted = False
    hist = []
    for n, op in enumerate(case["ops"]):
        o = op["o"]
        hist.append(o)
        mat_t = mat.T.tocsr()
        if o == "fit":
            mat = gen.matrix(dict(case["m"], mseed=op["mseed"]), dt, min_nnz=2)
            mat_t = mat.T.tocsr()
            if not knn:
                model.iterations = op.get("iters", case["k"]["iters"])
            stop = op.get("stop")

            def cb(it, *a):
                for e, q in op["cb"]:
                    if e == it and common.usable(model):
                        compare(ctx, model, case, q, mat, mat_t, "op %d %s, in the callback of epoch %d" % (n, hist, it))
                        ctx.probe("callback_query")
                if stop and stop["how"] == "callback" and stop["epoch"] == it:
                    raise Stop()

            kw = {} if knn or not (op["cb"] or stop) else {"callback": cb}
            try:
                if stop and stop["how"] == "inject":
                    with ctx.session(py=True):
                        _, err, fired, _ = rt.with_injection(ctx, KeyboardInterrupt("injected"), stop["at"], lambda: model.fit(mat, show_progress=False, **kw))
                    if fired:
                        hist[-1] = "fit!"
                else:
                    with ctx.session():
                        model.fit(mat, show_progress=False, **kw)
            except Stop:
                ctx.fault("aborted_fit")
                hist[-1] = "fit!"
            except (rt.Violation, rt.HarnessError):
                raise
            except Exception as e:  # noqa
                ctx.probe("fit_error:" + type(e).__name__)
            fitted = model.similarity is not None and getattr(model, "scorer", True) is not None if knn else model.user_factors is not None and model.item_factors is not None
        elif not fitted:
            continue
        elif o == "query":
            if op.get("alloc"):
                with ctx.session(py=True):
                    conc.faulty(ctx, {"kind": "alloc", "at": op["alloc"]}, lambda: common.call(model, op["q"], mat, mat_t))
            else:
                common.call(model, op["q"], mat, mat_t)
        elif o == "bad":
            conc.call(model, op["q"], conc.prepare(op["q"], mat, mat_t))
            ctx.fault("failing_call")
        elif o == "partial":
            ids = np.array(op["ids"])
            d = gen.matrix(dict(case["m"], mseed=op["mseed"]), dt, min_nnz=2)
            fn, rows = (model.partial_fit_users, d) if op["side"] == "users" else (model.partial_fit_items, d.T.tocsr())
            if op["stop"]:
                with ctx.session(py=True):
                    rt.with_injection(ctx, KeyboardInterrupt("injected"), op["stop"]["at"], lambda: fn(ids, rows[ids]))
            else:
                try:
                    fn(ids, rows[ids])
                except ValueError:
                    ctx.probe("unsolvable")
        elif o == "save":
            p = os.path.join(ctx.scratch, "m.npz")
            model.save(p)
            model = type(model).load(p)
        elif o == "pickle":
            model = common.pickled(model)
        elif o == "deepcopy":
            model = copy.deepcopy(model)
        if not fitted:
            continue
        if not common.usable(model):
            ctx.probe("diverged")
            return
        for q in case["final"][:2]:
            compare(ctx, model, case, q, mat, mat_t, "after %s" % hist)
    if fitted:
        for q in case["final"]:
            compare(ctx, model, case, q, mat, mat.T.tocsr(), "after %s" % hist)
        ctx.note(*(x if isinstance(x, bytes) else repr(x) for x in common.state_of(model)))
