"""Queries and training never modify the caller's data or the fitted model."""
import numpy as np
import scipy.sparse as sp

import implicit.evaluation as ev
import simrt
from vsim import annstub, common, conc, gen, rt

ID = "C09"
ACTS = ["fit", "fit", "fit", "query", "query", "query", "query", "split", "leave", "metrics", "partial", "bad", "ann"]
W = {}


def setup():
    annstub.install()
    conc.install_alloc_faults()
    from implicit.ann.annoy import AnnoyModel
    from implicit.ann.faiss import FaissModel
    from implicit.ann.nmslib import NMSLibModel
    W.update(annoy=AnnoyModel, faiss=lambda m: FaissModel(m, nlist=1, nprobe=1, use_gpu=False), nmslib=NMSLibModel)


def new_case(r, i=0):
    m = gen.matrix_case(r, max_users=24, max_items=24, neg=r.random() < 0.3)
    m["users"], m["items"] = max(2, m["users"]), max(2, m["items"])
    m["unsorted"] = r.random() < 0.5
    m["zeros"] = r.random() < 0.1
    k = common.model_case(r)
    k["iters"] = 1
    acts = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        a = {"a": r.choice(ACTS), "sorted_flag": r.random() < 0.3}
        if a["a"] == "fit":
            a["k"] = common.model_case(r)
            a["k"]["iters"] = r.choice([1, 2])
        elif a["a"] == "query":
            a["q"] = common.query_case(r, k["kind"], m["users"], m["items"], big=r.random() < 0.05)
        elif a["a"] == "bad":
            a["q"] = conc.bad_case(r, k["kind"], m["users"], m["items"])
        elif a["a"] in ("split", "leave"):
            a.update(frac=r.choice([0.0, 0.3, 0.5, 0.8, 1.0]), K=r.choice([1, 1, 2]), only=r.choice([0.0, 0.0, 0.3]), seed=r.choice(["int", "rs", "gen"]))
        elif a["a"] == "metrics":
            a.update(K=r.choice([1, 2, 5]), fn=r.choice(["ranking_metrics_at_k", "precision_at_k", "AUC_at_k", "ndcg_at_k", "mean_average_precision_at_k"]))
        elif a["a"] == "ann":
            n = r.choice([0, 0, 1, 2, 4])
            a.update(lib=r.choice(["annoy", "faiss", "nmslib"]), op=r.choice(["recommend", "recommend", "similar_items"]), n=n, N=r.choice([1, 2, 5]), liked=r.random() < 0.7,
                     filter=r.choice(["none", "list", "list", "array"]), recalc=r.random() < 0.2)
        elif a["a"] == "partial":
            a["side"] = r.choice(["users", "items"])
            a["n"] = r.choice([1, 2, 3])
        acts.append(a)
    c = {"m": m, "k": k, "dtype": r.choice(["f4", "f4", "f8", "i4", "i8"]), "fmt": r.choice(["csr", "csr", "csr", "coo", "csc", "lil"]),
         "acts": acts, "fault": None, "watch": r.random() < 0.7, "repeat": r.random() < 0.5, "qlist": r.choice(["list", "array"])}
    if r.random() < 0.35:
        c["fault"] = dict(conc.fault_case(r), act=r.randrange(len(acts)))
    return c


def strategy(r, case):
    s = gen.strategy(r, py=True)
    if s["mode"] == "serial":
        s.update(mode="random", p_mem=1e-3, p_py=0.05, p_sync=0.5)
    return s


def freeze(x):
    """comparable snapshot of anything a caller may pass in"""
    if sp.issparse(x):
        d = {"fmt": x.format, "shape": x.shape, "dtype": x.dtype.str}
        for n in ("data", "indices", "indptr", "row", "col", "rows"):
            v = getattr(x, n, None)
            if isinstance(v, np.ndarray):
                if v.dtype == object:
                    v = np.array([repr(e) for e in v])
                d[n] = (v.shape, v.dtype.str, gen.bits(v))
        return d
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.str, gen.bits(x))
    return repr(x)


def run(case, ctx):
    kind = case["k"]["kind"]
    knn = kind in common.KNN
    base = gen.matrix(case["m"], np.float64, min_nnz=2)
    model = common.build(case["k"])
    fm = gen.copy_csr(base)
    fm.data = np.abs(fm.data) + (fm.data == 0)
    model.fit(fm.astype(np.float64 if knn else np.float32), show_progress=False)
    if not common.usable(model):
        ctx.probe("diverged")
        return
    st = common.state_of(model)
    U, I = base.shape
    train = base.astype({"f4": np.float32, "f8": np.float64, "i4": np.int32, "i8": np.int64}[case["dtype"]])
    if case["m"]["unsorted"]:
        gen.shuffle_rows(train, gen.rs(case["m"]["mseed"] + 5))
    if case["fmt"] != "csr":
        g = gen.rs(case["m"]["mseed"] + 6)
        train = train.asformat(case["fmt"])
        if case["fmt"] == "coo":
            p = g.permutation(len(train.data))
            train = sp.coo_matrix((train.data[p], (train.row[p], train.col[p])), shape=train.shape)
    qmat = base.astype(np.float64 if knn else np.float32)
    if case["m"]["unsorted"]:
        gen.shuffle_rows(qmat, gen.rs(case["m"]["mseed"] + 7))
    qmat.data = np.abs(qmat.data)
    qt = qmat.T.tocsr()
    test = gen.matrix(dict(case["m"], mseed=case["m"]["mseed"] + 11), np.float32)
    shared = [train, qmat, qt, test]
    plans = []
    for a in case["acts"]:
        t = a["a"]
        own = []
        query = True
        if t == "fit":
            k = a["k"]
            x = common.build(k)
            arg = train if k["kind"] not in common.KNN or train.dtype.kind == "f" else train.astype(np.float64)
            own.append(arg)
            fn = lambda x=x, arg=arg: (x.fit(arg, show_progress=False), None)[1]  # noqa
            query = False
        elif t in ("query", "bad"):
            q = a["q"]
            args = conc.prepare(q, qmat, qt)
            if q["op"] == "recommend" and isinstance(q["ids"], list) and len(q["ids"]) == 1 and case["fmt"] == "csr":
                pass
            if case["qlist"] == "list":
                args = (tuple(x.tolist() if isinstance(x, np.ndarray) and x.ndim == 1 and t == "query" and k_mf(kind) else x for x in args[0]), args[1])
            own += list(args[0]) + list(args[1].values())
            fn = lambda q=q, args=args: conc.call(model, q, args)  # noqa
        elif t in ("split", "leave"):
            rs = {"int": 5, "rs": np.random.RandomState(5), "gen": np.random.default_rng(5)}[a["seed"]]
            if t == "split":
                fn = lambda a=a, rs=rs: ev.train_test_split(train, a["frac"], rs)  # noqa
            else:
                fn = lambda a=a, rs=rs: ev.leave_k_out_split(train, a["K"], min(a["only"], 0.9), rs)  # noqa
        elif t == "metrics":
            K = min(a["K"], I)
            fn = lambda a=a, K=K: getattr(ev, a["fn"])(model, qmat, test, K=K, show_progress=False)  # noqa
        elif t == "ann":
            kw = dict(kind="als", factors=3, reg=1.0, alpha=1.0, cg=False, loss=False, iters=1, f32=True, seed=3)
            x = W[a["lib"]](common.build(dict(case["k"], **kw) if knn else case["k"]))
            x.fit(fm.astype(np.float32), show_progress=False)
            rec = a["op"] == "recommend"
            ids = (a["N"] * 7 + np.arange(a["n"])) % (U if rec else I) if a["n"] else 0
            sel = ids if a["n"] else [0]
            kw = {"N": min(a["N"], I)}
            if a["filter"] != "none":
                kw["filter_items"] = [0, I - 1] if a["filter"] == "list" or rec else np.array([0, I - 1])
            if rec:
                kw["filter_already_liked_items"] = a["liked"]
                args = (ids, qmat.astype(np.float32)[sel])
            else:
                args = (ids,)
            if a["recalc"] and hasattr(x.model, "partial_fit_users"):
                kw.update({"recalculate_user": True} if rec else {"recalculate_item": True, "item_users": qt.astype(np.float32)[sel]})
            own += list(args) + list(kw.values()) + [x.model.user_factors, x.model.item_factors]
            fn = lambda x=x, a=a, args=args, kw=kw: getattr(x, a["op"])(*args, **kw)  # noqa
        else:
            x = common.build(dict(case["k"], kind="als", factors=3, reg=1.0, alpha=1.0, cg=False, loss=False, iters=1, f32=True, seed=3))
            x.fit(qmat.astype(np.float32), show_progress=False)
            n = min(a["n"], U if a["side"] == "users" else I)
            ids, rows = np.arange(n), (qmat if a["side"] == "users" else qt)[np.arange(n)]
            own += [ids, rows]
            fn = lambda x=x, a=a, ids=ids, rows=rows: (x.partial_fit_users if a["side"] == "users" else x.partial_fit_items)(ids, rows)  # noqa
            query = False
        plans.append((a, fn, own, query))
    objs = shared + [o for p in plans for o in p[2]]
    snaps = [freeze(o) for o in objs]
    f = case["fault"]

    def unchanged(when):
        for o, s in zip(objs, snaps):
            now = freeze(o)
            if now != s:
                ctx.check(False, "input-changed", "%s: an input (%s) was modified: %s" % (
                    when, type(o).__name__, [k for k in s if now.get(k) != s[k]] if isinstance(s, dict) else "%.60s -> %.60s" % (s, now)))
        ctx.check(common.state_of(model) == st, "model-changed", "%s: the fitted model was modified" % when)

    done = [0]

    def worker(i):
        a, fn, own, query = plans[i]

        def go():
            try:
                if f and f["act"] == i:
                    res, err, fired = conc.faulty(ctx, f, fn)
                else:
                    res, err = fn(), None
            except (rt.Violation, rt.HarnessError):
                raise
            except Exception as e:  # noqa
                ctx.probe("raised:" + type(e).__name__)
                res = None
            finally:
                done[0] += 1
            return res
        return go

    def observer():
        # looks at the inputs while the other threads are inside their calls
        for k in range(40):
            if done[0] == len(plans):
                break
            unchanged("during %s" % [p[0]["a"] for p in plans])
            for _ in range(1 + 2 * k):
                simrt.point()
        return None

    fns = [worker(i) for i in range(len(plans))]
    res = ctx.par(fns + ([observer] if case["watch"] else []))
    names = [dict(p[0]) for p in plans]
    unchanged("after %s" % names)
    if case["repeat"]:
        for i, (a, fn, own, query) in enumerate(plans):
            if a["a"] == "query" and not (f and f["act"] == i) and res[i][0] is not None:
                again = fn()
                ctx.check(common.same_result(res[i][0], again)[0], "not-repeatable", lambda: "%s gives %s, then %s" % (a["q"]["op"], common.describe(res[i][0]), common.describe(again)))
        unchanged("after repeating %s" % names)


def k_mf(kind):
    return kind in common.MF
