"""Approximate-index wrappers stay consistent with the model they wrap (with indexes that search exactly)."""
import warnings

import numpy as np

from vsim import annstub, common, conc, gen, rt

ID = "C19"
W = {}


def setup():
    annstub.install()
    conc.install_alloc_faults()
    from implicit.ann.annoy import AnnoyModel
    from implicit.ann.faiss import FaissModel
    from implicit.ann.nmslib import NMSLibModel
    import implicit.approximate_als as aals
    W.update(annoy=AnnoyModel, faiss=FaissModel, nmslib=NMSLibModel, aals=aals)


def query(r, case, U, I, liked_max):
    q = {"op": r.choice(["recommend", "recommend", "similar_items"])}
    batch = r.random() < 0.5
    tot = U if q["op"] == "recommend" else I
    q["ids"] = [r.randrange(tot) for _ in range(r.choice([1, 2, 3, 6]))] if batch else r.randrange(tot)
    if r.random() < 0.5:
        q["filter"] = [r.randrange(I) for _ in range(r.choice([1, 1, 2, 4]))]
    if q["op"] == "recommend":
        q["liked"] = r.random() < 0.6
        q["recalc"] = case["k"]["kind"] == "als" and r.random() < 0.25
    else:
        q["recalc"] = case["k"]["kind"] == "als" and r.random() < 0.2
    q["N"] = r.choice([1, 1, 2, 3, 5, 10, 20])
    q["fault"] = None
    return q


def new_case(r, i=0):
    k = common.model_case(r, common.MF)
    k["iters"] = r.choice([1, 1, 2])
    k["loss"] = False
    ms = []
    for _ in range(2):
        m = gen.matrix_case(r, max_users=20, max_items=25, neg=False)
        m["users"], m["items"] = max(3, m["users"]), max(6, m["items"])
        m["density"] = min(m["density"], 0.3)
        if r.random() < 0.06:
            m["users"], m["items"], m["density"] = r.randint(3, 9), r.choice([70, 100, 120]), 0.6
        ms.append(m)
    if r.random() < 0.5:
        ms[1]["users"], ms[1]["items"] = ms[0]["users"], ms[0]["items"]
    c = {"m": ms[0], "m2": ms[1], "k": k, "lib": r.choice(["annoy", "faiss", "nmslib"]), "sim": r.random() < 0.85, "rec": r.random() < 0.85,
         "nlist": r.choice([1, 2, 3]), "zero": r.choice([0, 0, 0, 1, 2]), "via": r.choice(["class", "class", "factory"]), "scale": r.choice([1.0, 1.0, 1e-3, 1e3])}
    if c["via"] == "factory":
        c["k"] = common.model_case(r, ("als",))
        c["k"]["loss"] = False
    ops, cur = [], 0
    for j in range(r.choice([1, 2, 3, 4])):
        kind = "fit" if j == 0 else r.choice(["fit", "refit", "callback", "inject", "index", "index"])
        ops.append({"op": kind, "which": 0 if j == 0 else r.randrange(2), "at": r.randint(1, 60) if kind == "inject" else r.randint(1, 12), "exc": r.choice(["interrupt", "error"])})
        m = ms[ops[-1]["which"]]
        n = r.choice([1, 1, 2, 3])
        ops.append({"op": "query", "threads": [[query(r, c, m["users"], m["items"], 0) for _ in range(r.choice([1, 2]))] for _ in range(n)],
                    "fault": dict(conc.fault_case(r), thread=0) if r.random() < 0.2 else None})
    c["ops"] = ops
    return c


def strategy(r, case):
    return gen.strategy(r, py=True)


def make(case):
    k = case["k"]
    kw = {"approximate_similar_items": case["sim"], "approximate_recommend": case["rec"]}
    lib = case["lib"]
    if lib == "faiss":
        kw.update(nlist=case["nlist"], nprobe=case["nlist"], use_gpu=False)
    if case["via"] == "factory":
        if lib != "faiss":
            kw["use_gpu"] = False
        f = {"annoy": W["aals"].AnnoyAlternatingLeastSquares, "faiss": W["aals"].FaissAlternatingLeastSquares, "nmslib": W["aals"].NMSLibAlternatingLeastSquares}[lib]
        return f(factors=k["factors"], regularization=k["reg"], alpha=k["alpha"], iterations=k["iters"], num_threads=k["threads"], random_state=k["seed"],
                 dtype=np.float32 if k["f32"] else np.float64, use_cg=k["cg"], **kw)
    return W[lib](common.build(k), **kw)


class Stop(Exception):
    pass


def run(case, ctx):
    warnings.simplefilter("ignore")
    mats = [gen.matrix(case[n], np.float32, min_nnz=4) for n in ("m", "m2")]
    w = make(case)
    if case["k"]["kind"] == "als" or case["via"] == "factory":
        # items nobody has: zero factors
        for m in mats:
            if case["zero"]:
                keep = np.ones(m.shape[1], np.float32)
                keep[:case["zero"]] = 0
                m.data *= keep[m.indices]
                m.eliminate_zeros()
    cur, broken = None, False
    for n, op in enumerate(case["ops"]):
        if op["op"] == "query":
            if cur is None or not common.usable(w.model):
                ctx.probe("unusable")
                return
            queries(case, ctx, w, mats[cur], op, broken, n)
            continue
        mat = mats[op["which"]]
        if cur is not None and op["which"] != cur and mats[0].shape != mats[1].shape:
            if op["at"] % 4 == 0:
                # a model of another size: rejected, and nothing changes
                with ctx.session():
                    try:
                        w.fit(mat, show_progress=False)
                        ctx.check(False, "shape-accepted", "a model with factors for %s was trained on a matrix for %s" % (mats[cur].shape, mat.shape))
                    except ValueError:
                        ctx.fault("failed_training:shape")
                broken = True
                continue
            w.model.user_factors = w.model.item_factors = None
        if op["op"] in ("fit", "refit"):
            with ctx.session():
                w.fit(mat, show_progress=False)
            cur, broken = op["which"], False
            continue
        err = fired = None
        if op["op"] == "callback":
            def cb(it, *a):
                raise Stop()
            with ctx.session():
                try:
                    w.fit(mat, show_progress=False, callback=cb)
                except Stop as e:
                    err = fired = e
        elif op["op"] == "index":
            annstub.arm(op["at"], {"interrupt": KeyboardInterrupt, "error": MemoryError}[op["exc"]]("injected"))
            with ctx.session():
                try:
                    w.fit(mat, show_progress=False)
                except BaseException as e:  # noqa
                    err = e
            fired = annstub.disarm()
        else:
            with ctx.session(py=True):
                _, err, fired = conc.faulty(ctx, {"kind": op["exc"], "at": op["at"]}, lambda: w.fit(mat, show_progress=False))
        if err is not None and not fired:
            raise err
        if err is None:
            ctx.check(not fired, "swallowed", "fit hid a failure of the index")
            cur, broken = op["which"], False
        else:
            ctx.fault("failed_training:" + op["op"])
            broken = True
            # the wrapped model may have been trained on either matrix
            if w.model.user_factors is None or w.model.item_factors is None:
                return
            if w.model.item_factors.shape[0] != mats[cur].shape[1] or w.model.user_factors.shape[0] != mats[cur].shape[0]:
                if w.model.item_factors.shape[0] != mat.shape[1] or w.model.user_factors.shape[0] != mat.shape[0]:
                    ctx.probe("half_replaced")
                    return
                cur = op["which"]
    ctx.note(w.model.user_factors, w.model.item_factors)


def args(q, mat, mat_t):
    idx = q["ids"] if isinstance(q["ids"], list) else [q["ids"]]
    a = np.array(q["ids"]) if isinstance(q["ids"], list) else q["ids"]
    kw = {"N": q["N"]}
    if q.get("filter") is not None:
        kw["filter_items"] = list(q["filter"])
    if q["op"] == "recommend":
        kw["filter_already_liked_items"] = q["liked"]
        if q["recalc"]:
            kw["recalculate_user"] = True
        return (a, mat[idx]), kw
    if q["recalc"]:
        kw.update(recalculate_item=True, item_users=mat_t[idx])
    return (a,), kw


def plan(case, model, q, mat, mat_t):
    """the query fitted to the current model, and the exact scores of every row's allowed items; None if it does not apply"""
    U, I = model.user_factors.shape[0], model.item_factors.shape[0]
    q = dict(q)
    tot = U if q["op"] == "recommend" else I
    q["ids"] = [i % tot for i in q["ids"]] if isinstance(q["ids"], list) else q["ids"] % tot
    if q.get("filter") is not None:
        q["filter"] = [i % I for i in q["filter"]]
    idx = q["ids"] if isinstance(q["ids"], list) else [q["ids"]]
    ref = common.build(case["k"])
    ref.user_factors, ref.item_factors = model.user_factors.copy(), model.item_factors.copy()
    Y = np.asarray(model.item_factors, np.float64)
    norms = np.linalg.norm(Y, axis=1)
    if q["op"] == "recommend":
        V = ref.recalculate_user(np.array(idx), mat[idx]) if q["recalc"] else model.user_factors[idx]
    else:
        V = ref.recalculate_item(np.array(idx), mat_t[idx]) if q["recalc"] else model.item_factors[idx]
    V = np.asarray(V, np.float64).reshape(len(idx), -1)
    rows, tols = [], []
    for r, v in zip(idx, V):
        allowed = np.ones(I, bool)
        allowed[q.get("filter") or []] = False
        if q["op"] == "recommend":
            s = Y.dot(v)
            tol = 2e-4 * (norms.max(initial=0) * np.linalg.norm(v) + 1e-12)
            if q["liked"]:
                allowed[mat[r].indices] = False
        else:
            d = norms * np.linalg.norm(v)
            s = np.divide(Y.dot(v), d, out=np.zeros(I), where=d > 0)
            tol = 2e-4
            if case["lib"] == "nmslib" and case["sim"]:
                allowed &= norms > 0  # items without factors are not indexed
        rows.append(np.where(allowed, s, -np.inf))
        tols.append(tol)
    # squares of factors this small vanish in single precision
    if any(((x > 0) & (x < 1e-15)).any() for x in (norms, np.linalg.norm(V, axis=1))) or (q["recalc"] and q["op"] != "recommend" and not V.any(axis=1).all()):
        return None
    q["N"] = min([q["N"]] + [int(np.isfinite(s).sum()) for s in rows])
    return (q, rows, tols) if q["N"] >= 1 else None


def verify(ctx, label, q, rows, tols, res):
    ids, sc = [np.asarray(x) for x in res]
    batch = isinstance(q["ids"], list)
    want = (len(rows), q["N"]) if batch else (q["N"],)
    ctx.check(ids.shape == want and sc.shape == want, "count", lambda: "%s: ids %s and scores %s instead of %s" % (label, ids.shape, sc.shape, want))
    ids, sc = np.atleast_2d(ids), np.atleast_2d(np.asarray(sc, np.float64))
    for r, (s, tol) in enumerate(zip(rows, tols)):
        x, y = ids[r], sc[r]
        ctx.check(len(set(x.tolist())) == len(x) and x.min() >= 0 and x.max() < len(s), "ids", lambda: "%s row %d: ids %s" % (label, r, x.tolist()))
        ctx.check(np.isfinite(s[x]).all(), "filter", lambda: "%s row %d: item %s was to be left out" % (label, r, x[~np.isfinite(s[x])].tolist()))
        ctx.check((np.abs(y - s[x]) <= tol).all(), "score", lambda: "%s row %d: items %s have scores %s, the model gives %s" % (label, r, x.tolist(), y.tolist(), s[x].tolist()))
        best = np.sort(s)[::-1][:len(x)]
        ctx.check((np.abs(s[x] - best) <= 2 * tol).all(), "ranking", lambda: "%s row %d: items %s with scores %s, the best are %s" % (label, r, x.tolist(), s[x].tolist(), best.tolist()))


def queries(case, ctx, w, mat, op, broken, n):
    mat_t = mat.T.tocsr()
    st = common.state_of(w.model)
    plans = []
    for th in op["threads"]:
        ps = [plan(case, w.model, q, mat, mat_t) for q in th]
        plans.append([(p, args(p[0], mat, mat_t)) for p in ps if p is not None])
    plans = [p for p in plans if p]
    if not plans:
        return
    f = op["fault"]

    def worker(t):
        def go():
            out = []
            for j, ((q, _, _), (a, kw)) in enumerate(plans[t]):
                def call():
                    return getattr(w, q["op"])(*a, **kw)
                if f and t == 0 and j == 0 and not broken:
                    res, err, fired = conc.faulty(ctx, f, call)
                    if fired:
                        out.append(("fault", None))
                        continue
                    if err is None:
                        out.append(("ok", res))
                        continue
                    out.append(("exc", err))
                    continue
                try:
                    out.append(("ok", call()))
                except (rt.Violation, rt.HarnessError):
                    raise
                except Exception as e:  # noqa
                    out.append(("exc", e))
            return out
        return go

    if len(plans) > 1:
        res = ctx.par([worker(t) for t in range(len(plans))])
        for _, e in res:
            if e is not None:
                raise e
        outs = [r for r, _ in res]
    else:
        with ctx.session(py=True):
            outs = [worker(0)()]
    for t, out in enumerate(outs):
        for (kind, res), ((q, rows, tols), _) in zip(out, plans[t]):
            if kind == "fault":
                continue
            if kind == "exc":
                if broken:
                    ctx.probe("raises_after_failed_training")
                    continue
                raise res
            verify(ctx, "%s %s after step %d%s" % (case["lib"], q["op"], n, " (a failed training)" if broken else ""), q, rows, tols, res)
            ctx.probe("answers_after_failed_training" if broken else "answers")
    ctx.check(common.state_of(w.model) == st, "model-changed", "queries changed the wrapped model")
