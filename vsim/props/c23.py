"""Native code stays inside the arrays it was given, for all arguments, histories and schedules."""
import warnings

import numpy as np
import scipy.sparse as sp

import implicit.evaluation as ev
import implicit.nearest_neighbours as nn
import simrt
from vsim import common, conc, gen, rt

ID = "C23"
OK = (Exception,)
BIG = [10 ** 6, 2 ** 31 - 1, -1, -10 ** 6, -2 ** 31]


def ids_case(r, n, odd):
    """ids for a query on n rows; odd ones included if asked for"""
    k = r.choice([0, 0, 1, 2, 3, 7, 130, 230])
    if not k:
        x = r.randrange(n)
        return r.choice([n, n + 1, 2 * n] + BIG) if odd and r.random() < 0.3 else x
    v = [r.randrange(n) for _ in range(k)]
    if odd and r.random() < 0.4:
        for _ in range(r.choice([1, 2])):
            v[r.randrange(k)] = r.choice([n, n + 1, n + 7] + BIG)
    if odd and r.random() < 0.05:
        v = []
    return v


def list_case(r, n, odd):
    v = [r.randrange(n) for _ in range(r.choice([1, 2, 5, n, 2 * n]))]
    if odd and r.random() < 0.5:
        v[r.randrange(len(v))] = r.choice([n, n + 1, n + 3, n + 64] + BIG)
    if odd and r.random() < 0.1:
        v = []
    return v


def query(r, kind, U, I):
    odd = r.random() < 0.5
    ops = ["recommend"] * 4 + ["similar_items"] * 3
    if kind in common.MF:
        ops += ["similar_users"] * 2
    if kind == "als":
        ops += ["recalculate_user", "recalculate_item", "explain", "partial_users", "partial_items"]
    q = {"op": r.choice(ops), "mseed": r.randrange(1 << 30)}
    tot = U if q["op"] in ("recommend", "similar_users", "recalculate_user", "explain", "partial_users") else I
    q["ids"] = ids_case(r, tot, odd)
    q["N"] = r.choice([1, 2, 5, 10, 20]) if not odd or r.random() < 0.7 else r.choice([0, I, I + 1, 2 * I + 5, 1000, -1])
    if r.random() < 0.35:
        q["filter"] = list_case(r, I if q["op"] != "similar_users" else U, odd)
    elif r.random() < 0.3:
        q["items"] = list_case(r, I if q["op"] != "similar_users" else U, odd)
    q["liked"] = r.random() < 0.6
    q["recalc"] = kind == "als" and r.random() < 0.3
    # the matrix of the rows: right, with other columns, with other rows
    q["cols"] = r.choice([0, 0, 0, 1, 7, 64, -1, -3]) if odd else 0
    q["rows"] = r.choice([0, 0, 0, 0, 1, -1, 5]) if odd else 0
    q["dt"] = r.choice(["f4", "f4", "f8", "i4", "i8"])
    q["idx64"] = r.random() < 0.15
    q["item"] = r.choice([r.randrange(I)] * 3 + [I, I + 9] + BIG) if odd else r.randrange(I)
    return q


def new_case(r, i=0):
    kinds = common.MF + common.KNN
    m = gen.matrix_case(r, max_users=40, max_items=40, neg=r.random() < 0.2, zeros=True)
    m["density"] = r.choice([m["density"], m["density"], 0.0, 1.0 if m["users"] * m["items"] < 3000 else m["density"]])
    k = common.model_case(r, kinds)
    k["iters"] = r.choice([1, 1, 2])
    c = {"m": m, "k": k, "idx64": r.random() < 0.15, "dup": r.random() < 0.15, "threads": r.choice([1, 1, 2, 3])}
    ops = []
    U, I = m["users"], m["items"]
    for _ in range(r.choice([1, 2, 3, 4])):
        w = r.choice(["query"] * 6 + ["refit", "metrics", "split", "knn", "assign", "weights"])
        if w == "query":
            ops.append({"op": "query", "qs": [query(r, k["kind"], U, I) for _ in range(r.choice([1, 2, 3]))]})
        elif w == "refit":
            ops.append({"op": "refit", "users": r.choice([U, U, U + 1, U + 9, max(1, U - 1), 1]), "items": r.choice([I, I, I + 1, I + 17, max(1, I - 1), 1]),
                        "mseed": r.randrange(1 << 30), "reset": r.random() < 0.2})
        elif w == "metrics":
            ops.append({"op": "metrics", "mseed": r.randrange(1 << 30), "K": r.choice([1, 5, 10, I, I + 1, 2 * I + 3, 0, 100]), "users": r.choice([U, U, U + 3, max(1, U - 2)]),
                        "items": r.choice([I, I, I + 4, max(1, I - 2)]), "tusers": r.choice([U, U, U + 3]), "titems": r.choice([I, I, I + 4])})
        elif w == "split":
            ops.append({"op": "split", "K": r.choice([1, 2, 5, 100]), "p": r.choice([0.0, 0.5, 1.0]), "only": r.choice([0.0, 0.3]), "seed": r.randrange(1 << 30)})
        elif w == "knn":
            ops.append({"op": "knn", "K": r.choice([1, 3, 20, 1000, 0, -1]), "threads": r.choice([0, 1, 3]), "f32": r.random() < 0.3})
        elif w == "assign":
            ops.append({"op": "assign", "du": r.choice([0, 1, 3]), "di": r.choice([0, 1, 3]), "df": r.choice([0, 0, 1]), "order": r.choice(["C", "F", "strided"]), "mseed": r.randrange(1 << 30)})
        else:
            ops.append({"op": "weights"})
    c["ops"] = ops
    return c


def strategy(r, case):
    return gen.strategy(r, py=True)


def rows_matrix(q, n, cols):
    g = gen.rs(q["mseed"])
    m = sp.random(max(0, n + q["rows"]), max(1, cols + q["cols"]), density=g.choice([0.1, 0.4, 0.9]), format="csr", random_state=g, dtype=np.float64)
    m.data = np.round(m.data * 5)
    m = m.astype({"f4": np.float32, "f8": np.float64, "i4": np.int32, "i8": np.int64}[q["dt"]])
    if q["idx64"]:
        m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
    return m


def attempt(ctx, name, fn):
    """the call may raise; what it may not do is touch other memory (or crash, or hang)"""
    try:
        fn()
        ctx.probe("returned:" + name)
    except (rt.Violation, rt.HarnessError):
        raise
    except OK:
        ctx.probe("raised:" + name)


def oob(ctx, label):
    r = simrt.oob()
    if r is None:
        ctx.check(True, "", "")
        return
    n, rw, size, what, dist, mod, off = r
    where = {0xfa: "%d bytes before the start of a block" % -dist, 0xfb: "%d bytes past the end of a block" % dist, 0xfd: "in a block that was freed"}[what]
    ctx.check(False, "out-of-bounds", "%s: %d-byte %s %s in %s (%d such accesses)" % (label, size, rw, where, mod.split(".")[0], n))


def run_query(ctx, model, q, U, I):
    op = q["op"]
    a = np.array(q["ids"]) if isinstance(q["ids"], list) else q["ids"]
    n = len(q["ids"]) if isinstance(q["ids"], list) else 1
    kw = {}
    if op in ("recommend", "similar_items", "similar_users"):
        kw["N"] = q["N"]
        names = ("filter_users", "users") if op == "similar_users" else ("filter_items", "items")
        if q.get("filter") is not None:
            kw[names[0]] = list(q["filter"])
        if q.get("items") is not None:
            kw[names[1]] = np.array(q["items"])
    if op == "recommend":
        kw["filter_already_liked_items"] = q["liked"]
        if q["recalc"]:
            kw["recalculate_user"] = True
        attempt(ctx, op, lambda: model.recommend(a, rows_matrix(q, n, I), **kw))
    elif op == "similar_items":
        if q["recalc"]:
            kw.update(recalculate_item=True, item_users=rows_matrix(q, n, U))
        attempt(ctx, op, lambda: model.similar_items(a, **kw))
    elif op == "similar_users":
        attempt(ctx, op, lambda: model.similar_users(a, **kw))
    elif op == "recalculate_user":
        attempt(ctx, op, lambda: model.recalculate_user(a, rows_matrix(q, n, I)))
    elif op == "recalculate_item":
        attempt(ctx, op, lambda: model.recalculate_item(a, rows_matrix(q, n, U)))
    elif op == "explain":
        u = q["ids"][0] if isinstance(q["ids"], list) and q["ids"] else q["ids"]
        m = rows_matrix(dict(q, rows=q["rows"]), U, I)
        attempt(ctx, op, lambda: model.explain(u, m, q["item"], N=q["N"]))
    else:
        users = op == "partial_users"
        # new rows are made for ids up to the largest one
        ids = [x for x in np.atleast_1d(a).tolist() if x < 500]
        m = rows_matrix(q, len(ids), I if users else U)
        fn = model.partial_fit_users if users else model.partial_fit_items
        attempt(ctx, op, lambda: fn(np.array(ids), m))


def run(case, ctx):
    warnings.simplefilter("ignore")
    if not simrt.guarded():
        raise rt.HarnessError("the memory guard is not active")
    kind = case["k"]["kind"]
    base = gen.matrix(case["m"], np.float64 if kind in common.KNN else np.float32, min_nnz=0)
    if case["dup"] and base.nnz:
        c = base.tocoo()
        base = sp.csr_matrix(base.shape, dtype=base.dtype)
        order = np.argsort(np.concatenate([c.row, c.row]), kind="stable")
        base.data = np.concatenate([c.data, c.data])[order]
        base.indices = np.concatenate([c.col, c.col])[order].astype(np.int32)
        base.indptr = np.concatenate([[0], np.cumsum(np.bincount(np.concatenate([c.row, c.row]), minlength=base.shape[0]))]).astype(np.int32)
    if case["idx64"]:
        base.indices, base.indptr = base.indices.astype(np.int64), base.indptr.astype(np.int64)
    model = common.build(case["k"])
    simrt.oob()
    with ctx.session():
        attempt(ctx, "fit", lambda: model.fit(base, show_progress=False))
    oob(ctx, "%s.fit" % kind)
    if getattr(model, "item_factors", None) is None and getattr(model, "similarity", None) is None:
        return
    U, I = base.shape
    for n, op in enumerate(case["ops"]):
        w = op["op"]
        label = "%s: step %d (%s)" % (kind, n, w)
        if w == "query":
            label += " " + ",".join(q["op"] for q in op["qs"])
            if case["threads"] > 1 and len(op["qs"]) > 1 and not any(q["op"].startswith("partial") for q in op["qs"]):
                for _, e in ctx.par([(lambda q=q: run_query(ctx, model, q, U, I)) for q in op["qs"]]):
                    if e is not None:
                        raise e
                oob(ctx, label)
            else:
                for q in op["qs"]:
                    with ctx.session():
                        run_query(ctx, model, q, U, I)
                    oob(ctx, "%s: step %d %s" % (kind, n, q["op"]))
        elif w == "refit":
            if op["reset"] and hasattr(model, "item_factors"):
                model.item_factors = model.user_factors = None
            m = gen.matrix(dict(case["m"], users=op["users"], items=op["items"], mseed=op["mseed"]), base.dtype, min_nnz=0)
            with ctx.session():
                attempt(ctx, w, lambda: model.fit(m, show_progress=False))
            if getattr(model, "item_factors", 1) is None:
                return
            if not hasattr(model, "item_factors"):
                U, I = m.shape
        elif w == "metrics":
            g = gen.rs(op["mseed"])
            tr = sp.random(op["users"], op["items"], 0.2, format="csr", random_state=g, dtype=np.float32)
            te = sp.random(op["tusers"], op["titems"], 0.2, format="csr", random_state=g, dtype=np.float32)
            with ctx.session():
                attempt(ctx, w, lambda: ev.ranking_metrics_at_k(model, tr, te, K=op["K"], show_progress=False))
        elif w == "split":
            with ctx.session():
                attempt(ctx, w, lambda: ev.train_test_split(base, op["p"], op["seed"]))
                attempt(ctx, w, lambda: ev.leave_k_out_split(base, op["K"], op["only"], op["seed"]))
        elif w == "knn":
            m = base.astype(np.float32 if op["f32"] else np.float64)
            with ctx.session():
                attempt(ctx, w, lambda: nn.all_pairs_knn(m, op["K"], num_threads=op["threads"], show_progress=False))
        elif w == "weights":
            attempt(ctx, w, lambda: (nn.bm25_weight(base), nn.tfidf_weight(base), nn.normalize(base)))
        elif w == "assign" and hasattr(model, "item_factors"):
            g = gen.rs(op["mseed"])
            f = model.item_factors.shape[1]
            dt = model.item_factors.dtype

            def arr(rows, cols):
                x = g.random_sample((rows, cols)).astype(dt)
                return {"C": lambda: x, "F": lambda: np.asfortranarray(x), "strided": lambda: np.repeat(np.repeat(x, 2, 0), 2, 1)[::2, ::2]}[op["order"]]()
            model = common.build(case["k"])
            model.user_factors, model.item_factors = arr(U + op["du"], f), arr(I + op["di"], f + op["df"])
        oob(ctx, label)
        if hasattr(model, "item_factors"):
            U, I = model.user_factors.shape[0], model.item_factors.shape[0]
    ctx.note("done")
