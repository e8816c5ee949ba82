"""A parallel batch query answers every row as the row alone, filters honoured."""
import numpy as np

from vsim import common, gen

ID = "C07"
ROWS = [1, 2, 3, 7, 40, 99, 100, 101, 150, 199, 200, 201, 230, 300, 305, 420]
LOW = -1e30


def new_case(r, i=0):
    m = gen.matrix_case(r, max_users=40, max_items=40, neg=False)
    m["users"], m["items"] = max(2, m["users"]), max(2, m["items"])
    k = common.model_case(r, ("als", "als", "bpr", "lmf") + common.KNN)
    q = common.query_case(r, k["kind"], m["users"], m["items"])
    while q["op"] not in ("recommend", "similar_items", "similar_users"):
        q = common.query_case(r, k["kind"], m["users"], m["items"])
    if r.random() < 0.3 and (q["op"] == "recommend" and q.get("items") is not None or k["kind"] in common.KNN and q.get("items") is None):
        q["N"] += r.choice([m["items"], 1, 2, 7])
    n = r.choice(ROWS)
    if k["kind"] in common.KNN:
        n = min(n, 40)
    if r.random() < 0.03 and k["kind"] not in common.KNN:
        n = r.choice([999, 1000, 1203])
    return {"m": m, "k": k, "q": q, "rows": n, "qseed": r.randrange(1 << 30), "other": r.random() < 0.5, "py": r.random() < 0.4,
            "zero": r.choice([0.0, 0.0, 0.2])}


def strategy(r, case):
    s = gen.strategy(r, py=True)
    if case["rows"] > 300:
        s["p_mem"] = min(s.get("p_mem", 0), 1e-3)
        s["p_py"] = min(s.get("p_py", 0), 0.02)
    return s


def run(case, ctx):
    kind = case["k"]["kind"]
    knn = kind in common.KNN
    mat = gen.matrix(case["m"], np.float64 if knn else np.float32, min_nnz=2)
    model = common.build(case["k"])
    model.fit(mat, show_progress=False)
    g = gen.rs(case["qseed"])
    U, I = mat.shape
    if knn and not np.isfinite(model.similarity.data).all():
        ctx.probe("undefined_weights")
        return
    if not knn:
        if not common.usable(model):
            ctx.probe("diverged")
            return
        if case["zero"]:
            model.user_factors[g.random_sample(U) < case["zero"]] = 0
            model.item_factors[g.random_sample(I) < case["zero"]] = 0
        model = common.fresh_copy(model, case["k"])
    q = dict(case["q"])
    op = q["op"]
    tot = I if op == "similar_items" else U
    n = case["rows"]
    ids = g.randint(0, tot, n)
    src = g.randint(0, U, n) if case["other"] or tot != U else ids
    if op == "similar_items" and q.get("recalc"):
        src = g.randint(0, I, n) if case["other"] else ids
    liked = mat[src] if op == "recommend" else None
    kw = dict(N=q["N"])
    if op == "recommend":
        kw["filter_already_liked_items"] = q["liked"]
        if q.get("recalc"):
            kw["recalculate_user"] = True
    if q.get("filter") is not None:
        kw["filter_users" if op == "similar_users" else "filter_items"] = list(q["filter"])
    if q.get("items") is not None:
        kw["users" if op == "similar_users" else "items"] = np.array(q["items"])
    mt = mat.T.tocsr()
    if op == "similar_items" and q.get("recalc"):
        kw.update(recalculate_item=True, item_users=mt[src])
    fresh = common.fresh_copy(model, case["k"])
    with ctx.session(py=case["py"]):
        if op == "recommend":
            bi, bs = model.recommend(ids, liked, **kw)
        else:
            bi, bs = getattr(model, op)(ids, **kw)
    ctx.note(bi, bs)
    cols = U if op == "similar_users" else I
    N = q["N"]
    if not knn and op == "recommend" and q.get("items") is not None:
        N = min(N, len(q["items"]))  # never more results than candidates
    ctx.check(bi.shape == (n, N) and bs.shape == (n, N), "shape", "result shapes %s %s for %d rows, N=%d" % (bi.shape, bs.shape, n, N))
    cand = np.zeros(cols, bool)
    cand[q["items"] if q.get("items") is not None else slice(None)] = True
    barred = np.zeros(cols, bool)
    if q.get("filter") is not None:
        barred[q["filter"]] = True
    f32 = True if knn else model.user_factors.dtype == np.float32
    memo = {}
    for row in range(n):
        key = (int(ids[row]), int(src[row]))
        if key not in memo:
            # the row alone, on a fresh copy, and the exact scores
            a = int(ids[row])
            kw1 = dict(kw)
            if op == "recommend":
                l1 = mat[[int(src[row])]]
                si, ss = fresh.recommend(a, l1, **kw1)
            else:
                if "item_users" in kw1:
                    kw1["item_users"] = mt[[int(src[row])]]
                si, ss = getattr(fresh, op)(a, **kw1)
            memo[key] = (np.asarray(si), np.asarray(ss)) + exact(case, q, fresh, mat, mt, a, int(src[row]), f32)
        si, ss, score, touched, tol = memo[key]
        own = np.zeros(cols, bool)
        if op == "recommend" and q["liked"]:
            own[mat.indices[mat.indptr[src[row]]:mat.indptr[src[row] + 1]]] = True
        label = "%s row %d (id %d)" % (op, row, ids[row])
        verify(ctx, label, knn, bi[row], bs[row], score, touched, cand, barred, own, tol, N, batch=True, items=q.get("items") is not None)
        if key and not memo.get(("seen", key)):
            memo[("seen", key)] = True
            verify(ctx, label + " alone", knn, si, ss, score, touched, cand, barred, own, tol, N, batch=op != "recommend", items=q.get("items") is not None, pad=False)
        # same scores position by position
        k = min(len(ss), N)
        b, s = bs[row][:k].astype(float), ss[:k].astype(float)
        ok = (np.abs(b - s) <= 2 * tol) | ((b < LOW) & (s < LOW))
        ctx.check(bool(ok.all()), "batch-differs", lambda: "%s: batch scores %s, alone %s" % (label, b[:6].tolist(), s[:6].tolist()))
    ctx.probe("rows", n)


def exact(case, q, m, mat, mt, a, src, f32):
    """(score of every candidate column, columns that can be returned, tolerance)"""
    op = q["op"]
    eps = 3e-5 if f32 else 1e-11
    if case["k"]["kind"] in common.KNN:
        S = m.similarity
        I = S.shape[0]
        if op == "similar_items":
            sc, t = np.zeros(I), np.zeros(I, bool)
            ix = S.indices[S.indptr[a]:S.indptr[a + 1]]
            sc[ix] = S.data[S.indptr[a]:S.indptr[a + 1]]
            t[ix] = True
        else:
            sc, t = np.zeros(I), np.zeros(I, bool)
            for p in range(mat.indptr[src], mat.indptr[src + 1]):
                i = mat.indices[p]
                ix = S.indices[S.indptr[i]:S.indptr[i + 1]]
                sc[ix] += S.data[S.indptr[i]:S.indptr[i + 1]] * float(mat.data[p])
                t[ix] = True
        return sc, t, eps * (np.abs(sc).max(initial=0) + 1e-12)
    X, Y = m.user_factors.astype(float), m.item_factors.astype(float)
    allc = np.ones(len(X) if op == "similar_users" else len(Y), bool)
    if op == "recommend":
        u = X[a] if not q.get("recalc") else m.recalculate_user(a, mat[[src]]).astype(float)
        sc = Y.dot(u)
        return sc, allc, eps * (np.abs(Y).dot(np.abs(u)).max(initial=0) + 1e-12) * (20 if q.get("recalc") else 1)
    F = X if op == "similar_users" else Y
    v = F[a] if not q.get("recalc") else m.recalculate_item(a, mt[[src]]).astype(float)
    nf = np.linalg.norm(F, axis=1)
    nf[nf == 0] = 1e-10
    nv = np.linalg.norm(v) or 1e-10
    return F.dot(v) / nf / nv, allc, eps * 3


def verify(ctx, label, knn, ids, sc, score, touched, cand, barred, own, tol, N, batch, items, pad=True):
    allowed = cand & ~barred & ~own
    sc = sc.astype(float)
    if knn:
        # entries that were never touched are absent; padding is -1 in batches
        if items and not batch:
            ctx.check(sorted(ids.tolist()) == np.nonzero(cand)[0].tolist(), "candidates", lambda: "%s: returned %s for the candidate list %s" % (
                label, sorted(ids.tolist()), np.nonzero(cand)[0].tolist()))
        real = sc > LOW
        padded, pad = pad, ~real
        ctx.check(not (pad[:-1] & real[1:]).any(), "order", lambda: "%s: padding before results: %s" % (label, sc.tolist()))
        if padded and not items:
            ctx.check(bool((ids[pad] == -1).all()), "padding", lambda: "%s: padding ids %s" % (label, ids[pad].tolist()))
        ids, sc = ids[real], sc[real]
        eff = np.where(own, 0.0, score)
        can = touched & cand & ~barred
        want = np.sort(eff[can])[::-1][:N if not (items and not batch) else None]
        ctx.check(len(ids) == len(want), "count", lambda: "%s: %d results, %d expected" % (label, len(ids), len(want)))
    else:
        eff = np.where(allowed, score, -np.inf)
        can = cand
        want = np.sort(eff[can])[::-1][:N]
        ctx.check(len(ids) == N, "count", lambda: "%s: %d results, %d expected" % (label, len(ids), N))
    ctx.check(len(set(ids.tolist())) == len(ids), "duplicate", lambda: "%s: an id occurs twice: %s" % (label, ids.tolist()))
    ctx.check(ids.size == 0 or (0 <= ids.min() and ids.max() < len(cand) and cand[ids].all()), "outside-candidates", lambda: "%s: ids %s outside the candidates" % (label, ids.tolist()))
    ctx.check(not (sc[1:] > sc[:-1]).any(), "order", lambda: "%s: scores not descending %s" % (label, sc.tolist()[:8]))
    fin = np.isfinite(want)
    if knn:
        ctx.check(not barred[ids].any(), "filtered", lambda: "%s: filtered items %s returned" % (label, ids[barred[ids]].tolist()))
    else:
        na = int(fin.sum())
        ctx.check(bool(allowed[ids[:na]].all()), "filtered", lambda: "%s: filtered or liked id ranked before an allowed one: %s" % (label, ids[:na][~allowed[ids[:na]]].tolist()))
        ctx.check(bool((sc[na:] < LOW).all()), "filtered-score", lambda: "%s: disallowed entries have scores %s" % (label, sc[na:].tolist()))
        ids, sc, want = ids[:na], sc[:na], want[:na]
    true = eff[ids]
    ctx.check(bool(np.all(np.abs(sc - true) <= tol)), "score", lambda: "%s: scores %s, exact %s" % (label, sc[:6].tolist(), true[:6].tolist()))
    ctx.check(bool(np.all(np.abs(sc - want) <= tol)), "not-best", lambda: "%s: scores %s, the best are %s" % (label, sc[:6].tolist(), want[:6].tolist()))
