"""Ranking metrics equal their definitions over each test user's own recommendations."""
import math

import numpy as np
import scipy.sparse as sp

import implicit.evaluation as ev
from vsim import common, conc, gen

ID = "C20"
setup = conc.install_alloc_faults
FNS = {"precision": ev.precision_at_k, "map": ev.mean_average_precision_at_k, "ndcg": ev.ndcg_at_k, "auc": ev.AUC_at_k}


class Table:
    """a model with a fixed list of recommendations per user"""

    def __init__(self, table, train):
        self.table, self.train, self.calls, self.fail = table, train, 0, 0

    def recommend(self, userid, user_items, N=10, filter_already_liked_items=True, filter_items=None, recalculate_user=False, items=None):
        self.calls += 1
        if self.fail and self.calls == self.fail:
            raise RuntimeError("injected")
        single = np.isscalar(userid)
        u = np.atleast_1d(np.asarray(userid))
        if filter_already_liked_items:
            want = self.train[u]
            ok = user_items.shape == want.shape and np.array_equal(user_items.indptr, want.indptr) and np.array_equal(user_items.indices, want.indices)
            if not ok:
                raise AssertionError("the rows of user_items are not those of the users asked for")
        ids = self.table[u][:, :N].astype(np.int32)
        scores = np.tile(np.linspace(1, 0, N, dtype=np.float32), (len(u), 1))
        return (ids[0], scores[0]) if single else (ids, scores)


def new_case(r, i=0):
    what = r.choice(["table", "table", "mf", "mf", "knn"])
    m = gen.matrix_case(r, max_users=40, max_items=40, neg=False)
    m["items"] = max(4, m["items"])
    m["unsorted"] = False
    c = {"what": what, "m": m, "tseed": r.randrange(1 << 30), "tden": r.choice([0.05, 0.2, 0.5]), "tempty": r.choice([0.0, 0.3, 0.8]),
         "K": r.choice([1, 2, 3, 5, 10, 20, 30]), "dup": r.random() < 0.1, "fmt": r.choice(["csr", "csr", "coo", "csc"]), "num": r.choice([1, 1, 0, 2, 4]), "overlap": r.random() < 0.2,
         "par": r.choice([0, 0, 2, 3]), "progress": r.random() < 0.15, "fn": r.choice(["all", "all", "precision", "map", "ndcg", "auc"]),
         "fault": r.choice([None, None, None, "alloc", "model"]), "at": r.randint(1, 3), "values": r.choice(["one", "int"])}
    if what == "table":
        m["users"] = r.choice([1, 2, 7, 40, 300, 999, 1000, 1001, 1500, 2000, 2001, 2300])
        m["density"] = min(m["density"], 0.25)
        c["hit"] = r.choice([0.0, 0.1, 0.5, 0.9, 1.0])
        c["pad"] = r.choice([0.0, 0.0, 0.3])
    else:
        c["k"] = common.model_case(r, common.MF if what == "mf" else common.KNN)
        if c["k"].get("iters"):
            c["k"]["iters"] = 1
        if r.random() < 0.08:
            m["users"], m["items"] = r.choice([1001, 1200, 2005]), min(m["items"], 12)
            m["density"], c["par"] = min(m["density"], 0.25), 0
            if what == "mf":
                c["k"]["kind"] = "als" if c["k"]["kind"] == "als" else "als"
                c["k"] = common.model_case(r, ("als",))
                c["k"]["iters"], c["k"]["loss"] = 1, False
    return c


def strategy(r, case):
    return gen.strategy(r, py=True)


def data(case):
    g = gen.rs(case["tseed"])
    train = gen.matrix(case["m"], np.float32, min_nnz=2)
    U, I = train.shape
    dense = train.toarray() != 0
    test = g.random_sample((U, I)) < case["tden"]
    if not case["overlap"]:
        test &= ~dense
    test[g.random_sample(U) < case["tempty"]] = False
    for u in range(U):
        pos = np.nonzero(test[u])[0]
        if len(pos) > I // 2:
            test[u, g.permutation(pos)[:len(pos) - I // 2]] = False
    return train, test, g


def fmt(test, case, g):
    r, c = np.nonzero(test)
    v = np.ones(len(r)) if case["values"] == "one" else g.randint(1, 6, len(r))
    m = sp.csr_matrix((v.astype(np.float32), (r, c)), shape=test.shape)
    if case["dup"] and case["fmt"] == "csr":
        # the same item more than once
        n = 1 + (g.random_sample(m.nnz) < 0.3)
        row = np.repeat(np.arange(m.shape[0]), np.diff(m.indptr))
        return sp.csr_matrix((np.repeat(m.data, n), np.repeat(m.indices, n), np.concatenate([[0], np.cumsum(np.bincount(row, weights=n, minlength=m.shape[0]))]).astype(np.int32)), shape=m.shape)
    return m.asformat(case["fmt"])


def near_ties(case, model, train, u, test_u, K):
    """true if rounding could change which test items the user's list holds, or where"""
    s = np.asarray(model.item_factors, np.float64).dot(np.asarray(model.user_factors[u], np.float64))
    liked = np.zeros(len(s), bool)
    liked[train[u].indices] = True
    s = np.where(liked, -np.inf, s)
    o = np.argsort(-s)
    tol = 2e-5 * (np.abs(s[np.isfinite(s)]).max(initial=0) + 1e-9)
    for a in range(min(K + 1, len(o) - 1)):
        x, y = s[o[a]], s[o[a + 1]]
        if test_u[o[a]] != test_u[o[a + 1]] and not (x - y > tol):
            return True
        if not np.isfinite(y):
            return bool(test_u[liked].any())
        if x - y <= tol:
            # a run of equal scores: look at it as a whole
            e = a + 1
            while e + 1 < len(o) and s[o[e]] - s[o[e + 1]] <= tol:
                e += 1
            if len(set(test_u[o[a:e + 1]].tolist())) > 1:
                return True
    return False


def definition(lists, test, K, items):
    """the metrics from each test user's top-K list, in exact-enough arithmetic"""
    hits_all = div = 0
    ap, ndcg, auc, n = [], [], [], 0
    for u, ids in lists.items():
        like = set(np.nonzero(test[u])[0].tolist())
        n += 1
        m = min(K, len(like))
        hit = [int(x) in like for x in ids]
        hits_all += sum(hit)
        div += m
        ap.append(math.fsum(sum(hit[:i + 1]) / (i + 1) for i in range(K) if hit[i]) / m)
        ideal = math.fsum(1 / math.log2(i + 2) for i in range(m))
        ndcg.append(math.fsum(1 / math.log2(i + 2) for i in range(K) if hit[i]) / ideal)
        pos, neg = len(like), items - len(like)
        miss = K - sum(hit)
        # pairs in the right order: within the list, then half of those outside it
        area = sum(sum(hit[:i]) for i in range(K) if not hit[i]) + (sum(hit) + pos) / 2.0 * (neg - miss)
        auc.append(area / (pos * neg))
    return {"precision": hits_all / div, "map": math.fsum(ap) / n, "ndcg": math.fsum(ndcg) / n, "auc": math.fsum(auc) / n}


def prepare(case, ctx):
    train, test, g = data(case)
    U, I = train.shape
    K = min(case["K"], I if case["what"] == "table" else I // 2)
    if case["what"] == "table":
        table = np.zeros((U, K), np.int64)
        for u in range(U):
            pos = g.permutation(np.nonzero(test[u])[0]).tolist()
            neg = g.permutation(np.nonzero(~test[u])[0]).tolist()
            for k in range(K):
                take = (g.random_sample() < case["hit"] and pos) or not neg
                table[u, k] = (pos if take else neg).pop()
            if g.random_sample() < case["pad"]:
                table[u, g.randint(0, K):] = -1
        model = Table(table, train)
        lists = {u: table[u] for u in range(U) if test[u].any()}
        return train, test, g, K, model, lists, None
    dt = np.float64 if case["what"] == "knn" else np.float32
    mat = train.astype(dt)
    model = common.build(case["k"])
    with ctx.session():
        model.fit(mat, show_progress=False)
    if not common.usable(model):
        ctx.probe("diverged")
        return None
    if case["what"] == "mf":
        for u in np.nonzero(test.any(axis=1))[0]:
            if near_ties(case, model, mat, u, test[u], K):
                test[u] = False
                ctx.probe("tied_user" if mat.indptr[u + 1] > mat.indptr[u] else "empty_user")
    fresh = common.fresh_copy(model, case["k"])
    lists = {}
    for u in np.nonzero(test.any(axis=1))[0]:
        ids, _ = fresh.recommend(int(u), mat[int(u)], N=K)
        ids = np.asarray(ids)[:K]
        ctx.probe("ranked_user" if case["what"] == "mf" else "knn_user")
        lists[int(u)] = np.concatenate([ids, np.full(K - len(ids), -1)]) if len(ids) < K else ids
    return mat, test, g, K, model, lists, fresh


def run(case, ctx):
    p = prepare(case, ctx)
    if p is None:
        return
    train, test, g, K, model, lists, _ = p
    if not lists:
        ctx.probe("no_test_users")
        return
    ctx.probe("users_over_1000" if len(lists) > 1000 else "users_up_to_1000")
    want = definition(lists, test, K, test.shape[1])
    te = fmt(test, case, g)
    tr = train if case["fmt"] == "csr" else train.asformat(case["fmt"])
    state = None if case["what"] == "table" else common.state_of(model)
    snap = [x.copy() for x in (tr, te)]

    def evaluate():
        if case["fn"] == "all":
            return ev.ranking_metrics_at_k(model, tr, te, K=K, show_progress=case["progress"], num_threads=case["num"])
        return {case["fn"]: FNS[case["fn"]](model, tr, te, K=K, show_progress=case["progress"], num_threads=case["num"])}

    def verify(got, label):
        ctx.check(set(got) == (set(want) if case["fn"] == "all" else {case["fn"]}), "form", "the metrics are %s" % sorted(got))
        for k, v in got.items():
            ctx.check(abs(v - want[k]) <= 1e-9 * (1 + abs(want[k])) if math.isfinite(v) else False, k, lambda: "%s: %s at %d is %r, its definition over %d test users gives %r" % (
                label, k, K, v, len(lists), want[k]))
            ctx.note("%.7f" % v)

    f = case["fault"]
    if f == "model" and case["what"] == "table":
        model.fail = model.calls + case["at"]
        with ctx.session():
            try:
                got = evaluate()
            except RuntimeError:
                ctx.fault("failing_model")
                got = None
        ctx.check((got is None) == (model.calls >= model.fail), "swallowed", "the model failed but the evaluation returned a result")
        model.fail = 0
    elif f == "alloc":
        with ctx.session():
            _, err, fired = conc.faulty(ctx, {"kind": "alloc", "at": case["at"]}, evaluate)
        if err is not None and not fired:
            raise err
    if case["par"]:
        fns = [evaluate] * case["par"]
        if case["what"] != "table":
            us = sorted(lists)[:6]
            fns.append(lambda: [model.recommend(u, train[u], N=K) for u in us] and None)
        for n, (got, err) in enumerate(ctx.par(fns)):
            if err is not None:
                raise err
            if got is not None:
                verify(got, "evaluation %d of %d at the same time" % (n, case["par"]))
    else:
        with ctx.session():
            got = evaluate()
        verify(got, "one evaluation")
    if state is not None:
        ctx.check(common.state_of(model) == state, "model-changed", "the evaluation changed the model")
    for a, b in zip(snap, (tr, te)):
        ctx.check(a.shape == b.shape and (a != b).nnz == 0, "input", "the evaluation changed its input")
