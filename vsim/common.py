"""Model and query library shared by the properties."""
import copy
import io as stdio
import pickle

import numpy as np
import scipy.sparse as sp

import implicit.als
import implicit.bpr
import implicit.lmf
import implicit.nearest_neighbours as nn
from implicit.cpu.als import AlternatingLeastSquares
from implicit.cpu.bpr import BayesianPersonalizedRanking
from implicit.cpu.lmf import LogisticMatrixFactorization
from vsim import gen, rt

MF = ("als", "bpr", "lmf")
KNN = ("item", "cosine", "tfidf", "bm25")
KCLS = {"item": nn.ItemItemRecommender, "cosine": nn.CosineRecommender, "tfidf": nn.TFIDFRecommender, "bm25": nn.BM25Recommender}
CLS = {"als": AlternatingLeastSquares, "bpr": BayesianPersonalizedRanking, "lmf": LogisticMatrixFactorization, **KCLS}


FACTORY = {"als": implicit.als.AlternatingLeastSquares, "bpr": implicit.bpr.BayesianPersonalizedRanking, "lmf": implicit.lmf.LogisticMatrixFactorization}


def maker(kind, seed):
    """the class, or the factory function that users call"""
    if isinstance(seed, int) and seed % 2:
        return lambda **kw: FACTORY[kind](use_gpu=False, **kw)
    return CLS[kind]


def model_case(r, kinds=MF + KNN, small=True):
    k = r.choice(kinds)
    c = {"kind": k, "threads": r.choice([0, 0, 1, 2, 3, 4])}
    if k in KCLS:
        c["K"] = r.choice([1, 2, 3, 5, 8, 20])
        if k == "bm25":
            c["K1"], c["B"] = r.choice([1.2, 0.7, 100.0]), r.choice([0.75, 0.2, 0.9, 0.0, 1.0])
        return c
    c.update(factors=r.choice([1, 2, 3, 4, 6, 8]), iters=r.choice([1, 1, 2, 3]), seed=r.randrange(1 << 30),
             f32=r.random() < 0.6)
    if r.random() < 0.12:
        c["seed"] = r.choice([0, 0, 0, 1, (1 << 40) + r.randrange(1 << 20)])
    if r.random() < 0.05:
        c["factors"] = r.choice([15, 16, 17, 31, 32, 33, 64, 65, 100])
    if k == "als":
        c.update(reg=r.choice([0.1, 1.0, 5.0]), alpha=r.choice([1.0, 1.0, 2.0, 5.0, 0.5]), cg=r.random() < 0.6,
                 loss=r.random() < 0.2)
    elif k == "bpr":
        c.update(reg=r.choice([0.0, 0.01, 0.1]), lr=r.choice([0.01, 0.05, 0.2]), verify=r.random() < 0.7)
    else:
        c.update(reg=r.choice([0.1, 0.6]), lr=r.choice([0.3, 1.0]), neg=r.choice([0, 1, 5, 30]))
    return c


def build(c, random_state=None):
    k = c["kind"]
    if k in KCLS:
        kw = {"K": c["K"], "num_threads": c["threads"]}
        if k == "bm25":
            kw.update(K1=c["K1"], B=c["B"])
        return KCLS[k](**kw)
    dt = np.float32 if c["f32"] else np.float64
    kw = dict(factors=c["factors"], regularization=c["reg"], iterations=c["iters"], num_threads=c["threads"],
              random_state=c["seed"] if random_state is None else random_state)
    if k == "als":
        return maker(k, c["seed"])(dtype=dt, alpha=c["alpha"], use_cg=c["cg"], calculate_training_loss=c["loss"], **kw)
    if k == "bpr":
        return maker(k, c["seed"])(dtype=dt, learning_rate=c["lr"], verify_negative_samples=c["verify"], **kw)
    return maker(k, c["seed"])(dtype=dt, learning_rate=c["lr"], neg_prop=c["neg"], **kw)


def data_for(kind, mat):
    """training data of the dtype the family takes (nearest neighbours work in double precision)"""
    return mat.astype(np.float64) if kind in KCLS else mat


def fit(model, mat, **kw):
    kw.setdefault("show_progress", False)
    model.fit(mat, **kw)
    return model


def state_of(model):
    """everything that defines the fitted model, as comparable bytes"""
    if hasattr(model, "similarity"):
        s = model.similarity
        return None if s is None else gen.snap_csr(s)
    return tuple(None if f is None else ("no array", repr(f)[:80]) if not hasattr(f, "shape") else (f.shape, f.dtype.str, gen.bits(f)) for f in (model.user_factors, model.item_factors))


def usable(model):
    """finite factors (a diverged model makes comparisons meaningless)"""
    if hasattr(model, "similarity"):
        return True
    return bool(np.isfinite(model.user_factors).all() and np.isfinite(model.item_factors).all()
                and np.abs(model.user_factors).max(initial=0) < 1e6 and np.abs(model.item_factors).max(initial=0) < 1e6)


# ------------------------------------------------------------------------------------- fresh copies
def fresh_copy(model, case):
    """a new object of the same configuration that exposes the same learned state and has no caches"""
    m = build(case)
    if hasattr(model, "similarity"):
        m.similarity = model.similarity.copy()
        try:
            if "scorer" in vars(m):
                m.scorer = nn.NearestNeighboursScorer(m.similarity)
                return m
        except AttributeError:
            pass
        # built some other way: go through a file
        buf = stdio.BytesIO()
        m.save(buf)
        buf.seek(0)
        return type(m).load(buf)
    m.user_factors = model.user_factors.copy()
    m.item_factors = model.item_factors.copy()
    return m


# ------------------------------------------------------------------------------------- queries
def query_case(r, kind, users, items, recalc=True, big=False):
    """a random query; only uses ids that exist"""
    ops = ["recommend", "recommend", "recommend", "similar_items", "similar_items"]
    if kind in MF:
        ops += ["similar_users"]
    if kind == "als" and recalc:
        ops += ["recalculate_user", "recalculate_item", "explain"]
    op = r.choice(ops)
    q = {"op": op}
    if op == "recommend":
        n = 0 if r.random() < 0.45 else r.choice([1, 2, 3, 5, 8, 13])
        if big and n and r.random() < 0.5:
            n = r.choice([100, 101, 150, 199, 200, 201, 230, 305])
        q["ids"] = r.randrange(users) if not n else [r.randrange(users) for _ in range(n)]
        q["liked"] = r.random() < 0.6
        cand = items
        mode = r.choice(["none", "none", "filter", "items"])
        if mode == "filter":
            q["filter"] = sorted({r.randrange(items) for _ in range(r.randint(1, max(1, min(6, items // 2))))})
            if r.random() < 0.3:
                r.shuffle(q["filter"])
        elif mode == "items":
            q["items"] = r.sample(range(items), r.randint(1, items))
            cand = len(q["items"])
        if kind == "als" and recalc and r.random() < 0.3:
            q["recalc"] = True
        q["N"] = max(1, min(r.choice([1, 2, 3, 5, 10, cand]), cand))
    elif op in ("similar_items", "similar_users"):
        tot = items if op == "similar_items" else users
        n = 0 if r.random() < 0.5 else r.choice([1, 2, 3, 7])
        if big and n and r.random() < 0.5:
            n = r.choice([100, 101, 150, 200, 201, 260])
        q["ids"] = r.randrange(tot) if not n else [r.randrange(tot) for _ in range(n)]
        cand = tot
        mode = r.choice(["none", "none", "filter", "items"])
        if mode == "filter":
            q["filter"] = sorted({r.randrange(tot) for _ in range(r.randint(1, max(1, min(6, tot // 2))))})
            cand = tot
        elif mode == "items":
            q["items"] = r.sample(range(tot), r.randint(1, tot))
            cand = len(q["items"])
        if op == "similar_items" and kind == "als" and recalc and r.random() < 0.25:
            q["recalc"] = True
        q["N"] = max(1, min(r.choice([1, 2, 3, 5, 10, cand]), cand))
    elif op in ("recalculate_user", "recalculate_item"):
        tot = users if op == "recalculate_user" else items
        n = 0 if r.random() < 0.4 else r.choice([1, 2, 9, 20])
        q["ids"] = r.randrange(tot) if not n else [r.randrange(tot) for _ in range(n)]
    else:
        q["ids"] = r.randrange(users)
        q["item"] = r.randrange(items)
        q["N"] = r.choice([1, 3, 10])
    if r.random() < 0.35:
        # the same few ids again and again
        q["ids"] = [i % 2 for i in q["ids"]] if isinstance(q["ids"], list) else q["ids"] % 2
    if r.random() < 0.35:
        # with the interactions of somebody else
        q["shift"] = r.randint(1, 7)
    return q


def query_args(q, mat, mat_t):
    """positional and keyword arguments of the call"""
    op = q["op"]
    ids = q["ids"]
    idx = [ids] if not isinstance(ids, list) else ids
    a = ids if not isinstance(ids, list) else np.array(ids)
    sh = q.get("shift")
    if sh:
        m = mat_t if op in ("similar_items", "recalculate_item") else mat
        if op == "explain":
            mat = mat[(np.arange(mat.shape[0]) + sh) % mat.shape[0]]
        elif m is not None and m.shape[0]:
            idx = [(i + sh) % m.shape[0] for i in idx]
    if op == "recommend":
        kw = dict(N=q["N"], filter_already_liked_items=q["liked"])
        if q.get("filter") is not None:
            kw["filter_items"] = list(q["filter"])
        if q.get("items") is not None:
            kw["items"] = np.array(q["items"])
        if q.get("recalc"):
            kw["recalculate_user"] = True
        return (a, mat[idx]), kw
    if op == "similar_items":
        kw = dict(N=q["N"])
        if q.get("filter") is not None:
            kw["filter_items"] = list(q["filter"])
        if q.get("items") is not None:
            kw["items"] = np.array(q["items"])
        if q.get("recalc"):
            kw.update(recalculate_item=True, item_users=mat_t[idx])
        return (a,), kw
    if op == "similar_users":
        kw = dict(N=q["N"])
        if q.get("filter") is not None:
            kw["filter_users"] = list(q["filter"])
        if q.get("items") is not None:
            kw["users"] = np.array(q["items"])
        return (a,), kw
    if op == "recalculate_user":
        return (a, mat[idx]), {}
    if op == "recalculate_item":
        return (a, mat_t[idx]), {}
    if op == "explain":
        return (ids, mat, q["item"]), {"N": q["N"]}
    raise rt.HarnessError(op)


def norm_result(op, res):
    if op == "explain":
        total, contrib, w = res
        return [np.array([float(total)]), np.array([int(i) for i, _ in contrib]), np.array([float(s) for _, s in contrib]),
                np.array(np.triu(w[0]))]
    if isinstance(res, tuple):
        return [np.array(x) for x in res]
    return [np.array(res)]


def call(model, q, mat, mat_t, args=None):
    """runs the query; ('ok', arrays) or ('exc', type name)"""
    a, kw = args if args is not None else query_args(q, mat, mat_t)
    try:
        res = getattr(model, q["op"])(*a, **kw)
    except (rt.Violation, rt.HarnessError):
        raise
    except Exception as e:  # noqa
        return ("exc", type(e).__name__, str(e)[:200])
    return ("ok", norm_result(q["op"], res))


def describe(res):
    if res[0] == "exc":
        return "%s(%s)" % (res[1], res[2][:80])
    return " / ".join("%s" % np.array2string(np.asarray(x).ravel()[:8], precision=5) for x in res[1])


def same_result(a, b, rtol=2e-4):
    """(equal, exact): equal up to rounding, with ties in any order"""
    if a[0] != b[0]:
        return False, False
    if a[0] == "exc":
        return a[1] == b[1], True
    if len(a[1]) != len(b[1]) or any(x.shape != y.shape for x, y in zip(a[1], b[1])):
        return False, False
    if all(gen.same(x, y) for x, y in zip(a[1], b[1])):
        return True, True
    if len(a[1]) == 2:
        return ranked_close(a[1], b[1], rtol), False
    for x, y in zip(a[1], b[1]):
        if x.dtype.kind in "iu":
            continue  # order of equal contributions
        if not np.allclose(x, y, rtol=rtol, atol=rtol * (np.abs(y).max(initial=0) + 1e-12), equal_nan=True):
            return False, False
    return True, False


def ranked_close(a, b, rtol):
    ia, sa = a
    ib, sb = b
    sa, sb = np.asarray(sa, np.float64), np.asarray(sb, np.float64)
    fin = np.abs(sb)[np.isfinite(sb) & (np.abs(sb) < 1e30)]
    tol = rtol * (fin.max(initial=0) + 1e-9)
    lo_a, lo_b = sa < -1e30, sb < -1e30
    if not np.array_equal(lo_a, lo_b):
        return False
    ok = lo_a | (np.abs(sa - sb) <= tol) | (np.isnan(sa) & np.isnan(sb))
    if not ok.all():
        return False
    if np.array_equal(ia, ib):
        return True
    ia2, ib2 = np.atleast_2d(ia), np.atleast_2d(ib)
    sa2, sb2 = np.atleast_2d(sa), np.atleast_2d(sb)
    for x, y, s, t in zip(ia2, ib2, sa2, sb2):
        for p in np.nonzero(x != y)[0]:
            if s[p] < -1e30:
                continue
            # an id may move within, or in and out of, a group of equal scores only
            near = np.abs(t - t[p]) <= 2 * tol
            grp = np.nonzero(near)[0]
            if len(grp) == 1 and grp[0] != len(t) - 1:
                return False
    return True


# ------------------------------------------------------------------------------------- reference answers
def ref_scores(user_vec, item_factors):
    return np.asarray(item_factors, np.float64).dot(np.asarray(user_vec, np.float64))


def pickled(model):
    return pickle.loads(pickle.dumps(model))


def deep(x):
    return copy.deepcopy(x)


def empty_csr(shape, dtype=np.float32):
    return sp.csr_matrix(shape, dtype=dtype)
