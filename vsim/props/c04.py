"""Item-item neighbour training is exact for every schedule."""
import io
import sys

import numpy as np

from vsim import common, gen

ID = "C04"


def new_case(r, i=0):
    c = {"m": gen.matrix_case(r, neg=False), "k": {"kind": r.choice(common.KNN), "threads": r.choice([0, 0, 0, 2, 3, 8]),
                                                   "K": r.choice([1, 2, 3, 5, 8, 20, 60]), "K1": r.choice([1.2, 0.5, 100.0]), "B": r.choice([0.75, 0.1])},
         "progress": r.random() < 0.3}
    c["m"]["items"] = r.choice([1, 2, 5, 8, 9, 16, 17, 24, 33, 40, 60])
    if c["k"]["kind"] == "item":
        c["m"]["neg"] = r.random() < 0.3
    if r.random() < 0.04:
        c["m"].update(items=r.choice([257, 300]), users=r.choice([30, 60]), density=0.02)
    return c


def strategy(r, case):
    return gen.strategy(r)


def weights(case, mat):
    """dense user x item weights as the family defines them, float64"""
    k = case["k"]
    D = np.asarray(mat.todense(), np.float64)
    M = np.zeros(mat.shape, bool)
    for u in range(mat.shape[0]):
        M[u, mat.indices[mat.indptr[u]:mat.indptr[u + 1]]] = True
    n_items = mat.shape[1]
    with np.errstate(all="ignore"):
        if k["kind"] in ("tfidf", "bm25"):
            idf = np.log(n_items) - np.log1p(M.sum(axis=1))
        if k["kind"] == "tfidf":
            D = np.where(M, np.sqrt(np.abs(D)) * idf[:, None], 0)
        if k["kind"] in ("tfidf", "cosine"):
            n = np.sqrt((D ** 2).sum(axis=0))
            D = np.where(M, D / n, 0)
        if k["kind"] == "bm25":
            s = D.sum(axis=0)
            ln = (1 - k["B"]) + k["B"] * s / s.mean()
            D = np.where(M, D * (k["K1"] + 1) / (k["K1"] * ln + D) * idf[:, None], 0)
    return D, M


def fit(case, mat):
    m = common.build(case["k"])
    m.fit(mat, show_progress=case["progress"])
    return m


def run(case, ctx):
    mat = gen.matrix(case["m"], np.float64)
    W, M = weights(case, mat)
    if not np.isfinite(W).all():
        ctx.probe("undefined_weights")
        return
    P = W.T.dot(W)
    size = np.abs(W).T.dot(np.abs(W))
    S = M.T.astype(int).dot(M.astype(int)) > 0
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        with ctx.session(mode="serial", max_threads=1, p_team=0.0):
            a = fit(case, mat)
        with ctx.session():
            b = fit(case, mat)
    finally:
        sys.stderr = err
    for name, m in (("concurrent", b), ("one-thread", a)):
        sim = m.similarity
        ctx.check(sim.shape == P.shape, "shape", "similarity shape %s" % (sim.shape,))
        for i in range(P.shape[0]):
            lo, hi = sim.indptr[i], sim.indptr[i + 1]
            cols, vals = sim.indices[lo:hi], sim.data[lo:hi]
            ctx.check(len(set(cols.tolist())) == len(cols), "duplicate", lambda: "%s: item %d stores a neighbour twice: %s" % (name, i, cols.tolist()))
            want = np.sort(P[i, S[i]])[::-1][:case["k"]["K"]]
            if i == 0 and len(cols) > len(want):
                # padding of other rows is stored as an explicit zero at (0, 0)
                keep = ~((cols == 0) & (vals == 0))
                cols, vals = cols[keep], vals[keep]
            tol = 1e-9 * (size[i].max() + 1e-300)
            bad = [int(c) for c, v in zip(cols, vals) if not S[i, c] or abs(v - P[i, c]) > tol]
            ctx.check(not bad, "wrong-value", lambda: "%s: item %d neighbour %d stored as %.9g, exact %.9g" % (
                name, i, bad[0], float(vals[list(cols).index(bad[0])]), P[i, bad[0]]))
            got = np.sort(vals)[::-1]
            if len(got) != len(want):
                nz = lambda x: x[np.abs(x) > tol]  # noqa: explicit zeros may or may not be stored
                got, want = nz(got), nz(want)
            ctx.check(len(got) == len(want) and np.all(np.abs(got - want) <= tol), "not-top-k", lambda: "%s: item %d stores %s, the %d best are %s" % (
                name, i, np.round(got, 6).tolist()[:8], case["k"]["K"], np.round(want, 6).tolist()[:8]))
    ctx.check(common.state_of(a) == common.state_of(b), "schedule-dependent", "similarity depends on the schedule")
    ctx.note(b.similarity.data, b.similarity.indices)
