"""Parallel BPR training keeps its invariants under every interleaving."""
import itertools
import multiprocessing

import numpy as np

from implicit.cpu.bpr import BayesianPersonalizedRanking
from vsim import common, gen

ID = "C11"


def new_case(r, i=0):
    what = r.choice(["inv", "inv", "inv", "decode", "decode", "cover", "steps", "steps"])
    m = gen.matrix_case(r, max_users=30, max_items=30, neg=r.random() < 0.1)
    m["density"] = r.choice([0.05, 0.1, 0.3, 0.7])
    c = {"what": what, "m": m, "threads": r.choice([0, 1, 2, 2, 3, 4, 8]), "cpus": r.choice([1, 2, 3, 4]), "seed": r.randrange(1 << 30),
         "factors": r.choice([1, 2, 3, 5, 8]), "lr": r.choice([0.01, 0.05, 0.3]), "reg": r.choice([0.0, 0.01, 0.2]), "f32": r.random() < 0.6,
         "verify": r.random() < 0.7, "iters": r.choice([1, 1, 2, 3]), "idx64": r.random() < 0.1, "again": r.random() < 0.2}
    if what == "decode":
        m["users"], m["items"] = r.choice([2, 5, 9, 16]), r.choice([2, 5, 9, 16])
        c.update(f32=False, factors=m["users"], lr=1e-6, reg=0.0)
    elif what == "cover":
        m["users"], m["items"], m["density"] = r.choice([2, 3]), r.choice([2, 3, 4]), 0.4
        c.update(f32=False, factors=m["users"], lr=1e-7, reg=0.0, verify=True, threads=r.choice([1, 2, 3]))
    elif what == "steps":
        m["users"], m["items"] = r.choice([1, 2, 3]), r.choice([2, 3, 4])
        c["nnz"] = r.choice([1, 2, 2, 3])
        c["threads"] = r.choice([1, 1, 2, 3])
        c["lr"] = r.choice([0.05, 0.3, 1.0])
    return c


def strategy(r, case):
    s = gen.strategy(r)
    s["p_team"] = 0.0
    return s


def make(case, **kw):
    a = dict(factors=case["factors"], learning_rate=case["lr"], regularization=case["reg"], iterations=case["iters"],
             num_threads=case["threads"], verify_negative_samples=case["verify"], random_state=case["seed"],
             dtype=np.float32 if case["f32"] else np.float64)
    a.update(kw)
    return common.maker("bpr", case["seed"])(**a)


def fit(m, mat, case):
    log = []

    def cb(epoch, t, correct, skipped):
        log.append((epoch, int(correct), int(skipped), m.user_factors.copy(), m.item_factors.copy()))

    m.fit(mat, show_progress=False, callback=cb)
    return log


def liked_dense(mat):
    L = np.zeros(mat.shape, bool)
    for u in range(mat.shape[0]):
        L[u, mat.indices[mat.indptr[u]:mat.indptr[u + 1]]] = True
    return L


def basics(ctx, case, mat, log, label, ones=True):
    nnz = mat.nnz
    eu = np.diff(mat.indptr) == 0
    ei = np.bincount(mat.indices, minlength=mat.shape[1]) == 0
    ctx.check([x[0] for x in log] == list(range(case["iters"])), "epochs", "%s: callback epochs %s" % (label, [x[0] for x in log]))
    for ep, correct, skipped, X, Y in log:
        ctx.check(0 <= correct and 0 <= skipped and correct + skipped <= nnz, "counts", "%s epoch %d: correct %d + skipped %d of %d samples" % (label, ep, correct, skipped, nnz))
        ctx.check(bool((X[:, -1] == 1).all()), "bias", lambda: "%s epoch %d: user bias column %s" % (label, ep, X[:, -1].tolist()[:8]))
        ctx.check(not X[eu, :-1].any(), "empty-user", "%s epoch %d: a user without interactions was updated" % (label, ep))
        ctx.check(not Y[ei].any(), "empty-item", "%s epoch %d: an item without interactions was updated" % (label, ep))
        ctx.check(bool(np.isfinite(X).all() and np.isfinite(Y).all()), "finite", "%s epoch %d: factors not finite" % (label, ep))


def run(case, ctx):
    multiprocessing.cpu_count = lambda: case["cpus"]
    mat = gen.matrix(case["m"], np.float32, min_nnz=2)
    if case.get("nnz"):
        coo = mat.tocoo()
        p = gen.rs(case["seed"]).permutation(len(coo.data))[:case["nnz"]]
        import scipy.sparse as sp
        mat = sp.csr_matrix((coo.data[p], (coo.row[p], coo.col[p])), shape=mat.shape)
    if case["idx64"]:
        mat.indices, mat.indptr = mat.indices.astype(np.int64), mat.indptr.astype(np.int64)
    {"inv": inv, "decode": decode, "cover": cover, "steps": steps}[case["what"]](case, ctx, mat)


def inv(case, ctx, mat):
    a = make(case)
    with ctx.session(mode="serial"):
        la = fit(a, mat, case)
    b = make(case)
    with ctx.session():
        lb = fit(b, mat, case)
        if case["again"]:
            lc = fit(b, mat, case)
    if np.abs(a.item_factors).max(initial=0) > 1e3:
        ctx.probe("diverged")
        return
    basics(ctx, case, mat, la, "not overlapping")
    basics(ctx, case, mat, lb, "overlapping")
    if case["again"]:
        basics(ctx, case, mat, lc, "continued")
    for x, y in zip(la, lb):
        ctx.check(x[2] == y[2], "skipped-schedule", "epoch %d skipped %d samples, %d under another schedule" % (x[0], x[2], y[2]))
    if not case["verify"]:
        ctx.check(all(x[2] == 0 for x in lb), "skipped-unverified", "samples skipped although verification is off")
    else:
        # how many samples are skipped is binomial
        L = liked_dense(mat)
        n = mat.nnz
        pop = np.bincount(mat.indices, minlength=mat.shape[1]) / n
        rows = np.repeat(np.arange(mat.shape[0]), np.diff(mat.indptr))
        p = min(1.0, float((L[rows] * pop).sum(axis=1).mean()))
        T = n * len(lb)
        tot = sum(x[2] for x in lb)
        ctx.check(abs(tot - T * p) <= 8 * np.sqrt(max(T * p * (1 - p), 0.0)) + 6, "skip-rate", "%d of %d samples skipped, about %.1f expected" % (tot, T, T * p))
    if case["reg"] == 0:
        # a step moves the liked and disliked bias by opposite amounts
        g = np.abs(la[-1][4][:, -1]).sum() + 1
        m0 = make(case, iterations=0)
        m0.fit(mat, show_progress=False)
        s0, s1 = float(m0.item_factors[:, -1].astype(float).sum()), float(la[-1][4][:, -1].astype(float).sum())
        ctx.check(abs(s0 - s1) <= (1e-5 if case["f32"] else 1e-12) * g * (1 + mat.nnz * case["iters"]) ** 0.5 * 10, "bias-conservation", "item biases sum to %g, were %g" % (s1, s0))
    ctx.note(lb[-1][3], lb[-1][4])


def decode_counts(case, mat, log, Y0):
    """net number of times item i was a liked minus a disliked sample of user u, per epoch"""
    h = float(np.float32(case["lr"])) * 0.5
    prev = Y0
    for ep, correct, skipped, X, Y in log:
        yield ep, skipped, (Y - prev)[:, :-1].T / h, (Y - prev)[:, -1] / h
        prev = Y


def start(case, mat):
    m = make(case)
    U, I = mat.shape
    X = np.zeros((U, U + 1))
    X[:, :U] = np.eye(U)
    X[:, U] = 1
    m.user_factors, m.item_factors = X, np.zeros((I, U + 1))
    return m


def decode(case, ctx, mat):
    """users are unit vectors and the step is tiny: item factors then count the samples"""
    L = liked_dense(mat)
    for label, over in (("not overlapping", {"mode": "serial"}), ("overlapping", {})):
        m = start(case, mat)
        Y0 = m.item_factors.copy()
        with ctx.session(**over):
            log = fit(m, mat, case)
        for ep, skipped, D, B in decode_counts(case, mat, log, Y0):
            tol = 0.05
            if case["verify"]:
                bad = np.argwhere((D < -tol) & L)
                ctx.check(not len(bad), "liked-as-negative", lambda: "%s epoch %d: item %d was used as a negative for user %d who likes it" % (label, ep, bad[0][1], bad[0][0]))
            bad = np.argwhere((D > tol) & ~L)
            ctx.check(not len(bad), "unliked-as-positive", lambda: "%s epoch %d: item %d was used as a positive for user %d who has no interaction with it" % (label, ep, bad[0][1], bad[0][0]))
            if label == "not overlapping":
                ctx.check(bool(np.all(np.abs(D - np.round(D)) < tol)), "not-a-step", "epoch %d: changes are not a sum of whole gradient steps" % ep)
                ctx.check(bool(np.all(np.abs(D.sum(axis=1)) < tol * 4)), "unpaired", "epoch %d: positives and negatives of a user are not paired" % ep)
                ctx.check(bool(np.all(np.abs(D.sum(axis=0) - B) < tol * 4)), "bias-step", "epoch %d: bias terms do not follow the samples" % ep)
                n = int(round(D[D > 0].sum()))
                if case["verify"]:
                    ctx.check(n == mat.nnz - skipped, "sample-count", "epoch %d: %d gradient steps, %d samples of which %d skipped" % (ep, n, mat.nnz, skipped))
                else:
                    ctx.check(n <= mat.nnz, "sample-count", "epoch %d: %d gradient steps for %d samples" % (ep, n, mat.nnz))
        ctx.note(m.item_factors)


def cover(case, ctx, mat):
    """every interaction is drawn as a positive and every unliked popular item as a negative, eventually"""
    L = liked_dense(mat)
    n = mat.nnz
    pop = np.bincount(mat.indices, minlength=mat.shape[1]) / n
    pneg = (~L * pop)
    p = np.where(L, pneg.sum(axis=1)[:, None] / n, L.sum(axis=1)[:, None] / n * pneg)
    pos = p[p > 0]
    if not len(pos):
        return
    case = dict(case, iters=int(np.ceil(30.0 / pos.min() / n)) + 1)
    m = start(case, mat)
    Y0 = m.item_factors.copy()
    with ctx.session(mode="serial"):
        m.fit(mat, show_progress=False)
    D = (m.item_factors - Y0)[:, :-1].T
    miss = np.argwhere((p > 0) & (D == 0))
    ctx.check(not len(miss), "never-sampled", lambda: "after %d epochs user %d item %d was never sampled as a %s" % (
        case["iters"], miss[0][0], miss[0][1], "positive" if L[miss[0][0], miss[0][1]] else "negative"))


def step(X, Y, u, i, j, lr, reg):
    """one gradient step of BPR"""
    s = X[u].dot(Y[i] - Y[j])
    z = 1 / (1 + np.exp(s))
    f = X.shape[1] - 1
    xu = X[u, :f].copy()
    X[u, :f] += lr * (z * (Y[i, :f] - Y[j, :f]) - reg * xu)
    Y[i, :f] += lr * (z * xu - reg * Y[i, :f])
    Y[j, :f] += lr * (-z * xu - reg * Y[j, :f])
    Y[i, f] += lr * (z - reg * Y[i, f])
    Y[j, f] += lr * (-z - reg * Y[j, f])
    return z


def steps(case, ctx, mat):
    """an epoch equals some sequence of gradient steps"""
    L = liked_dense(mat)
    rows = np.repeat(np.arange(mat.shape[0]), np.diff(mat.indptr))
    n = mat.nnz
    m0 = make(case, iterations=0)
    m0.fit(mat, show_progress=False)
    X, Y = m0.user_factors.astype(float), m0.item_factors.astype(float)
    m = make(case)
    with ctx.session(mode="serial"):
        log = fit(m, mat, case)
    basics(ctx, case, mat, log, "not overlapping")
    tol = 3e-5 if case["f32"] else 1e-7
    draws = list(itertools.product(range(n), range(n)))
    for ep, correct, skipped, X1, Y1 in log:
        found = None
        for seq in itertools.product(draws, repeat=n):
            x, y, sk, ok_ = X.copy(), Y.copy(), 0, [0, 0]
            for a, b in seq:
                u, i, j = rows[a], mat.indices[a], mat.indices[b]
                if case["verify"] and L[u, j]:
                    sk += 1
                    continue
                z = step(x, y, u, i, j, float(np.float32(case["lr"])), float(np.float32(case["reg"])))
                ok_[0] += z < 0.5 - 1e-6
                ok_[1] += z < 0.5 + 1e-6
            if sk == skipped and ok_[0] <= correct <= ok_[1] and np.abs(x - X1).max() <= tol and np.abs(y - Y1).max() <= tol:
                found = seq
                break
        ctx.check(found is not None, "not-sgd", "epoch %d of %d samples is no sequence of BPR gradient steps (correct %d, skipped %d)" % (ep, n, correct, skipped))
        X, Y = X1.astype(float), Y1.astype(float)
    ctx.probe("epochs_enumerated", len(log))
