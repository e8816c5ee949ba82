"""LMF training is deterministic per thread count and follows its update rule."""
import multiprocessing

import numpy as np

from implicit.cpu.lmf import LogisticMatrixFactorization
from vsim import common, gen

ID = "C12"


def new_case(r, i=0):
    what = r.choice(["det", "det", "ref", "ref", "decode"])
    m = gen.matrix_case(r, max_users=40, max_items=40, neg=r.random() < 0.15)
    c = {"what": what, "m": m, "threads": r.choice([0, 1, 2, 2, 3, 4, 8]), "cpus": r.choice([1, 2, 3, 4]), "threads2": r.choice([1, 2, 3, 5]),
         "seed": r.randrange(1 << 30), "factors": r.choice([1, 2, 3, 5, 8]), "lr": r.choice([0.05, 0.3, 1.0]), "reg": r.choice([0.0, 0.1, 0.6]),
         "neg": r.choice([1, 2, 5, 30]), "iters": r.choice([1, 1, 2, 3]), "idx64": r.random() < 0.1, "again": r.random() < 0.2,
         "data64": r.random() < 0.2, "f32": r.random() < 0.7}
    if what == "ref":
        c["neg"] = 0
    if what == "decode":
        m.update(users=r.choice([2, 5, 9, 16]), items=r.choice([2, 5, 9, 16]), vals="one", neg=False)
        c.update(iters=1, reg=0.0, lr=1.0, factors=m["items"], again=False)
    return c


def strategy(r, case):
    s = gen.strategy(r)
    s["p_team"] = 0.0
    return s


def make(case, **kw):
    a = dict(factors=case["factors"], learning_rate=case["lr"], regularization=case["reg"], iterations=case["iters"], neg_prop=case["neg"],
             num_threads=case["threads"], random_state=case["seed"], dtype=np.float32 if case["f32"] else np.float64)
    a.update(kw)
    return common.maker("lmf", case["seed"])(**a)


def fit(m, mat):
    log = []

    def cb(epoch, t):
        log.append((epoch, m.user_factors.copy(), m.item_factors.copy()))

    m.fit(mat, show_progress=False, callback=cb)
    log.append((None, m.user_factors.copy(), m.item_factors.copy()))
    return log


def basics(ctx, case, mat, log, label):
    eu = np.diff(mat.indptr) == 0
    ei = np.bincount(mat.indices, minlength=mat.shape[1]) == 0
    ctx.check([x[0] for x in log[:-1]] == list(range(case["iters"])), "epochs", "%s: callback epochs %s" % (label, [x[0] for x in log]))
    for ep, X, Y in log:
        ctx.check(bool((X[:, -2] == 1).all()), "pinned-user", lambda: "%s epoch %s: column -2 of the users is %s" % (label, ep, X[:, -2].tolist()[:8]))
        ctx.check(bool((Y[:, -1] == 1).all()), "pinned-item", lambda: "%s epoch %s: column -1 of the items is %s" % (label, ep, Y[:, -1].tolist()[:8]))
        ctx.check(not np.delete(X, -2, axis=1)[eu].any(), "empty-user", "%s epoch %s: a user without interactions was updated" % (label, ep))
        ctx.check(not Y[ei, :-1].any(), "empty-item", "%s epoch %s: an item without interactions was updated" % (label, ep))
        ctx.check(bool(np.isfinite(X).all() and np.isfinite(Y).all()), "finite", "%s epoch %s: factors not finite" % (label, ep))


def same(ctx, a, b, clause, what):
    for x, y in zip(a, b):
        ctx.check(gen.same(x[1], y[1]) and gen.same(x[2], y[2]), clause, lambda: "epoch %s: factors differ between %s (max %.3g)" % (
            x[0], what, max(np.abs(x[1] - y[1]).max(initial=0), np.abs(x[2] - y[2]).max(initial=0))))


def run(case, ctx):
    multiprocessing.cpu_count = lambda: case["cpus"]
    mat = gen.matrix(case["m"], np.float64 if case["data64"] else np.float32, min_nnz=2)
    if case["idx64"]:
        mat.indices, mat.indptr = mat.indices.astype(np.int64), mat.indptr.astype(np.int64)
    {"det": det, "ref": refcheck, "decode": decode}[case["what"]](case, ctx, mat)


def det(case, ctx, mat):
    a, b = make(case), make(case)
    with ctx.session(mode="serial"):
        la = fit(a, mat)
        if case["again"]:
            la2 = fit(a, mat)
    with ctx.session():
        lb = fit(b, mat)
        if case["again"]:
            lb2 = fit(b, mat)
    basics(ctx, case, mat, la, "not overlapping")
    basics(ctx, case, mat, lb, "overlapping")
    same(ctx, la, lb, "schedule-dependent", "two schedules")
    if case["again"]:
        same(ctx, la2, lb2, "schedule-dependent", "two schedules of a continued training")
    ctx.note(b.user_factors, b.item_factors)


def refcheck(case, ctx, mat):
    a, b = make(case, num_threads=case["threads2"]), make(case)
    with ctx.session(mode="serial"):
        m0 = make(case, iterations=0)
        l0 = fit(m0, mat)
        la = fit(a, mat)
    with ctx.session():
        lb = fit(b, mat)
        if case["again"]:
            lb2 = fit(b, mat)
    basics(ctx, case, mat, lb, "overlapping")
    same(ctx, la, lb, "thread-count-dependent", "%d and %d threads" % (case["threads2"], case["threads"]))
    follow(ctx, case, mat, l0[-1][1:], lb)
    if case["again"]:
        follow(ctx, case, mat, lb[-1][1:], lb2)
    ctx.note(b.user_factors, b.item_factors)


class Half:
    """Adagrad state of one side, with a bound on the rounding error"""

    def __init__(self, shape):
        self.s = np.zeros(shape)
        self.e = np.zeros(shape)

    def step(self, ip, ix, d, X, Y, lr, reg):
        X, Y = X.astype(float), Y.astype(float)
        out, tol = X.copy(), np.abs(X) * 1e-6 + 1e-7
        for u in range(X.shape[0]):
            a, b = ip[u], ip[u + 1]
            if a == b:
                tol[u] = 0
                continue
            yi, c = Y[ix[a:b]], d[a:b]
            p = yi.dot(X[u])
            perr = 2e-6 * np.abs(yi).dot(np.abs(X[u]))
            sg = 1 / (1 + np.exp(-p))
            g = ((c * (1 - sg))[:, None] * yi).sum(axis=0) - reg * X[u]
            mag = (2 * np.abs(c)[:, None] * np.abs(yi)).sum(axis=0) + np.abs(reg * X[u])
            eg = 2e-7 * (4 + b - a) * mag + ((np.abs(c) * 0.25 * perr)[:, None] * np.abs(yi)).sum(axis=0)
            self.s[u] += g * g
            self.e[u] += 2 * np.abs(g) * eg + eg * eg + 1e-6 * self.s[u]
            S = np.sqrt(1e-6 + self.s[u])
            out[u] += lr / S * g
            low = np.sqrt(1e-6 + np.maximum(self.s[u] - self.e[u], 0))
            tol[u] += lr * (eg / low + np.abs(g) * (1 / low - 1 / S)) + 4e-6 * np.abs(lr / S * g)
        return out, tol


def follow(ctx, case, mat, start, log):
    t = mat.T.tocsr()
    hu, hi = Half(start[0].shape), Half(start[1].shape)
    X, Y = start
    lr, reg = float(np.float32(case["lr"])), float(np.float32(case["reg"]))
    for ep, X1, Y1 in log[:-1]:
        for name, side, h, old, new, other, pin in (("user", mat, hu, X, X1, Y, -2), ("item", t, hi, Y, Y1, X1, -1)):
            want, tol = h.step(side.indptr, side.indices, np.asarray(side.data, np.float32).astype(float), old, other, lr, reg)
            want[:, pin] = 1
            bad = np.argwhere(~(np.abs(new - want) <= 2 * tol))
            ctx.check(not len(bad), "not-adagrad", lambda: "epoch %d: %s %d factor %d is %.7g, the update rule gives %.7g (tolerance %.2g)" % (
                ep, name, bad[0][0], bad[0][1], new[tuple(bad[0])], want[tuple(bad[0])], tol[tuple(bad[0])]))
            ctx.probe("rows_followed", len(new))
        X, Y = X1, Y1
    ctx.check(gen.same(log[-1][1], X) and gen.same(log[-1][2], Y), "after-last-epoch", "factors change after the last epoch")


def decode(case, ctx, mat):
    """items are tiny unit vectors and users zero: the first user update shows which negatives were drawn"""
    U, I = mat.shape
    logs = []
    for over in ({"mode": "serial"}, {}):
        m = make(case)
        m.user_factors = np.zeros((U, I + 2), np.float32)
        m.item_factors = np.zeros((I, I + 2), np.float32)
        m.item_factors[:, :I] = np.eye(I) * 1e-4
        with ctx.session(**over):
            logs.append(fit(m, mat))
    same(ctx, logs[0], logs[1], "schedule-dependent", "two schedules")
    X = logs[1][0][1][:, :I].astype(float)
    d = 1e-3 * X / np.sqrt(1 - X * X) / 0.5e-4
    L = np.zeros((U, I))
    for u in range(U):
        L[u, mat.indices[mat.indptr[u]:mat.indptr[u + 1]]] = 1
    n = L - d
    seen = L.sum(axis=1)
    pop = L.sum(axis=0)
    ctx.check(bool(np.all(np.abs(n - np.round(n)) < 0.02)), "not-a-sample", lambda: "the user update is no sum of whole samples: %s" % np.round(n, 3).tolist())
    n = np.round(n).astype(int)
    ctx.check(bool((n >= 0).all()), "not-a-sample", "a negative number of negative samples")
    ctx.check(not n[:, pop == 0].any(), "unseen-item", "an item without interactions was drawn as a negative")
    ctx.check(not n[seen == 0].any(), "empty-user", "negatives drawn for a user without interactions")
    for u in range(U):
        s = int(seen[u] * case["neg"])
        ctx.check(min(I, s) <= n[u].sum() <= s, "sample-count", "user %d with %d interactions: %d negative samples, neg_prop is %d" % (u, seen[u], n[u].sum(), case["neg"]))
    tot = int(n.sum())
    p = pop / pop.sum()
    ex, sd = tot * p, np.sqrt(tot * p * (1 - p))
    ctx.check(bool(np.all(np.abs(n.sum(axis=0) - ex) <= 9 * sd + 6)), "sample-distribution", lambda: "negatives per item %s, expected about %s" % (n.sum(axis=0).tolist(), np.round(ex, 1).tolist()))
    ctx.note(logs[1][0][1])
