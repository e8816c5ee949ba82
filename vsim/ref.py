"""Small executable reference models (float64, sequential) the simulated executions are compared with."""
import numpy as np


def rows(m):
    """csr -> list of (indices, values) per row, float64"""
    ip, ix, d = np.asarray(m.indptr), np.asarray(m.indices), np.asarray(m.data)
    return [(ix[ip[u]:ip[u + 1]].astype(np.int64), d[ip[u]:ip[u + 1]].astype(np.float64)) for u in range(m.shape[0])]


def als_system(Y, YtY, idx, c, reg):
    """normal equations of one row as ALS defines them: preference 1 for positive, 0 for negative confidences"""
    Yi = Y[idx]
    b = (np.where(c > 0, c, 0.0)[:, None] * Yi).sum(axis=0) if len(idx) else np.zeros(Y.shape[1])
    A = YtY + reg * np.eye(Y.shape[1])
    if len(idx):
        A = A + (Yi * (np.abs(c) - 1)[:, None]).T.dot(Yi)
    return A, b


def als_half(C, X, Y, reg, cg, steps=3, dt=np.float64):
    """solves every row of X against Y one after the other"""
    Y = np.asarray(Y, dtype=dt)
    X = np.array(X, dtype=dt)
    YtY = Y.T.dot(Y)
    out = np.zeros_like(X)
    for u, (idx, c) in enumerate(C):
        if not len(idx):
            continue
        A, b = als_system(Y, YtY, idx, c, reg)
        A, b = A.astype(dt), b.astype(dt)
        if not cg:
            out[u] = np.linalg.solve(A, b)
            continue
        x = X[u]
        r = b - A.dot(x)
        p = r.copy()
        rs = r.dot(r)
        if rs >= 1e-20:
            for _ in range(steps):
                Ap = A.dot(p)
                a = rs / p.dot(Ap)
                x = x + a * p
                r = r - a * Ap
                rn = r.dot(r)
                if rn < 1e-20:
                    break
                p = r + (rn / rs) * p
                rs = rn
        out[u] = x
    return out


def als_half_cond(C, Y, reg):
    """largest condition number of the rows' systems"""
    Y = np.asarray(Y, dtype=np.float64)
    YtY = Y.T.dot(Y)
    w = 1.0
    for idx, c in C:
        if len(idx):
            A, _ = als_system(Y, YtY, idx, c, reg)
            w = max(w, np.linalg.cond(A))
    return w


def cg_close32(C, X0, Xnew, base, Y, reg, steps):
    """single precision conjugate gradients: unconverged directions carry rounding noise, so the step is judged by
    the objective it reaches (f(x) = x'Ax/2 - b'x), relative to the distance to the optimum at the start"""
    Y = np.asarray(Y, np.float64)
    YtY = Y.T.dot(Y)
    loose = 0
    g = np.random.RandomState(3)
    v32 = [als_half(C, X0, Y * (1 + k * 1e-7 * g.uniform(-1, 1, Y.shape)), reg, True, steps, np.float32) for k in range(4)]
    for u, (idx, c) in enumerate(C):
        if not len(idx):
            continue
        A, b = als_system(Y, YtY, idx, c, reg)
        if np.linalg.cond(A) > 2e5:
            loose += 1
            continue
        best = np.linalg.solve(A, b)

        def gap(x):
            d = np.asarray(x, np.float64) - best
            return 0.5 * d.dot(A).dot(d)

        size = np.abs(b).dot(np.abs(best)) + np.abs(X0[u]).astype(np.float64).dot(np.abs(A)).dot(np.abs(X0[u]))
        dev = abs(gap(Xnew[u]) - gap(base[u]))
        noise = max(abs(gap(v[u]) - gap(base[u])) for v in v32)
        if not dev <= 0.05 * gap(X0[u]) + 1e-3 * size + 5 * noise + 1e-9:
            return False, "row %d is %s, the definition gives %s (objective gap %.3g instead of %.3g)" % (
                u, np.round(Xnew[u], 5).tolist()[:6], np.round(base[u], 5).tolist()[:6], gap(Xnew[u]), gap(base[u]))
    return True, loose


def _cg_gap_ok(Y, YtY, row, reg, x0, x, xref, cond):
    """ill-conditioned systems: the directions of conjugate gradients lose their orthogonality to rounding even in
    double precision, so the row is judged by the objective it reaches"""
    A, b = als_system(Y, YtY, row[0], row[1], reg)
    best = np.linalg.solve(A, b)
    g0, g1, g2 = [0.5 * d.dot(A).dot(d) for d in (np.asarray(v, np.float64) - best for v in (x0, x, xref))]
    return abs(g1 - g2) <= 0.5 * g2 + (1e-6 if cond < 1e5 else 1e-2) * g0 + 1e-9


def als_half_close(C, X0, Xnew, Y, reg, cg, steps, f32):
    """compares a half step with the reference; the tolerance follows the reference's own sensitivity to
    rounding-sized perturbations of its inputs.  Returns (ok, message)"""
    base = als_half(C, X0, Y, reg, cg, steps)
    other = float(np.float32(reg))
    regs = [other] if cg else []  # the regularisation may be held in single precision
    if cg and f32:
        return cg_close32(C, X0, Xnew, base, Y, reg, steps)
    eps = 3e-6 if f32 else 1e-13
    g = np.random.RandomState(3)
    sens = np.zeros(len(base))
    for _ in range(2):
        Yp = np.asarray(Y, np.float64) * (1 + eps * g.uniform(-1, 1, Y.shape))
        Xp = np.asarray(X0, np.float64) * (1 + eps * g.uniform(-1, 1, X0.shape))
        sens = np.maximum(sens, np.abs(als_half(C, Xp, Yp, reg, cg, steps) - base).max(axis=1))
    for rg in regs:
        sens = np.maximum(sens, 0.1 * np.abs(als_half(C, X0, Y, rg, cg, steps) - base).max(axis=1))
    scale = np.maximum(np.abs(base).max(axis=1), 1e-2 * np.abs(base).max() if base.size else 0) + 1e-6
    if cg:
        scale = np.maximum(scale, np.abs(np.asarray(X0, np.float64)).max(axis=1))
    Yd = np.asarray(Y, np.float64)
    YtY = Yd.T.dot(Yd)
    cond = np.array([np.linalg.cond(als_system(Yd, YtY, ix, c, reg)[0]) if len(ix) else 1.0 for ix, c in C])
    tol = (2e-3 if f32 else 1e-6 if cg else 1e-7) * scale + 60 * sens + 8 * (1.2e-7 if f32 else 2.3e-16) * cond * scale
    if cg:
        tol = tol + 3e-14 * cond ** 2 * scale
    err = np.abs(np.asarray(Xnew, np.float64) - base).max(axis=1) if len(base) else np.zeros(0)
    bad = np.nonzero(~(err <= tol) & ~((cond > 1e7) & cg))[0]
    if cg:
        bad = [u for u in bad if not (cond[u] > 3e3 and _cg_gap_ok(Yd, YtY, C[u], reg, X0[u], Xnew[u], base[u], cond[u]))]
    if len(bad):
        u = int(bad[0])
        return False, "row %d is %s, the definition gives %s" % (u, np.round(Xnew[u], 5).tolist()[:6], np.round(base[u], 5).tolist()[:6])
    loose = int((tol > 0.2 * scale).sum())
    return True, loose


def als_loss(C, n_users, n_items, nnz, X, Y, reg):
    """confidence-weighted squared error over all cells plus regularisation, normalised by total confidence"""
    X, Y = np.asarray(X, np.float64), np.asarray(Y, np.float64)
    P = X.dot(Y.T)
    conf = np.ones((n_users, n_items))
    pref = np.zeros((n_users, n_items))
    for u, (idx, c) in enumerate(C):
        conf[u, idx] = np.abs(c)
        pref[u, idx] = c > 0
    err = (conf * (P - pref) ** 2).sum() + reg * ((X ** 2).sum() + (Y ** 2).sum())
    tot = sum(np.abs(c).sum() for _, c in C) + n_users * n_items - nnz
    return err / tot, (np.abs(conf * (P ** 2)).sum() + sum(np.abs(c).sum() for _, c in C) + 1) / tot
