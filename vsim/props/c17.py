"""Incremental updates are exact and all-or-nothing."""
import numpy as np
import scipy.sparse as sp

from vsim import common, conc, gen, ref, rt

ID = "C17"
setup = conc.install_alloc_faults


def new_case(r, i=0):
    m = gen.matrix_case(r, max_users=30, max_items=30, neg=r.random() < 0.2)
    m["users"], m["items"] = max(2, m["users"]), max(2, m["items"])
    k = common.model_case(r, ("als",))
    k["iters"] = r.choice([1, 2])
    k["loss"] = False
    U, I = m["users"], m["items"]
    ops = []
    total = r.choice([1, 1, 2, 3, 4])
    for j in range(total):
        side = r.choice(["users", "items"])
        n = U if side == "users" else I
        new = r.choice([0, 0, 0, 1, 2, 5])
        if j == total - 1 and r.random() < 0.03:
            new = r.choice([300, 33000, 70000])
        cnt = r.choice([1, 1, 2, 3, 8, 12, 20])
        pool = list(range(n)) + list(range(n, n + new))
        ids = r.sample(pool, min(cnt, len(pool)))
        if new and r.random() < 0.7 and n + new - 1 not in ids:
            ids[0] = n + new - 1
        grown = max([n] + [x + 1 for x in ids])
        f = r.choice([None, None, None, "inject", "inject", "inject", "alloc", "bad_rows", "singular", "bad_id", "bad_type"])
        op = {"side": side, "ids": ids, "mseed": r.randrange(1 << 30), "as": r.choice(["list", "array", "int32"]), "dt": r.choice(["f4", "f4", "f8", "i8"]),
              "density": r.choice([0.1, 0.3, 0.8]), "warm": r.random() < 0.6, "fault": f}
        if f in ("inject", "alloc"):
            op["inj"] = {"kind": "alloc" if f == "alloc" else r.choice(["interrupt", "error"]), "at": r.randint(1, 45) if f == "inject" else r.choice([1, 2, 3, 4])}
        ops.append(op)
        if f is None:
            if side == "users":
                U = grown
            else:
                I = grown
        op["q"] = [common.query_case(r, "als", m["users"], m["items"]) for _ in range(2)]
    return {"m": m, "k": k, "ops": ops}


def strategy(r, case):
    return gen.strategy(r, py=True)


def updates(op, cols):
    """new interactions of the rows being updated; cols = current size of the other side"""
    g = gen.rs(op["mseed"])
    n = len(op["ids"])
    m = sp.random(n, cols, density=op["density"], format="csr", random_state=g, dtype=np.float64)
    m.data = g.randint(1, 6, len(m.data)).astype(np.float64) * np.where(g.random_sample(len(m.data)) < 0.1, -1, 1)
    return m.astype({"f4": np.float32, "f8": np.float64, "i8": np.int64}[op["dt"]])


def stack(rows, cols):
    """rows as they are (scipy's own stacking may merge repeated entries)"""
    return sp.csr_matrix((np.concatenate([r.data for r in rows]), np.concatenate([r.indices for r in rows]),
                          np.cumsum([0] + [len(r.data) for r in rows])), shape=(len(rows), cols))


def idarg(op):
    return {"list": list, "array": np.array, "int32": lambda x: np.array(x, np.int32)}[op["as"]](op["ids"])


def run(case, ctx):
    base = gen.matrix(case["m"], np.float32, min_nnz=4)
    model = common.build(case["k"])
    try:
        with ctx.session():
            model.fit(base, show_progress=False)
    except ValueError as e:
        if "posv" not in str(e):
            raise
        ctx.probe("unsolvable_training")
        return
    if not common.usable(model):
        ctx.probe("diverged")
        return
    for n, op in enumerate(case["ops"]):
        if one(case, ctx, model, base, n, op) is False:
            return
    ctx.note(model.user_factors, model.item_factors)


def queries(case, ctx, model, base, op, label):
    mat, mat_t = pad(base, model)
    for q in op["q"]:
        with ctx.session(mode="serial"):
            want = common.call(common.fresh_copy(model, case["k"]), q, mat, mat_t)
        with ctx.session():
            got = common.call(model, q, mat, mat_t)
        ctx.check(common.same_result(got, want)[0], "stale", lambda: "%s: %s gives %s, a fresh object with the same factors gives %s" % (
            label, q["op"], common.describe(got), common.describe(want)))


def pad(base, model):
    """the interactions with the shape the model has now"""
    u, i = model.user_factors.shape[0], model.item_factors.shape[0]
    c = base.tocoo()
    m = sp.csr_matrix((c.data, (c.row, c.col)), shape=(u, i), dtype=base.dtype)
    return m, m.T.tocsr()


def one(case, ctx, model, base, n, op):
    side = op["side"]
    mine, other = ("user_factors", "item_factors") if side == "users" else ("item_factors", "user_factors")
    if op["warm"]:
        queries(case, ctx, model, base, op, "before update %d" % n)
        getattr(model, "YtY", None), getattr(model, "XtX", None)
    before, fixed = getattr(model, mine).copy(), getattr(model, other).copy()
    data = updates(op, fixed.shape[0])
    ids = idarg(op)
    fn = model.partial_fit_users if side == "users" else model.partial_fit_items
    f = op["fault"]
    err, fired = None, None
    reg0 = model.regularization
    must = f in ("bad_rows", "bad_id", "bad_type")
    if f == "bad_rows":
        data = data[:-1] if data.shape[0] > 1 else sp.vstack([data, data]).tocsr()
    elif f == "singular":
        # rows whose system isn't positive definite: one row with an item repeated at zero confidence, or a negative regularization
        bad = n % len(op["ids"])
        if op["mseed"] % 2:
            rows = [data[j].astype(np.float64) for j in range(data.shape[0])]
            rep = 20 * fixed.shape[0] + 100
            rows[bad] = sp.csr_matrix((np.zeros(rep), np.zeros(rep, np.int32), [0, rep]), shape=(1, fixed.shape[0]))
            data = stack(rows, fixed.shape[0])
        else:
            d = data.astype(np.float64).tolil()
            d[bad, 0] = 1.0
            data = d.tocsr()
            model.regularization = -1e6
            must = True
    elif f == "bad_id":
        op = dict(op, ids=op["ids"][:-1] + [-10 ** 6])
        ids = idarg(op)
    elif f == "bad_type":
        data = np.zeros((len(op["ids"]), fixed.shape[0]))
    snap = gen.snap_csr(data) if sp.issparse(data) else None
    if f in ("inject", "alloc"):
        with ctx.session(py=True):
            _, err, fired = conc.faulty(ctx, op["inj"], lambda: fn(ids, data))
        if err is not None and not fired:
            raise err
    else:
        with ctx.session():
            try:
                fn(ids, data)
            except Exception as e:  # noqa
                err = e
        if f:
            ctx.fault("failing_update:" + f)
        elif err is not None:
            w = ref.als_half_cond(ref.rows((data.astype(np.float64) * float(case["k"]["alpha"])).tocsr()), fixed, reg0) if isinstance(err, ValueError) else 0
            if w <= 1e4:
                raise err
            ctx.probe("unsolvable_update")  # nearly dependent factors
            f = "singular"
    model.regularization = reg0
    if snap is not None:
        ctx.check(gen.snap_csr(data) == snap, "input-changed", "the update changed its input")
    label = "update %d of %s (%s%s)" % (n, side, "fault " + f if f else "no fault", ", raised %s" % type(err).__name__ if err is not None else "")
    now, fixed2 = getattr(model, mine), getattr(model, other)
    ctx.check(gen.same(fixed, fixed2), "other-side", "%s changed the other side's factors" % label)
    if f == "singular" and not must and err is None:
        ctx.probe("solvable")  # the repeated item's factors are zero
        return False
    if f in ("bad_rows", "bad_id", "bad_type", "singular"):
        ctx.check(err is not None, "not-raised", "%s: no error" % label)
        ctx.check(gen.same(now, before), "partial-update", "%s: the model changed" % label)
    elif err is not None and gen.same(now, before):
        ctx.probe("unchanged")
    else:
        ctx.probe("updated")
        complete(ctx, case, model, op, data, before, now, fixed, reg0, label)
    queries(case, ctx, model, base, op, label)


def complete(ctx, case, model, op, data, before, now, fixed, reg, label):
    ids = op["ids"]
    rows = max(before.shape[0], max(ids) + 1)
    ctx.check(now.shape == (rows, before.shape[1]) and now.dtype == before.dtype, "shape", "%s: factors are %s %s instead of %s %s" % (
        label, now.shape, now.dtype, (rows, before.shape[1]), before.dtype))
    rest = np.array([r not in set(ids) for r in range(rows)])
    old = np.zeros((rows, before.shape[1]), before.dtype)
    old[:before.shape[0]] = before
    bad = [r for r in np.nonzero(rest)[0] if gen.bits(now[r]) != gen.bits(old[r])]
    ctx.check(not bad, "other-rows", lambda: "%s: row %d was not part of the update but changed from %s to %s" % (label, bad[0], old[bad[0]].tolist()[:4], now[bad[0]].tolist()[:4]))
    d = data.astype(np.float64) * float(case["k"]["alpha"])
    C = ref.rows(d.tocsr())
    new = now[np.array(ids)]
    ok, msg = ref.als_half_close(C, np.zeros_like(new), new, fixed, reg, False, 3, case["k"]["f32"])
    ctx.check(ok, "not-least-squares", lambda: "%s: %s" % (label, msg))
    ctx.probe("rows_checked", len(ids))
