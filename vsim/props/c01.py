"""ALS training: schedule independence and refinement of the sequential definition."""
import numpy as np

import implicit.als
from vsim import common, gen, ref

ID = "C01"


def new_case(r, i=0):
    big = r.random() < 0.04
    c = {"m": gen.matrix_case(r, zeros=True), "dt": r.choice(["f4", "f4", "f4", "f4", "f8", "i4", "i8", "i2"]), "factors": r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 32]),
         "reg": r.choice([0.1, 0.5, 1.0, 2.0, 10.0]), "alpha": r.choice([1.0, 1.0, 0.5, 2.0, 15.0]),
         "f32": r.random() < 0.5, "cg": r.random() < 0.6, "cg_steps": r.choice([1, 2, 3, 3, 3, 5]),
         "iters": r.choice([1, 1, 2, 2, 3]), "seed": r.randrange(1 << 30), "threads": r.choice([0, 0, 1, 2, 3, 5, 8]),
         "native": r.random() < 0.95, "idx64": r.random() < 0.1, "recalc": r.random() < 0.5,
         "start": r.choice(["random", "random", "random", "zeros", "large"])}
    if big:
        c["m"].update(users=r.choice([257, 300, 520]), density=0.01)
        c["m"]["items"] = r.choice([40, 130, 257])
        c["factors"] = r.choice([2, 4])
        c["iters"] = 1
    if c["m"]["vals"] == "big" and c["alpha"] > 2:
        c["alpha"] = 1.0
    if r.random() < 0.03:
        c["factors"] = r.choice([64, 100, 129])
        c["m"]["users"] = min(c["m"]["users"], 20)
        c["m"]["items"] = min(c["m"]["items"], 20)
        c["iters"] = 1
    return c


def strategy(r, case):
    s = gen.strategy(r)
    if case["m"]["users"] * case["factors"] > 1500:
        s["p_mem"] = min(s.get("p_mem", 0), 1e-3)
        s["p_conf"] = min(s.get("p_conf", 0), 0.02)
    return s


def make(case, **kw):
    m = common.maker("als", case["seed"])(
        factors=case["factors"], regularization=case["reg"], alpha=case["alpha"],
        dtype=np.float32 if case["f32"] else np.float64, use_cg=case["cg"], iterations=case["iters"],
        use_native=case.get("native", True), num_threads=case["threads"], random_state=case["seed"], **kw)
    m.cg_steps = case["cg_steps"]
    return m


def fit(case, mat, keep, start, box=None):
    mod = make(case)
    if case.get("start", "random") != "random":
        mod.user_factors, mod.item_factors = start[0].copy(order="K"), start[1].copy(order="K")
    if box is not None:
        box.append(mod)

    def cb(it, t, loss):
        keep.append((mod.user_factors.copy(), mod.item_factors.copy()))

    mod.fit(mat, show_progress=False, callback=cb)
    return mod


def scaled(case, mat):
    """confidences as training sees them"""
    d = mat.astype(np.float32)
    if case["alpha"] != 1.0:
        d = case["alpha"] * d
    return d


def run(case, ctx):
    mat = gen.retype(gen.matrix(case["m"], np.float32), case.get("dt", "f4"))
    if case["idx64"]:
        mat.indices, mat.indptr = mat.indices.astype(np.int64), mat.indptr.astype(np.int64)
    C = scaled(case, mat)
    Cu, Ci = ref.rows(C), ref.rows(C.T.tocsr())
    f32 = case["f32"]
    # starting factors
    m0 = make(case)
    m0.iterations = 0
    m0.fit(mat, show_progress=False)
    start = (m0.user_factors.copy(), m0.item_factors.copy())
    if case.get("start", "random") != "random":
        # given factors: rows that were empty in an earlier training are zero
        g = gen.rs(case["seed"])
        for x in start:
            if case["start"] == "large":
                x *= 100
            x[g.random_sample(len(x)) < 0.4] = 0
    if case["seed"] % 5 == 0:
        # factors of another memory layout (transposed or loaded arrays): the values count
        start = tuple(np.asfortranarray(x) for x in start)
    serial, conc, box = [], [], []
    try:
        with ctx.session(mode="serial", max_threads=1, p_team=0.0):
            a = fit(case, mat, serial, start, box)
    except ValueError:
        # only an (almost) unsolvable system may be refused
        X, Y = box[0].user_factors, box[0].item_factors
        w = max(ref.als_half_cond(Cu, Y, case["reg"]), ref.als_half_cond(Ci, X, case["reg"]))
        ctx.check(w > 1e4, "refused", "training refused a solvable problem (condition %.3g)" % w)
        ctx.probe("unsolvable")
        return
    with ctx.session():
        b = fit(case, mat, conc, start)
    ctx.check(len(serial) == len(conc) == case["iters"], "epochs", "epochs %d/%d of %d" % (len(serial), len(conc), case["iters"]))
    for e, (s, c) in enumerate(zip(serial, conc)):
        for name, x, y in (("user", s[0], c[0]), ("item", s[1], c[1])):
            ctx.check(gen.same(x, y), "schedule-dependent", lambda: "%s factors after epoch %d differ from the one-thread run in %d rows (max difference %.3g)" % (
                name, e, int((x != y).any(axis=1).sum()), float(np.abs(x.astype(float) - y).max())))
    ctx.check(gen.same(a.user_factors, serial[-1][0]) and gen.same(b.item_factors, conc[-1][1]), "final", "final factors are not those of the last epoch")
    ctx.check(b.user_factors.dtype == (np.float32 if f32 else np.float64), "dtype", "factor dtype %s" % b.user_factors.dtype)
    # refinement: every epoch is the sequential definition applied to the previous one
    X, Y = start
    for e, (nx, ny) in enumerate(serial):
        for name, Cm, x0, x1, y in (("user", Cu, X, nx, Y), ("item", Ci, Y, ny, nx)):
            ok, msg = ref.als_half_close(Cm, x0, x1, y, case["reg"], case["cg"], case["cg_steps"], f32)
            ctx.check(ok, "definition", "epoch %d %s factors: %s" % (e, name, msg))
            if ok:
                ctx.probe("loose_rows", msg)
            empty = [u for u, (ix, _) in enumerate(Cm) if not len(ix)]
            ctx.check(not np.any(x1[empty]), "empty-rows", "epoch %d: a %s without interactions has non-zero factors" % (e, name))
        X, Y = nx, ny
    ctx.note(conc[-1][0], conc[-1][1])
    ctx.probe("epochs", len(conc))
    if case["recalc"]:
        ids = np.arange(mat.shape[0])
        try:
            with ctx.session(mode="serial", max_threads=1, p_team=0.0):
                us = a.recalculate_user(ids, mat)
                a.recalculate_item(np.arange(mat.shape[1]), mat.T.tocsr())
        except ValueError:
            w = max(ref.als_half_cond(Cu, Y, case["reg"]), ref.als_half_cond(Ci, X, case["reg"]))
            ctx.check(w > 1e4, "refused", "recalculation refused a solvable problem (condition %.3g)" % w)
            return
        if case["seed"] % 4 == 0:
            b.user_factors, b.item_factors = np.asfortranarray(b.user_factors), np.asfortranarray(b.item_factors)
        with ctx.session():
            uc = b.recalculate_user(ids, mat)
        ctx.check(gen.same(us, uc), "recalculate-schedule", "recalculate_user depends on the schedule")
        ok, msg = ref.als_half_close(Cu, np.zeros_like(us), us, Y, case["reg"], False, 0, f32)
        ctx.check(ok, "recalculate-definition", "recalculate_user: %s" % msg)
        mt = mat.T.tocsr()
        with ctx.session():
            ic = b.recalculate_item(np.arange(mat.shape[1]), mt)
        ok, msg = ref.als_half_close(Ci, np.zeros_like(ic), ic, X, case["reg"], False, 0, f32)
        ctx.check(ok, "recalculate-definition", "recalculate_item: %s" % msg)
        ctx.probe("recalculations")
