"""Reported ALS training loss equals its definition."""
import numpy as np

from implicit.cpu.als import AlternatingLeastSquares, calculate_loss
from vsim import common, gen, ref

ID = "C03"


def new_case(r, i=0):
    c = {"m": gen.matrix_case(r, zeros=True), "factors": r.choice([1, 2, 3, 4, 8, 16]), "reg": r.choice([0.0, 0.1, 1.0, 5.0]),
         "alpha": r.choice([1.0, 1.0, 3.0]), "f32": r.random() < 0.5, "cg": r.random() < 0.7, "iters": r.choice([1, 1, 2, 3, 6]), "dt": r.choice(["f4", "f4", "f4", "f8", "i4", "i8"]),
         "seed": r.randrange(1 << 30), "threads": r.choice([0, 0, 0, 2, 3, 8]), "direct": r.random() < 0.4}
    if not c["direct"]:
        c["reg"] = max(c["reg"], 0.1)
    if r.random() < 0.05:
        c["m"].update(users=300, items=r.choice([40, 260]), density=0.02)
        c["factors"] = r.choice([2, 4])
        c["iters"] = 1
    return c


def strategy(r, case):
    return gen.strategy(r)


def run(case, ctx):
    mat = gen.matrix(case["m"], np.float32)
    if not case["direct"]:
        mat = gen.retype(mat, case.get("dt", "f4"))
    conf = mat.astype(np.float32) if case["alpha"] == 1.0 else case["alpha"] * mat.astype(np.float32)
    C = ref.rows(conf)
    U, I = mat.shape
    if not sum(np.abs(c).sum() for _, c in C) + U * I - conf.nnz:
        return  # total confidence zero: the loss is undefined

    def judge(loss, X, Y, what):
        want, size = ref.als_loss(C, U, I, conf.nnz, X, Y, case["reg"])
        tol = (5e-4 if case["f32"] else 1e-6) * (size + abs(want))
        ctx.check(abs(loss - want) <= tol, "loss", lambda: "%s: reported %.9g, definition %.9g (tolerance %.2g)" % (what, loss, want, tol))
        ctx.note(float(loss))

    if case["direct"]:
        g = gen.rs(case["seed"])
        dt = np.float32 if case["f32"] else np.float64
        X = g.standard_normal((U, case["factors"])).astype(dt)
        Y = g.standard_normal((I, case["factors"])).astype(dt)
        if case["seed"] % 4 == 0:
            X = np.asfortranarray(X)
        if case["seed"] % 3 == 0:
            Y = np.asfortranarray(Y)
        with ctx.session():
            loss = calculate_loss(conf, X, Y, case["reg"], num_threads=case["threads"])
        judge(loss, X, Y, "calculate_loss")
        return
    mod = common.maker("als", case["seed"])(factors=case["factors"], regularization=case["reg"], alpha=case["alpha"],
                                  dtype=np.float32 if case["f32"] else np.float64, use_cg=case["cg"],
                                  iterations=case["iters"], num_threads=case["threads"], random_state=case["seed"],
                                  calculate_training_loss=True)
    got = []
    try:
        with ctx.session():
            mod.fit(mat, show_progress=False, callback=lambda it, t, loss: got.append((it, loss, mod.user_factors.copy(), mod.item_factors.copy())))
    except ValueError:
        ctx.probe("unsolvable")
    for it, loss, X, Y in got:
        judge(loss, X, Y, "epoch %d" % it)
