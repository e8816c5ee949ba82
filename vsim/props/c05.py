"""Concurrent recommend / similar_items calls on one item-item model do not interfere."""
import numpy as np

from vsim import common, conc, gen

ID = "C05"
setup = conc.install_alloc_faults


def new_case(r, i=0):
    m = gen.matrix_case(r, max_users=30, max_items=30, neg=False)
    m["users"], m["items"] = max(2, m["users"]), max(2, m["items"])
    m["density"] = max(m["density"], 0.1)
    k = common.model_case(r, common.KNN)
    c = {"m": m, "k": k, "via": r.choice(["fit", "fit", "pickle"]), "f32": r.random() < 0.3, "calls": [], "fault": None}
    for _ in range(r.choice([2, 2, 2, 3, 3, 4])):
        th = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < 0.08:
                th.append(conc.bad_case(r, k["kind"], m["users"], m["items"]))
            else:
                q = common.query_case(r, k["kind"], m["users"], m["items"])
                if isinstance(q["ids"], list):
                    q["ids"] = q["ids"][:4]
                th.append(q)
        c["calls"].append(th)
    if r.random() < 0.35:
        t = r.randrange(len(c["calls"]))
        c["fault"] = dict(conc.fault_case(r), thread=t, call=r.randrange(len(c["calls"][t])))
    return c


def strategy(r, case):
    s = gen.strategy(r, py=True)
    if s["mode"] == "serial":
        s.update(mode="random", p_mem=0.01, p_py=0.05, p_sync=0.5)
    return s


def run(case, ctx):
    mat = gen.matrix(case["m"], np.float64)
    model = common.build(case["k"])
    model.fit(mat, show_progress=False)
    if case["via"] == "pickle":
        model = common.pickled(model)
    q = mat.astype(np.float32) if case["f32"] else mat
    conc.run(ctx, case, model, case["k"], q)
