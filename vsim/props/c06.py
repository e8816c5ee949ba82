"""Concurrent queries on one matrix-factorization model equal isolated queries."""
import numpy as np

from vsim import common, conc, gen

ID = "C06"
setup = conc.install_alloc_faults


def new_case(r, i=0):
    m = gen.matrix_case(r, max_users=30, max_items=30, neg=False)
    m["users"], m["items"] = max(2, m["users"]), max(2, m["items"])
    k = common.model_case(r, ("als", "als", "als", "bpr", "lmf"))
    c = {"m": m, "k": k, "zero": r.choice([0.0, 0.2, 0.5]), "warm": r.choice([None, None, None, "similar", "recalc"]), "calls": [],
         "fault": None, "via": r.choice(["fit", "fit", "pickle", "copy"])}
    focus = r.choice([None, None, "similar_items", "similar_users", "recommend", "recalculate_user", "recalculate_item"])
    for _ in range(r.choice([2, 2, 2, 3, 3, 4])):
        th = []
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.05:
                th.append(conc.bad_case(r, k["kind"], m["users"], m["items"]))
                continue
            q = common.query_case(r, k["kind"], m["users"], m["items"], big=r.random() < 0.06)
            for _ in range(30):
                if focus is None or q["op"] == focus:
                    break
                q = common.query_case(r, k["kind"], m["users"], m["items"])
            th.append(q)
        c["calls"].append(th)
    if r.random() < 0.2:
        t = r.randrange(len(c["calls"]))
        c["fault"] = dict(conc.fault_case(r), thread=t, call=r.randrange(len(c["calls"][t])))
    return c


def strategy(r, case):
    s = gen.strategy(r, py=True)
    if s["mode"] == "serial":
        s.update(mode="random", p_mem=1e-3, p_py=0.05, p_sync=0.5)
    return s


def run(case, ctx):
    mat = gen.matrix(case["m"], np.float32, min_nnz=2)
    model = common.build(case["k"])
    model.fit(mat, show_progress=False)
    if not common.usable(model):
        ctx.probe("diverged")
        return
    if case["zero"]:
        g = gen.rs(case["m"]["mseed"] + 1)
        model.user_factors[g.random_sample(mat.shape[0]) < case["zero"]] = 0
        model.item_factors[g.random_sample(mat.shape[1]) < case["zero"]] = 0
        model = common.fresh_copy(model, case["k"])
    if case["via"] == "pickle":
        model = common.pickled(model)
    elif case["via"] == "copy":
        model = common.fresh_copy(model, case["k"])
    if case["warm"] == "similar":
        model.similar_items(0, N=1)
    elif case["warm"] == "recalc" and case["k"]["kind"] == "als":
        common.call(model, {"op": "recalculate_user", "ids": 0}, mat, mat.T.tocsr())
    conc.run(ctx, case, model, case["k"], mat)
