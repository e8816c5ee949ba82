"""A fixed random_state makes training and splitting reproducible."""
import random

import numpy as np

import implicit.evaluation as ev
import simrt
from vsim import common, gen, rt

ID = "C10"


def new_case(r, i=0):
    m = gen.matrix_case(r, max_users=24, max_items=24, neg=False)
    m["users"], m["items"] = max(5, m["users"]), max(5, m["items"])
    m["density"] = max(m["density"], 0.1)
    what = r.choice(["als", "als", "bpr", "lmf", "split", "leave", "leave"])
    c = {"m": m, "what": what, "rs": r.choice(["int", "int", "rs", "gen", "bits", "npint", "npint32"]), "seed": r.choice([0, 1, 42, r.randrange(1 << 31)]),
         "disturb": r.sample(["np_seed", "np_draw", "py_seed", "clock", "before_same", "before_other", "thread_draw", "thread_fit", "thread_split", "threads"], r.randint(1, 5)),
         "frac": r.choice([0.2, 0.5, 0.8]), "K": r.choice([1, 1, 2]), "only": r.choice([0.0, 0.3, 0.5]), "dseed": r.randrange(1 << 30)}
    if what in common.MF:
        c["k"] = common.model_case(r, (what,))
        c["k"]["iters"] = r.choice([0, 1, 2])
        if what == "bpr":
            # threads that overlap update the factors without locks: more than one only without overlap
            c["k"]["threads"] = r.choice([1, 1, 1, 2, 5, 8])
            if c["k"]["threads"] > 1:
                c["disturb"] = [d for d in c["disturb"] if not d.startswith("thread")] or ["clock"]
        elif what == "lmf":
            c["k"]["threads"] = r.choice([1, 2, 3, 4, 5, 8])
    return c


def strategy(r, case):
    s = gen.strategy(r, py=True)
    s["p_team"] = 0.0
    if case["what"] == "bpr" and case["k"]["threads"] > 1:
        s.update(mode="serial", same=True, p_stall=0.0, max_threads=8)
    return s


def state(case, seed=None):
    s = case["seed"] if seed is None else seed
    return {"int": lambda: s, "npint": lambda: np.int64(s), "npint32": lambda: np.uint32(s), "rs": lambda: np.random.RandomState(s), "gen": lambda: np.random.default_rng(s),
            "bits": lambda: np.random.Generator(np.random.PCG64(s))}[case["rs"]]()


def do(case, mat, rs):
    w = case["what"]
    if w in common.MF:
        k = dict(case["k"])
        m = common.build(k, random_state=rs)
        m.fit(mat, show_progress=False)
        return common.state_of(m)
    if w == "split":
        out = ev.train_test_split(mat, case["frac"], rs)
    else:
        out = ev.leave_k_out_split(mat, case["K"], case["only"], rs)
    for o in out:
        o.sort_indices()
    return tuple(gen.snap_csr(o) for o in out)


def glob():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


def run(case, ctx):
    mat = gen.matrix(case["m"], np.float32, min_nnz=4)
    g0 = glob()
    with ctx.session(mode="serial"):
        a = do(case, mat, state(case))
    ctx.check(glob() == g0, "global-state", "%s with random_state=%s changed the process-wide random state" % (case["what"], case["rs"]))
    d = case["disturb"]
    r = random.Random(case["dseed"])
    if "np_seed" in d:
        np.random.seed(r.randrange(1 << 31))
    if "np_draw" in d:
        np.random.random(r.randint(1, 50))
    if "py_seed" in d:
        random.seed(r.randrange(1 << 31))
    with ctx.session(mode="serial"):
        if "before_same" in d:
            do(case, mat, state(case))
        if "before_other" in d:
            do(case, mat, state(case, case["seed"] + 17))
    if "before_other" in d:
        common.fit(common.build({"kind": "als", "factors": 2, "reg": 0.1, "iters": 1, "threads": 1, "seed": 3, "f32": True, "alpha": 1.0, "cg": True, "loss": False}), mat)
    if "clock" in d:
        rt.CLOCK.rng, rt.CLOCK.p = random.Random(r.random()), 0.5
    others = []
    if "thread_draw" in d:
        def draw():
            for _ in range(20):
                np.random.random(3)
                random.random()
                simrt.point()
        others.append(draw)
    oc = dict(case, what=r.choice(["als", "lmf"]), rs="int", seed=r.choice([case["seed"], 5]))
    oc["k"] = {"kind": oc["what"], "factors": 2, "reg": 0.5, "iters": 1, "threads": 2, "seed": 3, "f32": True, "alpha": 1.0, "cg": True, "loss": False, "lr": 1.0, "neg": 2}
    if "thread_fit" in d:
        others.append(lambda: do(oc, mat, oc["seed"]))
    if "thread_split" in d:
        others.append(lambda: (ev.leave_k_out_split(mat, 1, 0.3, 9), ev.train_test_split(mat, 0.5, 9)))
    try:
        if others or "threads" in d:
            same = [lambda: do(case, mat, state(case))] * (2 if "threads" in d else 1)
            res = ctx.par(same + others)
            for got, err in res[:len(same)]:
                if err is not None:
                    raise err
                ctx.check(got == a, "not-reproducible", "%s (%s) gives another result with concurrent activity %s" % (case["what"], case["rs"], d))
            for _, err in res[len(same):]:
                if err is not None:
                    raise err
        g1 = glob()
        with ctx.session():
            b = do(case, mat, state(case))
        ctx.check(glob() == g1, "global-state", "%s changed the process-wide random state" % case["what"])
    finally:
        ctx.fault("clock_jump", rt.CLOCK.jumps)
        rt.CLOCK.rng = None
    ctx.check(b == a, "not-reproducible", "%s (%s) gives another result after %s" % (case["what"], case["rs"], d))
    for x in d:
        ctx.fault("disturbance:" + x)
    # other seeds give other results
    if case["what"] in common.MF:
        k0 = dict(case, k=dict(case["k"], iters=0))
        outs = {do(k0, mat, state(case, case["seed"] + j)) for j in range(3)}
        ctx.check(len(outs) == 3, "seed-ignored", "%s: different seeds give the same starting factors" % case["what"])
    elif mat.nnz >= 40 and case["what"] == "split":
        outs = {do(case, mat, state(case, case["seed"] + j)) for j in range(4)}
        ctx.check(len(outs) == 4, "seed-ignored", "%s: different seeds give the same split" % case["what"])
    elif case["what"] == "leave":
        elig = np.diff(mat.indptr)
        if (elig > case["K"] + 4).sum() >= 5:
            outs = {do(case, mat, state(case, case["seed"] + j)) for j in range(12)}
            ctx.check(len(outs) > 1, "seed-ignored", "leave_k_out_split: 12 different seeds give the same split")
    ctx.note(repr(a))
