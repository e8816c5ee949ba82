"""Models trained concurrently in one process do not affect each other."""
import io
import os
import random
import sys

import numpy as np

import implicit.evaluation as ev
from vsim import common, conc, gen, rt

ID = "C13"
TIMEOUT = 120


def new_case(r, i=0):
    n = r.choice([2, 2, 2, 3, 4])
    shared = r.random() < 0.4
    mats = [gen.matrix_case(r, max_users=24, max_items=24, neg=False) for _ in range(1 if shared else n)]
    for m in mats:
        m["users"], m["items"], m["density"] = max(4, m["users"]), max(4, m["items"]), max(0.1, m["density"])
    if not shared and r.random() < 0.6:
        # other interactions, same shape: everything that is keyed by size alone collides
        mats = [dict(mats[0], mseed=r.randrange(1 << 30)) for _ in mats]
    same = r.random() < 0.5
    jobs = []
    for t in range(n):
        if same and jobs:
            k = dict(jobs[0]["k"])
            if r.random() < 0.5 and "seed" in k:
                k["seed"] = r.randrange(1 << 30)
        else:
            k = common.model_case(r)
            if k["kind"] == "bpr":
                k["threads"] = 1  # several threads update the factors without locks
            elif k["kind"] == "lmf":
                k["threads"] = r.choice([1, 2, 3, 4])
        m = mats[t % len(mats)]
        ops = []
        for _ in range(r.choice([0, 1, 1, 2])):
            o = r.choice(["query", "query", "query", "refit", "eval", "partial", "save", "split"])
            if o == "query":
                q = common.query_case(r, k["kind"], m["users"], m["items"])
                ops.append(dict(q, what="query"))
            else:
                ops.append({"what": o, "seed": r.randrange(1 << 30)})
        jobs.append({"k": k, "ops": ops, "progress": r.random() < 0.15, "cb": r.random() < 0.3, "fault": None})
    if r.random() < 0.3:
        jobs[r.randrange(n)]["fault"] = conc.fault_case(r)
    return {"mats": mats, "jobs": jobs}


def strategy(r, case):
    s = gen.strategy(r, py=True)
    s["p_team"] = 0.0
    return s


def setup():
    conc.install_alloc_faults()


def work(job, mat, path):
    """trains a model, then uses it; everything that comes out, in order"""
    k = job["k"]
    mat_t = mat.T.tocsr()
    m = common.build(k)
    out = []
    seen = []
    kw = {}
    if job["cb"] and k["kind"] in common.MF:
        kw["callback"] = lambda e, *a: seen.append((e, common.state_of(m)))
    m.fit(mat, show_progress=job["progress"], **kw)
    out.append(common.state_of(m))
    out.append(tuple(seen))
    for o in job["ops"]:
        w = o["what"]
        if w == "query":
            res = common.call(m, o, mat, mat_t)
            out.append(res if res[0] == "exc" else tuple((x.shape, x.dtype.str, gen.bits(x)) for x in res[1]))
        elif w == "refit":
            m.fit(mat, show_progress=False)
            out.append(common.state_of(m))
        elif w == "eval":
            tr, te = ev.train_test_split(mat, 0.7, o["seed"])
            tr, te = tr.tocsr().astype(mat.dtype), te.tocsr().astype(mat.dtype)
            if te.nnz and np.diff(te.indptr).max() < te.shape[1]:  # the metrics are undefined otherwise
                out.append(tuple(sorted(ev.ranking_metrics_at_k(m, tr, te, K=3, show_progress=False, num_threads=2).items())))
        elif w == "split":
            out.append(tuple(gen.snap_csr(x) for x in ev.leave_k_out_split(mat, 1, 0.2, o["seed"])))
        elif w == "partial" and k["kind"] == "als":
            u = o["seed"] % mat.shape[0]
            m.partial_fit_users([u], mat[[u]])
            out.append(common.state_of(m))
        elif w == "save":
            m.save(path)
            m2 = type(m).load(path)
            out.append(common.state_of(m2))
            os.unlink(path)
    out.append(common.state_of(m))
    return out


def run(case, ctx):
    mats = []
    for t, j in enumerate(case["jobs"]):
        mc = case["mats"][t % len(case["mats"])]
        mats.append(common.data_for(j["k"]["kind"], gen.matrix(mc, np.float32, min_nnz=6)))
    if len(case["mats"]) == 1:
        # shared input objects
        by = {}
        mats = [by.setdefault(m.dtype, m) for m in mats]
    snaps = [gen.snap_csr(m) for m in mats]
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        alone = []
        for t, j in enumerate(case["jobs"]):
            with ctx.session(mode="serial"):
                alone.append(work(j, gen.copy_csr(mats[t]), os.path.join(ctx.scratch, "a%d.npz" % t)))
        hit = {}

        def go(t):
            j = case["jobs"][t]

            def f():
                p = os.path.join(ctx.scratch, "m%d.npz" % t)
                if j["fault"]:
                    res, e, fired = conc.faulty(ctx, j["fault"], lambda: work(j, mats[t], p))
                    if fired:
                        hit[t] = True
                        return None
                    if e is not None:
                        raise e
                    return res
                return work(j, mats[t], p)
            return f

        res = ctx.par([go(t) for t in range(len(mats))])
        for t, (got, e) in enumerate(res):
            if e is not None:
                raise e
            if got is None:
                ctx.probe("fault_in_call")
                continue
            compare(ctx, case, t, got, alone[t], "concurrently")
        if hit:
            # the failed one, and everything else, works afterwards
            for t in range(len(mats)):
                with ctx.session(mode="serial"):
                    got = work(case["jobs"][t], mats[t], os.path.join(ctx.scratch, "b%d.npz" % t))
                compare(ctx, case, t, got, alone[t], "after a failed neighbour")
    finally:
        sys.stderr = err
    for m, s in zip(mats, snaps):
        ctx.check(gen.snap_csr(m) == s, "input-changed", "a training changed the shared input")
    ctx.note(repr([r for r, _ in res]))


def compare(ctx, case, t, got, want, label):
    j = case["jobs"][t]
    names = ["fit", "callbacks"] + [o.get("op", o["what"]) for o in j["ops"]] + ["final state"]
    if len(got) != len(want):
        raise rt.HarnessError("different number of results")
    # names of skipped operations are left out
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.check(a == b or (isinstance(a, tuple) and a and a[0] == "exc" and a[:2] == b[:2]), "interference",
                  lambda: "model %d (%s) %s: step %d of %s differs from the same work done alone" % (t, j["k"]["kind"], label, i, names))
