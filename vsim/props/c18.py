"""Train/test splits conserve every interaction, for every outcome of the random source."""
import numpy as np
import scipy.sparse as sp

import implicit.evaluation as ev
from vsim import conc, gen

ID = "C18"
setup = conc.install_alloc_faults
KINDS = ["int", "seed", "none", "rs", "gen", "zeros", "ones", "edge", "ties", "sorted", "reversed", "coarse", "first", "last"]


class Adversary(np.random.Generator):
    """a random source with legal but extreme outcomes"""

    def __new__(cls, seed, kind, p):
        return super().__new__(cls, np.random.PCG64(seed))

    def __init__(self, seed, kind, p):
        super().__init__(np.random.PCG64(seed))
        self.kind, self.p = kind, p

    def random(self, size=None, dtype=np.float64, out=None):
        u = super().random(size, dtype, out)
        k = self.kind
        if size is None:
            u = np.asarray(u)
        if k == "zeros":
            u = u * 0
        elif k == "ones":
            u = u * 0 + np.nextafter(np.float64(1), 0)
        elif k == "edge":
            u = np.where(u < 1 / 3, np.clip(np.nextafter(self.p, 0), 0, np.nextafter(1.0, 0)), np.where(u < 2 / 3, np.clip(self.p, 0, np.nextafter(1.0, 0)), u))
        elif k == "ties":
            u = u * 0 + 0.5
        elif k == "sorted":
            u = np.sort(u.ravel()).reshape(u.shape)
        elif k == "reversed":
            u = np.sort(u.ravel())[::-1].reshape(u.shape)
        elif k == "coarse":
            u = np.floor(u * 4) / 4
        return float(u) if size is None else u

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if not replace and p is None and size is not None and np.ndim(a) == 0 and self.kind in ("first", "last"):
            return np.arange(size) if self.kind == "first" else np.arange(a - size, a)[::-1].copy()
        return super().choice(a, size, replace, p, axis, shuffle)


def new_case(r, i=0):
    m = gen.matrix_case(r, max_users=40, max_items=40, neg=r.random() < 0.5, zeros=True)
    if r.random() < 0.05:
        m["users"] = r.randint(100, 400)
    m["density"] = r.choice([0.0, 0.05, 0.1, 0.25, 0.6, 1.0])
    return {"m": m, "what": r.choice(["split", "leave", "leave"]), "rs": r.choice(KINDS), "seed": r.choice([0, 1, r.randrange(1 << 31)]),
            "p": r.choice([0.0, 0.01, 0.2, 0.5, 0.8, 0.99, 1.0, round(r.random(), 3)]), "K": r.choice([1, 1, 1, 2, 3, 5, 8]),
            "only": r.choice([0.0, 0.0, 0.05, 0.2, 0.3, 0.5, 0.7, 0.9, 0.99]), "fmt": r.choice(["csr", "csr", "coo", "coo_shuffled", "csc", "coo_unsorted"]),
            "dt": r.choice(["f4", "f4", "f8", "f8", "i4", "i8", "i2", "u1", "b1"]), "scale": r.choice([1.0, 1.0, 0.125, 2.0 ** -20]), "idx64": r.random() < 0.15, "par": r.choice([0, 0, 0, 2, 3]), "share": r.random() < 0.5,
            "alloc": r.choice([0, 0, 0, 1, 2, 3]), "many": r.random() < 0.04}


def strategy(r, case):
    return gen.strategy(r, py=True)


def source(case, n=0):
    s, k = case["seed"] + n, case["rs"]
    if k in ("int", "seed"):
        return s
    if k == "none":
        return np.random.RandomState(s)  # a run must be repeatable: None would read the system's entropy
    if k == "rs":
        return np.random.RandomState(s)
    if k == "gen":
        return np.random.default_rng(s)
    return Adversary(s, k, case["p"])


def matrix(case):
    m = gen.matrix(case["m"], np.float64, min_nnz=0)
    m.data = np.round(m.data)
    if not case["m"]["zeros"]:
        m.data[m.data == 0] = 1
    # values identify their position as well as possible
    g = gen.rs(case["m"]["mseed"] + 1)
    if case["m"]["vals"] == "float":
        m.data = np.where(m.data == 0, 0, np.sign(m.data) * (1 + g.permutation(len(m.data))))
    if case["dt"] in ("f4", "f8"):
        m.data = m.data * case["scale"]
    if case["scale"] == 0.125 and case["dt"] in ("f8", "i8"):
        m.data = m.data / 3 if case["dt"] == "f8" else m.data * (2 ** 33 + 1)  # only exact in the original type
    if case["dt"] in ("u1", "b1", "i2"):
        m.data = np.minimum(np.abs(m.data), 200)
    m = m.astype({"f4": np.float32, "f8": np.float64, "i4": np.int32, "i8": np.int64, "i2": np.int16, "u1": np.uint8, "b1": bool}[case["dt"]])
    f = case["fmt"]
    if f == "csr":
        out = m
    elif f == "csc":
        out = m.tocsc()
    else:
        out = m.tocoo()
        if f != "coo":
            p = g.permutation(out.nnz)
            out = sp.coo_matrix((out.data[p], (out.row[p], out.col[p])), shape=m.shape)
    if case["idx64"] and f in ("csr", "csc"):
        out.indices, out.indptr = out.indices.astype(np.int64), out.indptr.astype(np.int64)
    return out


def entries(m):
    c = m.tocoo()
    d = {}
    for r, k, v in zip(c.row.tolist(), c.col.tolist(), c.data.tolist()):
        d.setdefault((r, k), []).append(v)
    return d


def do(case, mat, rs):
    if case["what"] == "split":
        return ev.train_test_split(mat, case["p"], rs)
    return ev.leave_k_out_split(mat, case["K"], case["only"], rs)


def run(case, ctx):
    mat = matrix(case)
    ref = entries(mat)
    if not ref:
        case = dict(case, only=0.0)  # no users to choose from: the split raises
    ctx.fault("random:" + case["rs"])
    if case["par"]:
        shared = source(case)
        if case["share"] and not isinstance(shared, np.random.Generator):
            shared = np.random.default_rng(case["seed"])
        res = ctx.par([(lambda j=j: do(case, mat, shared if case["share"] else source(case, j))) for j in range(case["par"])])
        for out, err in res:
            if err is not None:
                raise err
            verify(case, ctx, mat, ref, out)
    else:
        if case["alloc"]:
            with ctx.session():
                _, err, fired = conc.faulty(ctx, {"kind": "alloc", "at": case["alloc"]}, lambda: do(case, mat, source(case)))
            if err is not None and not fired:
                raise err
            ctx.check(entries(mat) == ref, "input", "a failing split changed its input")
        with ctx.session():
            out = do(case, mat, source(case))
        verify(case, ctx, mat, ref, out)
        if case["many"]:
            spread(case, ctx, mat, ref)


def verify(case, ctx, mat, ref, out):
    ctx.check(isinstance(out, tuple) and len(out) == 2 and all(sp.issparse(o) and o.format == "csr" for o in out), "form", "a split is two CSR matrices")
    train, test = out
    for n, o in (("train", train), ("test", test)):
        ctx.check(o.shape == mat.shape and o.dtype == mat.dtype, "shape", lambda: "%s is %s %s, the ratings are %s %s" % (n, o.shape, o.dtype, mat.shape, mat.dtype))
    tr, te = entries(train), entries(test)
    for n, d in (("train", tr), ("test", te)):
        for pos, v in d.items():
            ctx.check(len(v) == 1, "duplicated", lambda: "%s holds the interaction %s %d times" % (n, pos, len(v)))
            ctx.check(pos in ref and ref[pos] == v, "invented", lambda: "%s%s is %s, the ratings have %s" % (n, pos, v[0], ref.get(pos)))
    both = set(tr) & set(te)
    ctx.check(not both, "both", lambda: "the interactions %s are in train and test" % sorted(both)[:3])
    lost = [p for p in ref if p not in tr and p not in te]
    if case["what"] == "split":
        ctx.check(all(ref[p][0] <= 0 for p in lost), "lost", lambda: "the interactions %s are in neither matrix" % [(p, ref[p][0]) for p in lost if ref[p][0] > 0][:3])
        ctx.check(all(v[0] > 0 for v in te.values()), "negative-test", lambda: "the test matrix holds values that are not positive")
        n, p = len(ref), case["p"]
        if case["rs"] in ("int", "seed", "none", "rs", "gen"):
            # Bernstein bound: exceeded with a probability below 1e-12
            tol = 7.8 * np.sqrt(n * p * (1 - p)) + 20 if 0 < p < 1 else 1e-9
            ctx.check(abs(len(tr) - n * p) <= tol, "share", lambda: "%d of %d interactions are in the training matrix with train_percentage=%s" % (len(tr), n, p))
    else:
        ctx.check(not lost, "lost", lambda: "the interactions %s are in neither matrix" % lost[:3])
        held(case, ctx, ref, te)
    ctx.note(sorted(tr), sorted(te))


def held(case, ctx, ref, te):
    K = case["K"]
    have, out = {}, {}
    for r, _ in ref:
        have[r] = have.get(r, 0) + 1
    for r, _ in te:
        out[r] = out.get(r, 0) + 1
    elig = [u for u, c in have.items() if c > K + 1]
    for u, c in out.items():
        ctx.check(have[u] > K + 1, "ineligible", lambda: "user %d has %d interactions, yet %d are held out with K=%d" % (u, have[u], c, K))
        ctx.check(c == K, "count", lambda: "%d interactions of user %d (of %d) are held out with K=%d" % (c, u, have[u], K))
    reserved = len(elig) - len(out)
    if case["only"] == 0:
        ctx.check(reserved == 0, "not-held", lambda: "users %s have nothing held out" % [u for u in elig if u not in out][:4])
    elif have:
        size = max(1, int(len(have) * case["only"]))
        ctx.check(size - 1 - (len(have) - len(elig)) <= reserved <= size + 1, "reserved", lambda: "%d of %d users (%d eligible) are reserved for training, asked for %s" % (
            reserved, len(have), len(elig), case["only"]))
        if len(elig) == len(have):
            ctx.probe("all_eligible")
    ctx.probe("users_held", len(out))


def spread(case, ctx, mat, ref):
    """every interaction can be the one held out, every user can be reserved"""
    case = dict(case, rs="gen")
    if case["what"] == "split":
        if not 0.2 <= case["p"] <= 0.8:
            return
        seen_tr, seen_te = set(), set()
        for j in range(160):
            tr, te = do(case, mat, source(case, j + 1))
            seen_tr |= set(entries(tr))
            seen_te |= set(entries(te))
        pos = {p for p, v in ref.items() if v[0] > 0}
        ctx.check(set(ref) <= seen_tr and pos <= seen_te, "never", "some interactions always land on the same side in 160 random splits")
        ctx.probe("spread")
        return
    have = {}
    for r, _ in ref:
        have[r] = have.get(r, 0) + 1
    elig = {u for u, c in have.items() if case["K"] + 1 < c <= 8}
    if not elig or (case["only"] and max(1, int(len(have) * case["only"])) / len(have) > 0.75):
        return
    seen, users_out, users_in = set(), set(), set()
    n = 1000
    for j in range(n):
        tr, te = do(case, mat, source(case, j + 1))
        c = te.tocoo()
        pos = set(zip(c.row.tolist(), c.col.tolist()))
        seen |= pos
        us = {u for u, _ in pos}
        users_out |= us
        users_in |= elig - us
    miss = [p for p in ref if p[0] in elig and p not in seen]
    ctx.check(not miss, "never", lambda: "the interactions %s were never held out in %d splits" % (miss[:3], n))
    if case["only"] > 0 and max(1, int(len(have) * case["only"])) / len(have) > 0.04:
        ctx.check(users_in >= elig, "never", lambda: "users %s were never reserved for training" % sorted(elig - users_in)[:3])
    ctx.probe("spread")
