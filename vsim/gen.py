"""Seeded generators shared by the properties: scheduling strategies and workload matrices."""
import math

import numpy as np
import scipy.sparse as sp


def logu(r, a, b):
    return math.exp(r.uniform(math.log(a), math.log(b)))


def strategy(r, py=False):
    """a scheduling strategy (swarm style: kinds of decisions are switched on at random)"""
    kind = r.choice(["random", "random", "conflict", "conflict", "pct", "pct", "rr", "serial", "sync"])
    s = {"seed": r.randrange(1 << 62), "max_threads": r.choice([1, 2, 3, 4, 4, 5, 8])}
    if kind == "random":
        s.update(mode="random", p_mem=logu(r, 1e-4, 0.03), p_sync=r.choice([0.0, 0.1, 0.5, 1.0]),
                 p_py=logu(r, 1e-3, 0.3))
    elif kind == "conflict":
        s.update(mode="random", p_mem=r.choice([0.0, 0.0, 1e-3]), p_sync=r.choice([0.0, 0.1, 0.5]),
                 p_conf=r.choice([0.02, 0.1, 0.5]), p_py=logu(r, 1e-2, 0.5))
    elif kind == "pct":
        s.update(mode="pct", pct_depth=r.choice([1, 2, 3, 4, 6, 10]), pct_k=int(logu(r, 50, 200000)))
    elif kind == "rr":
        s.update(mode="rr", quantum=r.choice([1, 2, 3, 5, 8, 13, 30, 60, 200, 1000]), p_sync=r.choice([0.0, 0.3]))
        if s["quantum"] < 5:
            s["quantum"] = s["quantum"] * 5
    elif kind == "serial":
        s.update(mode="serial")
    else:
        s.update(mode="random", p_mem=0.0, p_sync=r.choice([0.3, 1.0]), p_py=logu(r, 1e-3, 0.1))
    if kind != "serial":
        s["p_stall"] = r.choice([0.0, 0.0, 0.05, 0.3])
        s["stall_len"] = int(logu(r, 10, 50000))
    s["p_team"] = r.choice([0.0, 0.0, 0.3])
    return s


def rs(seed):
    return np.random.RandomState(seed & 0x7FFFFFFF)


def matrix_case(r, max_users=60, max_items=50, neg=True, zeros=False):
    c = {"mseed": r.randrange(1 << 30), "users": r.choice([1, 2, 5, 7, 8, 9, 15, 16, 17, 24, 33, r.randint(2, max_users)]),
            "items": r.choice([1, 2, 5, 8, 9, 16, 17, 30, r.randint(2, max_items)]),
            "density": r.choice([0.03, 0.1, 0.25, 0.6]), "neg": bool(neg and r.random() < 0.3),
            "empty": r.choice([0.0, 0.0, 0.2, 0.5]), "vals": r.choice(["int", "one", "float", "big"]),
            "unsorted": r.random() < 0.2, "zeros": bool(zeros and r.random() < 0.3)}
    if r.random() < 0.05:
        # sizes beyond any small constant in the code
        which = r.choice(["users", "items", "both"])
        if which != "items":
            c["users"] = r.choice([64, 65, 100, 128, 129, 200, 257, 300])
        if which != "users":
            c["items"] = r.choice([64, 65, 100, 128, 129, 200, 257, 300])
        cells = c["users"] * c["items"]
        c["density"] = min(c["density"], 0.03 if which == "both" else 0.6 if cells < 2600 else 0.25 if cells < 8000 else 0.1)
    return c


def matrix(c, dtype=np.float32, min_nnz=1):
    g = rs(c["mseed"])
    u, i = c["users"], c["items"]
    mask = g.random_sample((u, i)) < c["density"]
    if c["empty"]:
        mask[g.random_sample(u) < c["empty"]] = False
        mask[:, g.random_sample(i) < c["empty"]] = False
    while mask.sum() < min(min_nnz, u * i):
        mask[g.randint(u), g.randint(i)] = True
    rows, cols = np.nonzero(mask)
    n = len(rows)
    kind = c["vals"]
    if kind == "int":
        data = g.randint(1, 10, n).astype(np.float64)
    elif kind == "one":
        data = np.ones(n)
    elif kind == "float":
        data = np.round(g.random_sample(n) * 4 + 0.05, 3)
    else:
        data = g.choice([1.0, 2.0, 40.0, 100.0], n)
    if c["neg"]:
        data[g.random_sample(n) < 0.25] *= -1
    m = sp.csr_matrix((data.astype(dtype), (rows, cols)), shape=(u, i))
    if c.get("zeros") and n:
        m.data[g.random_sample(n) < 0.15] = 0
    if c["unsorted"]:
        shuffle_rows(m, g)
    return m


def retype(m, dt):
    """the same matrix with another value type (integers: the values rounded away from zero, the large ones larger)"""
    if dt == "f4":
        return m
    c = copy_csr(m)
    if dt[0] == "i":
        d = np.sign(c.data) * np.ceil(np.abs(c.data))
        c.data = np.where(np.abs(d) == 100, d * 3, d)
    c.data = c.data.astype({"f8": np.float64, "i2": np.int16, "i4": np.int32, "i8": np.int64}[dt])
    return c


def shuffle_rows(m, g):
    for r in range(m.shape[0]):
        a, b = m.indptr[r], m.indptr[r + 1]
        p = g.permutation(b - a)
        m.indices[a:b] = m.indices[a:b][p]
        m.data[a:b] = m.data[a:b][p]
    m.has_sorted_indices = False


def copy_csr(m):
    c = sp.csr_matrix((m.data.copy(), m.indices.copy(), m.indptr.copy()), shape=m.shape)
    return c


def bits(a):
    return np.ascontiguousarray(a).tobytes()


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bits(a) == bits(b)


def snap_csr(m):
    return (m.shape, m.dtype.str, bits(m.data), bits(m.indices), bits(m.indptr))
