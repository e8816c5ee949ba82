"""Exact stand-ins for the annoy, faiss and nmslib modules, with seeded failures and yield points."""
import sys
import types

import numpy as np

import simrt

FAIL = {"at": 0, "n": 0, "fired": 0, "exc": None}


def arm(at, exc):
    FAIL.update(at=at, n=0, fired=0, exc=exc)


def disarm():
    FAIL["at"] = 0
    return FAIL["fired"]


def _op():
    if simrt.active():
        simrt.point()
    if FAIL["at"]:
        FAIL["n"] += 1
        if FAIL["n"] == FAIL["at"]:
            FAIL["fired"] += 1
            raise FAIL["exc"]


def _cos(x, q):
    """cosine of every row of x with q; zero vectors have no direction (cosine 0)"""
    x, q = np.asarray(x, np.float64), np.asarray(q, np.float64)
    nx, nq = np.sqrt((x * x).sum(1)), np.sqrt((q * q).sum())
    d = nx * nq
    return np.divide(x.dot(q), d, out=np.zeros(len(x)), where=d > 0)


def _vector(v, f):
    v = np.asarray(v, np.float32)
    if v.shape != (f,):
        raise IndexError("Vector has wrong length (expected %d, got %s)" % (f, v.shape))
    return v


class AnnoyIndex:
    def __init__(self, f, metric):
        _op()
        if metric != "angular":
            raise ValueError("this stand-in has the angular metric only")
        self.f, self.rows, self.built = f, {}, 0

    def add_item(self, i, vector):
        _op()
        if self.built:
            raise RuntimeError("You can't add an item to a loaded index")
        self.rows[int(i)] = _vector(vector, self.f)

    def build(self, n_trees, n_jobs=-1):
        _op()
        if self.built:
            raise RuntimeError("You can't build a built index")
        self.built = n_trees
        return True

    def get_nns_by_vector(self, vector, n, search_k=-1, include_distances=False):
        _op()
        v = _vector(vector, self.f)
        if not self.built or not self.rows:
            return ([], []) if include_distances else []
        ids = np.array(sorted(self.rows))
        d = np.sqrt(np.maximum(0, 2 - 2 * _cos(np.stack([self.rows[i] for i in ids]), v))).astype(np.float32)
        o = np.argsort(d, kind="stable")[:n]
        _op()
        return (ids[o].tolist(), d[o].astype(float).tolist()) if include_distances else ids[o].tolist()

    def get_n_items(self):
        return len(self.rows)


class IndexFlat:
    def __init__(self, d, metric=1):
        _op()
        self.d = d


class IndexIVFFlat:
    """inverted lists: visits nprobe of the nlist cells, so it is exact with nprobe >= nlist"""

    def __init__(self, quantizer, d, nlist, metric=1):
        _op()
        if not isinstance(quantizer, IndexFlat) or quantizer.d != d:
            raise ValueError("the quantizer has other dimensions")
        self.d, self.nlist, self.metric, self.nprobe = d, nlist, metric, 1
        self.is_trained, self.x = False, np.zeros((0, d), np.float32)

    def _in(self, x):
        x = np.array(np.asarray(x), dtype=np.float32, order="C")
        if x.ndim != 2 or x.shape[1] != self.d:
            raise AssertionError("shape %s" % (x.shape,))
        return x

    def train(self, x):
        _op()
        if len(self._in(x)) < self.nlist:
            raise RuntimeError("Number of training points should be at least as large as number of clusters")
        self.is_trained = True

    def add(self, x):
        _op()
        if not self.is_trained:
            raise RuntimeError("Error: 'is_trained' failed")
        self.x = np.concatenate([self.x, self._in(x)])

    def search(self, q, k):
        _op()
        q = self._in(q)
        s = q.astype(np.float64).dot(self.x.T.astype(np.float64))
        if self.metric != METRIC_INNER_PRODUCT:
            raise RuntimeError("this stand-in has the inner product only")
        cell = np.arange(len(self.x)) % self.nlist
        ids = np.full((len(q), k), -1, np.int64)
        sc = np.full((len(q), k), -np.finfo(np.float32).max, np.float32)
        for r in range(len(q)):
            ok = np.nonzero(cell < self.nprobe)[0]
            o = ok[np.argsort(-s[r][ok], kind="stable")][:k]
            ids[r, :len(o)], sc[r, :len(o)] = o, s[r][o]
        _op()
        return sc, ids

    @property
    def ntotal(self):
        return len(self.x)


METRIC_INNER_PRODUCT, METRIC_L2 = 0, 1


class NmsIndex:
    def __init__(self, method, space):
        if space != "cosinesimil":
            raise ValueError("this stand-in has the cosine space only")
        self.data, self.ids, self.created = None, None, False

    def addDataPointBatch(self, data, ids=None):
        _op()
        data = np.array(data, np.float32)
        ids = np.arange(len(data)) if ids is None else np.array(ids)
        if len(ids) != len(data):
            raise ValueError("ids and data have different lengths")
        self.data = data if self.data is None else np.concatenate([self.data, data])
        self.ids = ids if self.ids is None else np.concatenate([self.ids, ids])
        return len(data)

    def createIndex(self, index_params=None, print_progress=False):
        _op()
        self.created = True

    def setQueryTimeParams(self, params=None):
        _op()

    def knnQuery(self, vector, k=10):
        _op()
        if not self.created:
            raise RuntimeError("the index was not created")
        d = (1 - _cos(self.data, _vector(vector, self.data.shape[1]))).astype(np.float32)
        o = np.argsort(d, kind="stable")[:k]
        _op()
        return self.ids[o].astype(np.int32), d[o]

    def knnQueryBatch(self, queries, k=10, num_threads=0):
        return [self.knnQuery(q, k) for q in np.asarray(queries)]


def install():
    a = types.ModuleType("annoy")
    a.AnnoyIndex = AnnoyIndex
    f = types.ModuleType("faiss")
    f.IndexFlat, f.IndexIVFFlat = IndexFlat, IndexIVFFlat
    f.METRIC_INNER_PRODUCT, f.METRIC_L2 = METRIC_INNER_PRODUCT, METRIC_L2
    f.IndexFlatIP = f.IndexFlatL2 = IndexFlat
    n = types.ModuleType("nmslib")
    n.init = lambda method="hnsw", space="cosinesimil", **kw: (_op(), NmsIndex(method, space))[1]
    sys.modules.update(annoy=a, faiss=f, nmslib=n)
