"""Budgets, coverage rules and shrinkers per property (imported by the supervisor: no numpy here)."""
import copy

REAL = ["all Python code of the package", "all compiled CPU modules, rebuilt from the working tree with every memory "
        "access as a yield point", "numpy, scipy (BLAS/LAPACK single threaded), tqdm"]
STUB = ["OpenMP runtime (own implementation on the simulated scheduler)", "clock (virtual)",
        "threading locks and thread start (simulated)"]
ASSUME = ["BLAS/LAPACK and the Python interpreter's C code run atomically between yield points",
          "sequentially consistent memory: weak-memory reorderings are not simulated",
          "seeded search: absence of violations holds for the explored schedules only"]

META = {}
SHRINK = {}


def meta(pid, rule, quick_s=40, thorough_s=1200, quick_min=64, thorough_min=1000, real=None, stub=None, assume=None, guard=False):
    META[pid] = {"quick_s": quick_s, "thorough_s": thorough_s, "quick_min": quick_min, "thorough_min": thorough_min,
                 "rule": rule, "guard": guard, "real": REAL + (real or []), "stub": STUB + (stub or []), "assumptions": ASSUME + (assume or [])}


def simpler(case, path, values):
    """variants of the case with the value at path replaced by each smaller candidate"""
    keys = path.split(".")
    d = case
    for k in keys[:-1]:
        d = d.get(k)
        if not isinstance(d, dict):
            return
    if keys[-1] not in d:
        return
    cur = d[keys[-1]]
    for v in values:
        if v == cur or (isinstance(v, (int, float)) and isinstance(cur, (int, float)) and not isinstance(cur, bool) and v > cur):
            continue
        c = copy.deepcopy(case)
        e = c
        for k in keys[:-1]:
            e = e[k]
        e[keys[-1]] = v
        yield c


def shrinker(spec):
    def f(case):
        for path, values in spec:
            yield from simpler(case, path, values)
        # halve lists
        for k, v in case.items():
            if isinstance(v, list) and len(v) > 1:
                for cut in (v[:len(v) // 2], v[len(v) // 2:], v[:-1], v[1:]):
                    c = copy.deepcopy(case)
                    c[k] = copy.deepcopy(cut)
                    yield c
    return f


MAT = [("m.users", [1, 2, 3, 5, 9, 17]), ("m.items", [1, 2, 3, 5, 9]), ("m.empty", [0.0]), ("m.unsorted", [False]),
       ("m.neg", [False]), ("m.zeros", [False]), ("m.vals", ["one"])]

meta("C01", "One evaluation = one seeded workload (matrix, solver, dtype, thread count) trained under one seeded schedule, "
     "compared bit by bit per epoch with a one-thread run and row by row with a float64 sequential reference.")
SHRINK["C01"] = shrinker([("iters", [1, 2]), ("factors", [1, 2, 3, 4]), ("alpha", [1.0]), ("idx64", [False]),
                          ("recalc", [False]), ("threads", [0]), ("start", ["random"]), ("dt", ["f4"])] + MAT)

meta("C03", "One evaluation = one training with loss calculation (or one direct loss computation) under a seeded schedule; every "
     "reported loss is compared with the dense float64 definition on the factors of that moment.")
SHRINK["C03"] = shrinker([("iters", [1, 2]), ("factors", [1, 2, 3]), ("alpha", [1.0]), ("threads", [0]), ("dt", ["f4"])] + MAT)
meta("C04", "One evaluation = one item-item training under a seeded schedule (and once on one thread); every stored row is compared "
     "with the K best entries of the dense weighted product.")
SHRINK["C04"] = shrinker([("k.K", [1, 2, 3, 5]), ("progress", [False]), ("k.threads", [0]), ("k.kind", ["item"])] + MAT)
meta("C02", "One evaluation = one failure (unsolvable row, failing batch, failing progress stream, NaN) placed at a seeded position of a "
     "parallel call under a seeded schedule, followed by a healthy training and query in the same process.")
SHRINK["C02"] = shrinker([("n_bad", [1]), ("iters", [1]), ("factors", [2]), ("threads", [0]), ("rows", [150, 201])] + MAT)
meta("C05", "One evaluation = 2-4 caller threads with 1-3 calls each on one item-item model under a seeded schedule (Python instructions, lock "
     "operations and every memory access of the scorer are yield points), some calls failing or interrupted; every result is compared with the "
     "call made alone on a fresh copy, and all calls are repeated afterwards.")
SHRINK["C05"] = shrinker([("fault", [None]), ("via", ["fit"]), ("k.K", [1, 2, 5]), ("k.kind", ["item"]), ("f32", [False])] + MAT)
meta("C06", "One evaluation = 2-4 caller threads with 1-2 queries each on one factor model under a seeded schedule, cold or warm caches; every "
     "result is compared with the query made alone on a fresh copy, and all are repeated afterwards.")
SHRINK["C06"] = shrinker([("fault", [None]), ("via", ["fit"]), ("k.factors", [1, 2]), ("k.iters", [1]), ("zero", [0.0])] + MAT)
meta("C07", "One evaluation = one batch query (1-1203 rows, filters, candidate lists, recalculation) on a fitted model under a seeded schedule; every "
     "row is compared with the same row asked alone on a fresh copy and with the exact float64 ranking.")
SHRINK["C07"] = shrinker([("rows", [1, 2, 7, 101, 201]), ("k.factors", [1, 2]), ("k.iters", [1]), ("zero", [0.0]), ("py", [False]), ("other", [False])] + MAT)
meta("C08", "One evaluation = one seeded history (fits, retraining, fits aborted by the callback or by an injected interrupt, partial fits, save/load, "
     "pickling, failing calls, queries from callbacks); after every step queries are compared with a fresh object that has the same factors.")
SHRINK["C08"] = shrinker([("k.factors", [1, 2]), ("k.iters", [1])] + MAT)
meta("C09", "One evaluation = 1-3 calls (training, queries, splits, metrics, partial fits; some failing or interrupted) running concurrently on shared "
     "inputs of a seeded format and dtype; an observer thread and a final check compare every input and the fitted model with their snapshots.")
SHRINK["C09"] = shrinker([("fault", [None]), ("watch", [False]), ("repeat", [False]), ("fmt", ["csr"])] + MAT)
meta("C10", "One evaluation = one training or split with a seeded random_state object, repeated under disturbances (process-wide random state, clock "
     "jumps, earlier calls, other threads drawing random numbers or training under a seeded schedule); results must be bit-identical.")
SHRINK["C10"] = shrinker([("k.iters", [0, 1]), ("k.factors", [1, 2]), ("rs", ["int"])] + MAT)
meta("C11", "One evaluation = one BPR training under a seeded interleaving of its lock-free threads with invariant checks per epoch (and the same without "
     "overlap); sub-kinds decode the sampled triples from unit-vector users, or enumerate all sample sequences of a tiny epoch.")
SHRINK["C11"] = shrinker([("iters", [1]), ("factors", [1, 2]), ("threads", [1, 2]), ("again", [False]), ("idx64", [False])] + MAT)
meta("C12", "One evaluation = one LMF training under a seeded schedule: bit-identical per epoch to the same training without overlap; without negatives also "
     "identical for another thread count and followed row by row with a float64 Adagrad reference; a sub-kind decodes the drawn negatives.")
SHRINK["C12"] = shrinker([("iters", [1]), ("factors", [1, 2]), ("threads", [1, 2]), ("again", [False]), ("idx64", [False]), ("data64", [False])] + MAT)
meta("C13", "One evaluation = 2-4 separate models trained and used at the same time by as many caller threads (each training on several simulated worker threads) "
     "under a seeded schedule, some with failing allocations or interrupts; every result is compared bit by bit with the same work done alone.")
SHRINK["C13"] = shrinker([])
meta("C14", "One evaluation = one model (7 families, fitted, unfitted, partially refitted, strided factors) saved and loaded through one seeded route with one kind of "
     "fault: failing/short/interrupted/lost writes, read errors, process crash at the n-th disk operation with lost blocks, truncation, interrupts, failing file "
     "objects, concurrent savers; load must give the saved model (state, parameters, queries, retraining) or raise.",
     real=["the file system below a scratch directory, numpy's npz code, zipfile"],
     stub=["system calls on the scratch directory pass through an LD_PRELOAD layer that injects errors, short and lost writes and crashes"],
     assume=["damage after a crash is lost or zeroed blocks and truncation, not arbitrary bit flips (the npz checksums are 32 bit)"])
SHRINK["C14"] = shrinker([("state", ["fit"]), ("via", ["path"]), ("old", [False]), ("rs", ["int"]), ("k.factors", [1, 2]), ("k.iters", [1])] + MAT)
meta("C15", "One evaluation = one seeded history of 1-5 dataset calls (single, concurrent, killed) with network faults (reset, early end, timeout, error status, "
     "refused, name failure, slow, redirect), disk faults (failing/short/lost writes, failing open/close/rename/read), interrupts and process kills at seeded points; "
     "then all faults stop and every dataset must be returned correctly, once more without a network.",
     real=["urllib, http.client, h5py/HDF5, the file system below a scratch directory"],
     stub=["sockets (simulated HTTP server with seeded faults)", "system calls on the scratch directory pass through an LD_PRELOAD fault layer"],
     assume=["HDF5 library calls run atomically", "the server announces the length of the transfer (or uses chunked encoding), as the real one does"])
SHRINK["C15"] = shrinker([("fresh_dir", [True])])
meta("C16", "One evaluation = one training with a recording callback under a seeded schedule, with clock jumps, queries/sleeps/random draws in the callback, an exception "
     "from the callback or the progress stream at a seeded point, or a split into two trainings; the model after k epochs is compared bit by bit with k-epoch trainings.")
SHRINK["C16"] = shrinker([("k.iters", [1, 2, 3]), ("k.factors", [1, 2]), ("clock", [0.0]), ("progress", [False])] + MAT)
meta("C17", "One evaluation = a fitted ALS model and 1-4 incremental updates (existing and new ids in any order, warm or cold caches) under a seeded schedule, with an "
     "exception injected at a seeded line, a failing allocation, an unsolvable row or invalid arguments; the factors must be bitwise the old ones or completely "
     "updated (least-squares reference), and queries must agree with a fresh object.")
SHRINK["C17"] = shrinker([("k.iters", [1]), ("k.factors", [1, 2])] + MAT)
meta("C18", "One evaluation = one split (random or leave-k-out, any sparse format, dtype and index width) drawn from a seeded or adversarial random source (all draws equal, "
     "at the threshold, sorted, coarse, first/last choice), alone, after a failed allocation, or in 2-3 threads sharing the source under a seeded schedule; every stored "
     "interaction is accounted for one by one.",
     stub=["random source (numpy generators with seeded or adversarial outcomes)"])
SHRINK["C18"] = shrinker([("par", [0]), ("alloc", [0]), ("K", [1, 2]), ("only", [0.0]), ("fmt", ["csr"]), ("idx64", [False]), ("dt", ["f4"]), ("rs", ["int"]), ("many", [False])] + MAT)
meta("C20", "One evaluation = one call (or 2-3 concurrent calls, with queries next to them) of an evaluation function on a fitted factor or neighbour model, or on a model with "
     "generated recommendation lists for up to 2300 users, under a seeded schedule, some after a failing allocation or model; every metric is compared with its definition "
     "over each user's individually asked list.",
     stub=["in a part of the runs: the recommendation model (a table of lists)"])
SHRINK["C20"] = shrinker([("par", [0]), ("fault", [None]), ("progress", [False]), ("fmt", ["csr"]), ("K", [1, 2, 3]), ("num", [1]), ("k.factors", [1, 2]), ("values", ["one"])] + MAT)
meta("C19", "One evaluation = one wrapped model (3 libraries, ALS/BPR/LMF inside) and a seeded history of trainings, retrainings on another matrix and trainings that fail (callback, "
     "interrupt at a seeded line, failing index), each followed by single, batch or concurrent queries under a seeded schedule; every answer is compared with the exact "
     "float64 ranking of the wrapped model's current factors.",
     real=["implicit.ann.*, implicit.approximate_als"], stub=["annoy, faiss and nmslib (exact in-memory stand-ins with seeded failures; faiss is exact only with nprobe >= nlist)"])
SHRINK["C19"] = shrinker([("k.iters", [1]), ("k.factors", [1, 2]), ("zero", [0]), ("nlist", [1]), ("via", ["class"])] + MAT)
meta("C23", "One evaluation = one model trained and used through a seeded history of calls (queries, incremental updates, retraining, metrics, splits, assigned factors) with valid and "
     "invalid arguments (ids, sizes, shapes, dtypes, index widths) under a seeded schedule; every memory access of the compiled modules is checked against a shadow map of "
     "the live heap blocks with forbidden zones around and after them.", guard=True,
     stub=["heap allocator (forbidden zones around each block, freed blocks kept for a while)"],
     assume=["accesses made inside BLAS/LAPACK on behalf of the package, and accesses that stay inside the same heap block, are not checked"])
SHRINK["C23"] = shrinker([("k.iters", [1]), ("k.factors", [1, 2]), ("dup", [False]), ("idx64", [False]), ("threads", [1])] + MAT)
