#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay uniform)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })


prop("C01", "ALS training is schedule-independent and equals its sequential definition",
     "For a given interaction matrix, starting factors and solver setting (Cholesky or conjugate gradient, any "
     "regularization, alpha, signed confidences, float32 or float64), ALS fitting yields bit-identical user and item "
     "factors for every number of threads the runtime grants, every assignment of rows to threads and every "
     "interleaving of those threads. Those factors are, up to rounding, the ones obtained by solving the rows one "
     "after the other as the algorithm is defined, with rows that have no interactions set to zero.",
     ["schedules", "inputs", "configurations"],
     "all thread counts, dynamic chunk assignments, preemption points and granted team sizes; all matrices including "
     "empty rows/columns, more rows than one chunk, zero and negative confidences",
     "The tests fit a few matrices with whatever schedule the machine happens to produce and check a loose "
     "reconstruction error; they never compare schedules or detect a rare lost or torn row update.",
     ["implicit/cpu/_als.pyx", "implicit/cpu/als.py"],
     [("per-thread work buffers and per-row ownership in the parallel loops", "implicit/cpu/_als.pyx:_least_squares, _least_squares_cg"),
      ("alternation user pass / item pass", "implicit/cpu/als.py:fit")],
     [("user_factors/item_factors", "the learned factors", "implicit/cpu/als.py")],
     ["model.user_factors, model.item_factors after fit", "recalculate_user / recalculate_item results"])

prop("C02", "An error inside a worker thread always reaches the caller",
     "When any row, batch or progress update processed by a worker thread fails (unsolvable row, out-of-range filter, "
     "failing progress output, NaN factors), the training or query call raises an exception in the caller, whichever "
     "thread hits it and whatever the other threads are doing. It is never swallowed, never turned into a returned "
     "result, a crash or a hang, and the same process can afterwards train and query correctly.",
     ["schedules", "fault_sequences", "inputs"],
     "all positions of failing rows/batches (one or several), all thread counts and interleavings, all fault points of the progress stream",
     "The tests have a single unsolvable matrix and one NaN case in a single schedule; the failing row's thread, "
     "chunk and timing relative to the other threads are never varied.",
     ["implicit/cpu/_als.pyx", "implicit/cpu/topk.pyx", "implicit/_nearest_neighbours.pyx", "implicit/cpu/matrix_factorization_base.py"],
     [("raise inside 'with gil' within prange", "implicit/cpu/_als.pyx:_least_squares"),
      ("exception propagation from batch threads", "implicit/cpu/topk.pyx:topk"),
      ("progress.update in the worker", "implicit/_nearest_neighbours.pyx:all_pairs_knn"),
      ("_check_fit_errors", "implicit/cpu/matrix_factorization_base.py")],
     observe=["exception seen by the caller of fit / recalculate_* / partial_fit_* / recommend / similar_*"])

prop("C03", "Reported ALS training loss equals its definition under every schedule",
     "When loss calculation is enabled, the loss handed to the callback after each epoch equals, up to rounding, the "
     "confidence-weighted squared error plus regularization of the factors at that moment, normalised by total "
     "confidence, for every thread count and interleaving. No row's or item's contribution is lost or counted twice.",
     ["schedules", "inputs", "configurations"],
     "all thread counts, chunk assignments and interleavings of the parallel reductions; non-negative confidences with explicit zeros excluded",
     "Tests only check that the loss decreases in one schedule; a lost update in the reduction changes the value without changing the trend.",
     ["implicit/cpu/_als.pyx", "implicit/cpu/als.py"],
     [("parallel reductions of loss, confidence and norms", "implicit/cpu/_als.pyx:_calculate_loss")],
     observe=["third argument of the fit callback", "implicit.cpu.als.calculate_loss"])

prop("C04", "Item-item neighbour training is exact for every schedule",
     "For every schedule of the training threads, an item-item model (raw, cosine, TF-IDF or BM25 weighting) stores "
     "for every item exactly the K highest entries of its row of the weighted item-item product (all of them if fewer "
     "than K are non-zero), each with its exact value and on its own row. Nothing leaks between rows that are "
     "processed by the same thread or at the same time.",
     ["schedules", "inputs", "configurations"],
     "all thread counts, chunk assignments and interleavings; all sparsity patterns including empty rows, ties and K larger than the row",
     "Tests compare small random matrices with one schedule and mostly one thread count; the shared output arrays and "
     "the per-thread accumulator that must be cleared between rows are never stressed.",
     ["implicit/_nearest_neighbours.pyx", "implicit/nearest_neighbours.h", "implicit/nearest_neighbours.py"],
     [("per-thread accumulator and top-K heap", "implicit/nearest_neighbours.h"),
      ("row-disjoint output ranges", "implicit/_nearest_neighbours.pyx:all_pairs_knn")],
     observe=["model.similarity", "model.similar_items"])

prop("C05", "Concurrent recommend calls on one item-item model do not interfere",
     "Any number of threads may call recommend and similar_items on one fitted item-item model at the same time; each "
     "call returns exactly what it would return if it ran alone. This includes calls that fail or are interrupted: "
     "they leave no residue and no held lock that changes or blocks a later call.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of the callers at every memory access of the scorer, all mixes of arguments, failing calls anywhere in the mix",
     "No test calls a model from more than one thread; the shared accumulator behind the lock is only ever used sequentially.",
     ["implicit/_nearest_neighbours.pyx", "implicit/nearest_neighbours.py", "implicit/nearest_neighbours.h"],
     [("scorer lock around accumulate, filter and drain", "implicit/_nearest_neighbours.pyx:NearestNeighboursScorer.recommend"),
      ("accumulator reset while draining", "implicit/nearest_neighbours.h:SparseMatrixMultiplier.foreach")],
     [("shared sparse accumulator", "scores being summed for the current call", "implicit/nearest_neighbours.h")],
     ["return values of recommend / similar_items in every caller thread"])

prop("C06", "Concurrent queries on one factor model equal isolated queries",
     "Any number of threads may query one fitted matrix-factorization model at the same time (recommend, "
     "similar_items, similar_users, recalculation of users or items, explain), including the very first queries after "
     "training that fill the model's caches. Every call returns exactly what it would return alone on a fresh copy of "
     "the model.",
     ["schedules", "histories", "inputs"],
     "all interleavings of concurrent callers at Python-instruction and memory-access granularity, all query mixes, zero-norm rows",
     "Tests query from one thread only, so the fill-in of lazily cached norms and squared factors is never observed half-done.",
     ["implicit/cpu/matrix_factorization_base.py", "implicit/cpu/als.py", "implicit/cpu/topk.pyx"],
     [("lazy caches of norms and squared factors", "implicit/cpu/matrix_factorization_base.py:user_norms, item_norms; implicit/cpu/als.py:YtY, XtX"),
      ("per-call output arrays", "implicit/cpu/topk.pyx:topk")],
     [("_user_norms/_item_norms/_YtY/_XtX", "lazily filled caches", "implicit/cpu")],
     ["return values of every query in every caller thread"])

prop("C07", "A parallel batch query answers every row as the row alone, filters honoured",
     "A batch recommend, similar_items or similar_users call over any number of rows returns, for every row and in "
     "the order asked, the same ids and scores as asking for that row alone, for every thread schedule and however the "
     "rows fall into parallel batches. Each row holds the highest-scoring allowed entries in descending order with "
     "their true scores, ranks nothing outside an explicit candidate list and places no filtered or already-liked item "
     "ahead of an allowed one.",
     ["schedules", "inputs", "configurations"],
     "all batch sizes around and above the internal batch boundary, all thread counts and interleavings, all filter combinations with N up to the number of candidates",
     "Tests use batches that fit in one internal batch on a 2-thread pool, so cross-batch row offsets under different schedules are not compared.",
     ["implicit/cpu/topk.pyx", "implicit/cpu/select.h", "implicit/cpu/matrix_factorization_base.py", "implicit/utils.py"],
     [("parallel loop over batches with row offsets", "implicit/cpu/topk.pyx:topk, _topk_batch"),
      ("heap selection per row", "implicit/cpu/select.h"),
      ("candidate list remapping", "implicit/cpu/matrix_factorization_base.py:_filter_items_from_sparse_matrix")],
     observe=["(ids, scores) of batch and scalar queries"])

prop("C08", "Queries always reflect the model's current factors, whatever happened before",
     "After any history of training, retraining, aborted training, incremental updates, queries (including queries "
     "made from training callbacks), saving, loading and pickling, every query answers from the factors the model "
     "currently exposes. No earlier query, failed call or cached intermediate result influences the answer.",
     ["histories", "fault_sequences"],
     "all operation sequences over fit, partial_fit_users/items, queries, callbacks that query, exceptions at any point, pickle and save/load",
     "Tests exercise each call in isolation; an answer computed from a stale cache needs a query before and after a particular update.",
     ["implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", "implicit/cpu/matrix_factorization_base.py", "implicit/nearest_neighbours.py"],
     [("cache invalidation in fit and partial_fit", "implicit/cpu/als.py, implicit/cpu/bpr.pyx, implicit/cpu/lmf.pyx"),
      ("scorer rebuilt with the similarity matrix", "implicit/nearest_neighbours.py")],
     [("_user_norms/_item_norms/_YtY/_XtX/scorer", "state derived from the factors", "implicit/cpu, implicit/nearest_neighbours.py")],
     ["query results versus the same query on a fresh object holding copies of the current factors"])

prop("C09", "Queries and training never modify the caller's data or the fitted model",
     "No query changes the fitted model's factors or similarities, and no training, query, split or evaluation call "
     "changes the matrices, id lists or filters the caller passed in, whether the call succeeds, fails or is "
     "interrupted. Repeating a query therefore gives the same answer, and an input can be shared between concurrent calls.",
     ["histories", "schedules", "fault_sequences"],
     "all calls of the public API (including the approximate-nearest-neighbour wrappers), all argument kinds, completion or failure at any point",
     "Tests compare results, not the arguments after the call, and rarely reuse one object across calls or threads.",
     ["implicit/cpu/als.py", "implicit/cpu/matrix_factorization_base.py", "implicit/nearest_neighbours.py", "implicit/ann/faiss.py", "implicit/ann/annoy.py", "implicit/ann/nmslib.py", "implicit/evaluation.pyx", "implicit/utils.py"],
     [("copies before weighting, filtering and normalising", "implicit/nearest_neighbours.py, implicit/cpu/matrix_factorization_base.py, implicit/ann")],
     observe=["byte-level snapshots of arguments and model arrays around every call"])

prop("C10", "A fixed random_state makes training and splitting reproducible",
     "Training or splitting twice with the same random_state (an integer, or equally seeded RandomState or Generator "
     "objects) and the same configuration gives identical results, independently of the process-wide random state, "
     "the clock, earlier calls and concurrent activity in other threads. Different seeds give different models, and the "
     "process-wide random state is left untouched.",
     ["schedules", "histories", "configurations"],
     "all seeds and kinds of random_state, all values and concurrent uses of the global random state, all clock readings",
     "Tests repeat a fit with one integer seed in one quiet process; leaks from global randomness or time need interference to show.",
     ["implicit/utils.py", "implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", "implicit/evaluation.pyx"],
     [("check_random_state", "implicit/utils.py"), ("per-thread generators seeded from the state", "implicit/cpu/bpr.pyx, implicit/cpu/lmf.pyx")],
     observe=["factors after fit, (train, test) after splits, numpy global state before and after"])

prop("C11", "Parallel BPR training keeps its invariants under every interleaving",
     "For every interleaving of BPR's lock-free training threads: the number of skipped samples per epoch depends only "
     "on seed and thread count, correct plus skipped never exceeds the number of samples, the constant bias column of "
     "the users stays 1, rows of users or items without interactions keep their initial zeros, and all factors stay "
     "finite. When threads do not overlap in time an epoch is exactly a sequence of BPR gradient steps on sampled "
     "(user, liked, disliked) triples, with liked items never used as negatives when verification is on.",
     ["schedules", "inputs", "configurations"],
     "all interleavings at memory-access granularity, thread counts, granted team sizes, seeds and matrices",
     "Tests look at ranking quality of one run; sharing a generator between threads, sampling out of range or dropping "
     "a counter update leaves quality almost unchanged.",
     ["implicit/cpu/bpr.pyx", "implicit/cpu/bpr.h"],
     [("one generator per thread", "implicit/cpu/bpr.pyx:RNGVector"), ("reductions of correct/skipped", "implicit/cpu/bpr.pyx:bpr_update"),
      ("sampling check by binary search", "implicit/cpu/bpr.pyx:has_non_zero")],
     observe=["callback arguments (epoch, time, correct, skipped)", "factors after every epoch"])

prop("C12", "LMF training is deterministic per thread count and follows its update rule",
     "With a fixed random_state and thread count, logistic matrix factorization gives bit-identical factors for every "
     "interleaving of its threads; without negative sampling it is identical for every thread count too and equals the "
     "Adagrad ascent of the documented objective. The pinned bias columns stay exactly 1 and rows without interactions "
     "get no update.",
     ["schedules", "inputs", "configurations"],
     "all interleavings at memory-access granularity, thread counts, seeds and matrices including empty rows and unsorted indices",
     "Tests check ranking on one matrix in one schedule; a shared derivative buffer or generator changes the result only in rare interleavings.",
     ["implicit/cpu/lmf.pyx"],
     [("per-thread derivative buffer and generator, row ownership", "implicit/cpu/lmf.pyx:lmf_update"), ("bias pinning per epoch", "implicit/cpu/lmf.pyx:fit")],
     observe=["factors after every epoch and after fit"])

prop("C13", "Models trained concurrently in one process do not affect each other",
     "Training and querying any number of separate models at the same time from different threads gives, for each "
     "model, exactly the result of doing the same work alone. This holds for every model family, with each training "
     "itself running on several worker threads.",
     ["schedules", "histories"],
     "all interleavings of several fits and queries of different models, each with its own worker team",
     "No test trains two models at once; shared scratch memory or module-level state would go unnoticed.",
     ["implicit/cpu/_als.pyx", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", "implicit/_nearest_neighbours.pyx", "implicit/cpu/topk.pyx", "implicit/utils.py"],
     [("all scratch memory local to a call or a thread", "implicit/cpu, implicit/_nearest_neighbours.pyx"), ("run-once configuration check", "implicit/utils.py:check_blas_config")],
     observe=["factors / similarities and query results of every model"])

prop("C14", "A saved model loads back identical, or the failure is reported",
     "If save returns, loading that file (by path with or without its suffix, or file object) gives a model with the "
     "same hyper-parameters and learned state that answers every query identically and, with an integer random_state, "
     "retrains identically. If a "
     "write, the disk or the process fails during save, the error is raised, and a truncated or partially written file "
     "is never loaded as a different model: load either raises or returns the saved model.",
     ["crash_points", "fault_sequences", "histories"],
     "all I/O error, short-write, full-disk and crash points during save and read faults during load; all models, dtypes and parameter values",
     "Tests save to a healthy disk and compare recommendations only; failing writes, torn files and dropped hyper-parameters are not exercised.",
     ["implicit/recommender_base.py", "implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", "implicit/nearest_neighbours.py"],
     [("save argument lists", "save methods of every model"), ("load without pickle", "implicit/recommender_base.py:load, implicit/nearest_neighbours.py:load")],
     observe=["attributes and answers of the loaded model", "exceptions from save and load"])

prop("C15", "The dataset cache is never poisoned by a failed or concurrent download",
     "If fetching a dataset fails part way (connection lost, transfer shorter than announced, disk full, process "
     "killed), the call raises and the cache holds nothing that a later call would mistake for the dataset. Once the "
     "fault is gone the next call downloads and returns the correct data, further calls use the cache without network "
     "access, and simultaneous first calls that meet no fault all return correct data.",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "all cut points of the transfer, I/O errors and kill points while writing the cache, all orders of concurrent callers, all dataset loaders",
     "The dataset tests are skipped without network; none injects a fault into a download.",
     ["implicit/datasets/_download.py", "implicit/datasets/movielens.py", "implicit/datasets/lastfm.py", "implicit/datasets/reddit.py", "implicit/datasets/sketchfab.py", "implicit/datasets/million_song_dataset.py"],
     [("download to the cache directory", "implicit/datasets/_download.py:download_file"), ("cache hit test", "get_* functions")],
     [("cache directory", "files taken as complete datasets", "implicit/datasets/_download.py:LOCAL_CACHE_DIR")],
     ["return values and exceptions of the get_* functions, cache directory content, requests sent"])

prop("C16", "Epochs run exactly as asked and an aborted training equals a shorter one",
     "Training calls the callback exactly once per epoch, in order, with a model whose factors are complete for that "
     "epoch; if the callback or progress output raises after epoch k the exception propagates and the model is exactly "
     "the one trained for k epochs (for BPR with one thread). Continuing ALS training adds epochs as if they had been asked for at once, and "
     "clock jumps, stalls or the callback itself change nothing.",
     ["schedules", "fault_sequences", "histories"],
     "all epochs at which the callback or the progress stream fails, all clock jumps forward and backward, all thread schedules",
     "Tests use callbacks only to record losses; aborting at every epoch, resuming and clock jumps are never exercised.",
     ["implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx"],
     [("epoch loop", "fit methods"), ("factors initialised only when unset", "implicit/cpu/als.py:fit")],
     observe=["callback history, factors at each callback, factors after an exception"])

prop("C17", "Incremental updates are exact and all-or-nothing",
     "Updating some users or items of an ALS model sets exactly their factors to the least-squares solution for their "
     "new interactions, growing the model with zero rows when ids are new, and changes nothing else; later queries use "
     "the new factors. If the update fails or is interrupted at any point, the model is either entirely as before or "
     "entirely updated, and answers queries consistently with whichever it is.",
     ["fault_sequences", "crash_points", "histories", "schedules"],
     "all interruption points (errors, KeyboardInterrupt, MemoryError) inside the call, all id patterns (new, repeated order, gaps), all schedules of the solver threads",
     "Tests check one successful update; the state after a failure at each point is never inspected.",
     ["implicit/cpu/als.py", "implicit/cpu/_als.pyx"],
     [("recalculate, then grow, store and invalidate", "implicit/cpu/als.py:partial_fit_users, partial_fit_items")],
     [("user_factors/item_factors and derived caches", "must change together", "implicit/cpu/als.py")],
     ["factors and query answers before and after every possible interruption"])

prop("C18", "Train/test splits conserve every interaction for every random outcome",
     "For every outcome of the random source, a train/test split puts each stored interaction, with its value, in "
     "exactly one of the two matrices (values that are not positive are dropped from the random split's test side) and "
     "keeps the matrix shape. Leave-k-out holds out exactly K interactions of every user that has more than K+1 and is not "
     "reserved for training, none of any other user, and reserves the requested share of users; every interaction and "
     "every user has a chance to be chosen.",
     ["inputs", "fault_sequences", "configurations"],
     "all values the random generator can return including extremes and ties, all matrices including gaps in user ids, all K and fractions",
     "Tests use a few seeds on dense, gap-free user ids; rare draws and gaps in the ids are never reached.",
     ["implicit/evaluation.pyx"],
     [("threshold split", "implicit/evaluation.pyx:train_test_split"), ("tail selection per user", "implicit/evaluation.pyx:leave_k_out_split, _take_tails, _choose")],
     observe=["(train, test) versus the input"])

prop("C19", "Approximate-index wrappers stay consistent with the model they wrap",
     "With an index that searches exactly, the Annoy, Faiss and NMSLib wrappers return the wrapped model's own "
     "ranking and scores for recommend and similar_items, with filtered and liked items removed and N results whenever "
     "N allowed items exist, for single and batch queries. This holds after any history of training and retraining, "
     "under concurrent queries; after a training that failed part way a query either answers for the model's current "
     "factors or raises, and never uses an index of an earlier training.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of fit, refit, failing fit and queries; all interleavings of concurrent queries; all filter combinations",
     "Tests use the real approximate libraries on one fitted model and accept approximate agreement, so score scaling, "
     "filter counts and stale indices after refits are not decided.",
     ["implicit/ann/annoy.py", "implicit/ann/faiss.py", "implicit/ann/nmslib.py", "implicit/utils.py", "implicit/approximate_als.py"],
     [("index rebuilt from the factors in fit", "implicit/ann/*.py:fit"), ("inner-product augmentation and score rescaling", "implicit/utils.py:augment_inner_product_matrix, implicit/ann/*.py"),
      ("over-fetch and filter", "implicit/ann/*.py, implicit/utils.py:_filter_items_from_results")],
     observe=["(ids, scores) of the wrapper versus the wrapped model"])

prop("C20", "Ranking metrics equal their definitions for every batching and schedule",
     "Precision, MAP, NDCG and AUC at K computed by the evaluation functions equal, up to rounding, the values defined "
     "by each test user's individual top-K recommendations, for every number of users, thread schedule of the "
     "underlying batch queries and concurrent evaluations in other threads. Users without test items do not count, "
     "and neither the model nor the inputs influence the result beyond those recommendations.",
     ["schedules", "inputs", "configurations"],
     "all user counts below, at and above the evaluation batch size, K values, test sets, thread counts and interleavings",
     "Tests check a handful of tiny hand-made cases in one batch.",
     ["implicit/evaluation.pyx"],
     [("batched recommend and per-user accumulation", "implicit/evaluation.pyx:ranking_metrics_at_k")],
     observe=["returned metrics versus a reference computed from single-user recommendations"])

prop("C21", "CPU and GPU models give equivalent results",
     "A model moved between CPU and GPU keeps its factors, and both implementations return equivalent training results "
     "and rankings.",
     ["configurations", "inputs"], "all models and inputs on a CUDA device",
     "GPU tests are skipped without a device.",
     ["implicit/gpu/als.py", "implicit/gpu/bpr.py", "implicit/gpu/matrix_factorization_base.py"],
     [("to_gpu / to_cpu", "implicit/cpu/als.py, implicit/gpu/als.py")])

prop("C22", "Weighting, explanation and padding formulas are right for every input",
     "The TF-IDF, BM25 and cosine weightings, the explanation score of a recommendation and the padding of results "
     "when fewer than N candidates exist follow their definitions for every input matrix.",
     ["inputs"], "all matrices and parameters",
     "Tests sample a few matrices.",
     ["implicit/nearest_neighbours.py", "implicit/cpu/als.py", "implicit/cpu/select.h"],
     [("weighting functions", "implicit/nearest_neighbours.py"), ("explain", "implicit/cpu/als.py")])

prop("C23", "Compiled code never touches memory outside the arrays it was given",
     "For every history of training, retraining, queries, incremental updates, metrics and splits, with valid or invalid "
     "arguments (ids that are not in the model, sizes of zero or larger than the data, matrices with other shapes, dtypes "
     "or index widths), and under every schedule of its threads, the compiled code reads and writes only inside live "
     "arrays. Arguments it cannot handle raise an exception in the caller; they never crash the process or return data "
     "read from other memory.",
     ["inputs", "histories", "schedules"],
     "all histories of calls with valid and invalid arguments; all interleavings of the worker threads and of concurrent callers",
     "An access just outside an array usually does no visible harm, so a test that samples it passes; it depends on the "
     "argument values, the shapes left by earlier calls and the layout of the heap.",
     ["implicit/cpu/_als.pyx", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", "implicit/cpu/topk.pyx", "implicit/cpu/select.h",
      "implicit/_nearest_neighbours.pyx", "implicit/nearest_neighbours.h", "implicit/evaluation.pyx"],
     [("argument checks before the kernels", "implicit/cpu/matrix_factorization_base.py, implicit/cpu/als.py, implicit/nearest_neighbours.py"),
      ("bounds-unchecked kernels", "implicit/cpu/_als.pyx, bpr.pyx, lmf.pyx, topk.pyx, implicit/_nearest_neighbours.pyx, implicit/evaluation.pyx")],
     observe=["every load and store of the compiled modules versus the live heap blocks", "exceptions and exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
