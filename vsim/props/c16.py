"""Epochs run exactly as asked and an aborted training equals a shorter one."""
import multiprocessing
import random
import sys

import numpy as np

from vsim import common, gen, rt

ID = "C16"


def new_case(r, i=0):
    m = gen.matrix_case(r, max_users=20, max_items=20, neg=r.random() < 0.15)
    k = common.model_case(r, common.MF)
    if k["kind"] == "bpr":
        k["threads"] = 1  # more threads update the factors without locks
    k["iters"] = r.choice([0, 1, 2, 3, 4, 5])
    return {"m": m, "k": k, "native": r.random() < 0.85, "cpus": r.choice([1, 2, 3]), "progress": r.random() < 0.3,
            "clock": r.choice([0.0, 0.0, 0.2, 0.8]), "what": r.choice(["full", "full", "abort", "abort", "abort", "progress", "split"]),
            "cb": r.sample(["query", "sleep", "random", "copy"], r.randint(0, 2)), "at": r.randrange(6), "exc": r.choice(["error", "interrupt", "stop", "exit", "stopasync", "memory"]),
            "q": [common.query_case(r, k["kind"], m["users"], m["items"]) for _ in range(3)], "wat": r.randint(1, 12), "attr": k["kind"] == "als" and r.random() < 0.2, "dseed": r.randrange(1 << 30)}


def strategy(r, case):
    s = gen.strategy(r)
    s["p_team"] = 0.0
    return s


class BadErr:
    """a progress stream whose n-th write fails"""

    def __init__(self, at):
        self.at, self.n, self.fired = at, 0, 0

    def write(self, s):
        self.n += 1
        if self.n == self.at:
            self.fired += 1
            raise OSError(28, "injected progress stream failure")  # 5 would only switch tqdm off
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def exc(name):
    return {"error": RuntimeError("injected"), "interrupt": KeyboardInterrupt("injected"), "stop": StopIteration("injected"), "exit": SystemExit("injected"),
            "stopasync": StopAsyncIteration("injected"), "memory": MemoryError("injected")}[name]


def build(case, iters=None):
    m = common.build(dict(case["k"]))
    if iters is not None:
        m.iterations = iters
    if case["k"]["kind"] == "als":
        m.use_native = case["native"]
    return m


def run(case, ctx):
    multiprocessing.cpu_count = lambda: case["cpus"]
    k = case["k"]
    n = k["iters"]
    mat = gen.matrix(case["m"], np.float32, min_nnz=4)
    mat_t = mat.T.tocsr()
    states = []
    with ctx.session(mode="serial"):
        for j in range(n + 1):
            m = build(case, j)
            m.fit(mat, show_progress=False)
            states.append(common.state_of(m))
            if not common.usable(m):
                ctx.probe("diverged")
                return
    ctx.note(repr(states[-1]))
    r = random.Random(case["dseed"])
    if case["clock"]:
        rt.CLOCK.rng, rt.CLOCK.p = random.Random(r.random()), case["clock"]
    m = build(case)
    seen = []
    at = case["at"] % n if n else -1
    boom = exc(case["exc"]) if case["what"] == "abort" and n else None

    def cb(epoch, *a):
        seen.append((epoch, common.state_of(m)))
        if "query" in case["cb"]:
            for q in case["q"]:
                common.call(m, q, mat, mat_t)
        if "sleep" in case["cb"]:
            rt._sleep(3600)
        if "random" in case["cb"]:
            np.random.random(7)
        if "copy" in case["cb"]:
            common.deep(m)
        if boom is not None and len(seen) == at + 1:
            raise boom
        return [None, False, True, 0, 1][(case["dseed"] + epoch) % 5]  # nobody looks at it

    err0, sys.stderr = sys.stderr, BadErr(case["wat"] if case["what"] == "progress" else -1)
    fcb = cb
    if case["attr"] and hasattr(m, "fit_callback"):
        m.fit_callback, fcb = cb, None  # the older way to give it
    rt.CLOCK.advance = 1.0 if case["what"] == "progress" else 0.0
    err = None
    try:
        with ctx.session():
            try:
                if case["what"] == "split" and k["kind"] == "als":
                    a = r.randrange(n + 1)
                    m.iterations = a
                    m.fit(mat, show_progress=case["progress"], callback=fcb)
                    ctx.check(common.state_of(m) == states[a], "continued", "training for %d epochs differs from the first %d of %d" % (a, a, n))
                    m.iterations = n - a
                    m.fit(mat, show_progress=case["progress"], callback=fcb)
                    seen = [(j, s) for j, (_, s) in enumerate(seen)] if [e for e, _ in seen] == list(range(a)) + list(range(n - a)) else seen
                else:
                    m.fit(mat, show_progress=case["progress"] or case["what"] == "progress", callback=fcb)
            except (rt.Violation, rt.HarnessError):
                raise
            except BaseException as e:  # noqa
                err = e
        fired = sys.stderr.fired
    finally:
        sys.stderr = err0
        if case["attr"]:
            m.fit_callback = None
        rt.CLOCK.advance = 0.0
        ctx.fault("clock_jump", rt.CLOCK.jumps)
        rt.CLOCK.rng = None
    for x in case["cb"]:
        ctx.fault("callback:" + x, len(seen))
    ctx.check([e for e, _ in seen] == list(range(len(seen))), "callback-order", "callback called with epochs %s" % [e for e, _ in seen])
    for e, s in seen:
        ctx.check(e < n and s == states[e + 1], "incomplete-epoch", lambda: "in the callback of epoch %d of %d the factors are not those of %d epochs" % (e, n, e + 1))
    final = common.state_of(m)
    if boom is not None:
        ctx.fault("callback_raises:" + case["exc"])
        ctx.check(err is boom, "exception-lost", "the callback raised %r after epoch %d, fit %s" % (boom, at, "returned" if err is None else "raised %r" % err))
        ctx.check(len(seen) == at + 1, "after-abort", "%d callbacks although the callback of epoch %d raised" % (len(seen), at))
        ctx.check(final == states[at + 1], "aborted-model", "training aborted after epoch %d: the model is not the one of %d epochs" % (at, at + 1))
        if k["kind"] == "als":
            # going on where it stopped
            boom2, seen[:] = None, []
            m.iterations = n - at - 1
            with ctx.session():
                m.fit(mat, show_progress=False)
            ctx.check(common.state_of(m) == states[n], "continued", "continuing for the remaining %d epochs differs from %d epochs at once" % (n - at - 1, n))
        # a fresh model is not affected
        m2 = build(case)
        with ctx.session():
            m2.fit(mat, show_progress=False)
        ctx.check(common.state_of(m2) == states[n], "after-abort", "a training after an aborted one gives another model")
        return
    if err is not None:
        if case["what"] != "progress" or not fired:
            raise err
        ctx.fault("progress_stream_error")
        ctx.check(isinstance(err, OSError), "exception-lost", "the progress stream failed, fit raised %r" % err)
        ok = [j for j in (len(seen), len(seen) + 1) if j <= n and final == states[j]]
        none = not seen and m.item_factors is None
        ctx.check(ok or none, "aborted-model", "progress output failed after %d callbacks: the model is neither the one of %d nor of %d epochs" % (len(seen), len(seen), len(seen) + 1))
        return
    ctx.check(not fired, "exception-lost", "the progress stream failed, fit returned")
    ctx.check(len(seen) == n, "callback-count", "%d epochs, callback called %d times" % (n, len(seen)))
    ctx.check(final == states[n], "final", "the model after %d epochs depends on schedule, clock or callback" % n)
