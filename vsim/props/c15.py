"""The dataset cache is never poisoned by a failed or concurrent download."""
import importlib
import io as pyio
import os
import shutil
import sys
import tempfile

import numpy as np
import scipy.sparse as sp

import h5py
from vsim import conc, gen, io, net, rt

ID = "C15"
FILES = {}
WANT = {}
DS = ["movielens_100k", "movielens_1m", "movielens_20m", "lastfm", "reddit", "sketchfab", "msd"]
FN = {"lastfm": "lastfm_360k.hdf5", "reddit": "reddit.hdf5", "sketchfab": "sketchfab.hdf5", "msd": "msd_taste_profile.hdf5"}
LAYOUT = {"movielens": ("movie_user_ratings", ["movie"]), "lastfm": ("artist_user_plays", ["artist", "user"]), "reddit": ("item_user_ratings", []),
          "sketchfab": ("item_user_likes", ["item", "user"]), "msd": ("track_user_plays", ["track", "user"])}


def fname(ds):
    return FN.get(ds, ds + ".hdf5")


def setup():
    from h5py._objects import phil
    rt.HELD.append(phil._is_owned)
    conc.install_alloc_faults()
    net.install()
    d = tempfile.mkdtemp(prefix="h5-", dir=os.environ["VSIM_SCRATCH"])
    for n, ds in enumerate(DS):
        g = gen.rs(100 + n)
        m = sp.random(60, 50 + n, density=0.8, format="csr", dtype=np.float32, random_state=g)
        group, names = LAYOUT[ds.split("_")[0]]
        p = os.path.join(d, fname(ds))
        with h5py.File(p, "w") as f:
            q = f.create_group(group)
            q.create_dataset("data", data=m.data)
            q.create_dataset("indptr", data=m.indptr)
            q.create_dataset("indices", data=m.indices)
            for k in names:
                rows = 40
                if k == "track":
                    a = np.array([["t%d" % i, "a%d" % i, "b", "s"] for i in range(rows)], dtype=object)
                else:
                    a = np.array(["%s %d é" % (k, i) for i in range(rows)], dtype=object)
                f.create_dataset(k, a.shape, dtype=h5py.special_dtype(vlen=str))[:] = a
        with open(p, "rb") as f:
            FILES[fname(ds)] = f.read()
        with h5py.File(p, "r") as f:
            lst = [np.array(f[k]) if ds in ("sketchfab", "msd") else np.array(f[k].asstr()[:]) for k in names]
        WANT[ds] = (lst, m)
    shutil.rmtree(d)


def step_case(r, steps):
    ds = r.choice(steps)
    k = r.choice(["call", "call", "call", "call", "kill", "kill", "par", "par", "ok", "down"])
    s = {"do": k, "ds": ds, "net": {}, "disk": [], "inj": None}
    size = 35000
    if k in ("call", "par"):
        what = r.choice(["net", "net", "net", "disk", "disk", "both", "inj", "read", "none"])
        if what in ("net", "both"):
            s["net"] = {str(r.choice([1, 1, 2, 0])): net.fault_case(r, size) for _ in range(r.choice([1, 1, 2]))}
        if what in ("disk", "both"):
            s["disk"] = [r.choice([
                {"cls": io.WRITE, "nth": r.choice([1, 2, 3, 4, 5, 6]), "act": io.ERR, "err": r.choice(["ENOSPC", "EIO", "EDQUOT"]), "sticky": r.random() < 0.5},
                {"cls": io.MUT, "nth": r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9]), "act": io.ERR, "err": r.choice(["ENOSPC", "EIO", "EACCES"]), "sticky": r.random() < 0.3},
                {"cls": io.WRITE, "nth": r.choice([1, 2, 3]), "act": io.SHORT, "frac": r.randrange(256), "sticky": r.random() < 0.7},
                {"cls": io.WRITE, "nth": r.choice([1, 2, 3, 4]), "act": io.LOSE},
                {"cls": r.choice([io.CLOSE, io.RENAME, io.OPENW]), "nth": 1, "act": io.ERR, "err": r.choice(["EIO", "ENOSPC"])}])]
        if what == "read":
            s["disk"] = [{"cls": r.choice([io.READ, io.OPENR]), "nth": r.choice([1, 2, 3, 6, 10, 15]), "act": io.ERR, "err": "EIO", "sticky": r.random() < 0.5}]
        if what == "inj":
            s["inj"] = conc.fault_case(r)
    if k == "kill":
        if r.random() < 0.5:
            s["net"] = {"0": net.fault_case(r, size, kill=True)}
        else:
            s["disk"] = [{"cls": io.MUT, "nth": r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9]), "act": r.choice([io.CRASH_BEFORE, io.CRASH_PART, io.CRASH_AFTER]), "frac": r.randrange(256)}]
    if k == "par":
        s["ds2"] = [r.choice(steps + [ds, ds]) for _ in range(r.choice([1, 1, 2]))]
        s["disk"] = []
        s["inj"] = None
    return s


def new_case(r, i=0):
    names = r.sample(DS, r.choice([1, 1, 1, 2]))
    return {"steps": [step_case(r, names) for _ in range(r.randint(1, 5))], "fresh_dir": r.random() < 0.7, "home": r.choice(["", "", "home/u"])}


def strategy(r, case):
    return gen.strategy(r, py=True)


def getter(ds):
    mod = {"movielens": "movielens", "msd": "million_song_dataset"}.get(ds.split("_")[0], ds)
    m = importlib.import_module("implicit.datasets." + mod)
    if ds.startswith("movielens"):
        v = ds.split("_")[1]
        return lambda: m.get_movielens(v)
    return getattr(m, {"lastfm": "get_lastfm", "reddit": "get_reddit", "sketchfab": "get_sketchfab", "msd": "get_msd_taste_profile"}[ds])


def wrong(ds, res):
    lst, m = WANT[ds]
    res = list(res) if isinstance(res, tuple) else [res]
    if len(res) != len(lst) + 1:
        return "%d parts" % len(res)
    for a, b in zip(res, lst):
        if a.shape != b.shape or not (a == b).all():
            return "labels differ"
    p = res[-1]
    if p.shape != m.shape or p.nnz != m.nnz or not (np.array_equal(p.data, m.data) and np.array_equal(p.indices, m.indices) and np.array_equal(p.indptr, m.indptr)):
        return "matrix differs"
    return None


def run(case, ctx):
    os.environ["HOME"] = os.path.join(ctx.scratch, case["home"]) if case["home"] else ctx.scratch
    os.environ.pop("XDG_CACHE_HOME", None)
    net.NET.reset()
    net.NET.files = FILES
    io.config(ctx.scratch)
    err, sys.stderr = sys.stderr, pyio.StringIO()
    try:
        history(case, ctx)
    finally:
        sys.stderr = err
        for k, v in net.NET.fired.items():
            ctx.fault("net:" + k, v)


def good(ctx, ds, res, label):
    w = wrong(ds, res)
    ctx.check(w is None, "wrong-data", lambda: "%s: %s returned wrong data (%s)" % (label, ds, w))


def history(case, ctx):
    N = net.NET
    getters = {ds: getter(ds) for ds in DS}
    d = sys.modules["implicit.datasets._download"]
    home = getattr(d, "LOCAL_CACHE_DIR", None)
    if home is not None and not home.startswith(ctx.scratch):
        raise rt.HarnessError("cache directory %s is outside the scratch directory" % home)
    if not case["fresh_dir"] and home:
        os.makedirs(home)
    cached = set()
    used = []
    for n, s in enumerate(case["steps"]):
        ds = s["ds"]
        used += [x for x in [ds] + s.get("ds2", []) if x not in used]
        N.faults = {int(k): v for k, v in s["net"].items()}
        N.conns = 0
        before = N.requests
        f0 = sum(v for k, v in N.fired.items() if k not in ("slow", "redirect"))
        label = "step %d" % n
        if s["do"] == "kill":
            how = io.crashing(ctx, s["disk"], lambda: good(ctx, ds, getters[ds](), "killed"))
            if how == "crashed":
                ctx.fault("process_killed")
            elif how != "returned":
                ctx.check(False, "raises", "%s: %s raised without a fault (%s)" % (label, ds, how))
            else:
                cached.add(ds)
        elif s["do"] == "par":
            todo = [ds] + s["ds2"]
            res = ctx.par([getters[x] for x in todo])
            for x, (r, e) in zip(todo, res):
                if e is None:
                    good(ctx, x, r, label + " (concurrent)")
                else:
                    ctx.probe("concurrent_call_raised")
                    ctx.check(s["net"], "raises", lambda: "%s: %s raised %s: %s next to other calls, without a fault" % (label, x, type(e).__name__, str(e)[:200]))
                    ctx.check(x not in cached, "cached-raises", lambda: "%s: %s is cached but the call raised %r" % (label, x, e))
            for x, (r, e) in zip(todo, res):
                if e is None:
                    cached.add(x)
        else:
            N.down = s["do"] == "down"
            if N.down:
                N.faults = {}
            was = ds in cached
            if s["inj"]:
                with ctx.session(py=True):
                    r, e, fired = conc.faulty(ctx, s["inj"], getters[ds])
            else:
                r, e, fired = io.under(ctx, s["disk"], getters[ds])
            N.down = False
            fired = int(bool(fired)) + sum(v for k, v in N.fired.items() if k not in ("slow", "redirect")) - f0
            if e is None:
                good(ctx, ds, r, label)
                cached.add(ds)
                if was:
                    ctx.check(N.requests == before or fired, "cache-unused", "%s: %s was downloaded again" % (label, ds))
            else:
                if not fired:
                    raise e
                ctx.probe("call_raised")
        io.clear()
        N.faults = {}
        N.conns = 0
    for ds in used:
        try:
            r = getters[ds]()
        except Exception as e:  # noqa
            ctx.check(False, "poisoned", "after the faults are gone %s still raises %s: %s" % (ds, type(e).__name__, str(e)[:200]))
        good(ctx, ds, r, "after the faults are gone")
        before = N.requests
        N.down = True
        try:
            r = getters[ds]()
        except Exception as e:  # noqa
            ctx.check(False, "cache-unused", "%s was just returned, but without a network it raises %s" % (ds, type(e).__name__))
        N.down = False
        good(ctx, ds, r, "from the cache")
        ctx.check(N.requests == before, "cache-unused", "%s uses the network although it is cached" % ds)
        ctx.probe("recovered")
    ctx.note(N.requests, sorted(used))
