#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]      runs a check (exit 0 / 1, see MANIFEST.json)
check.py --replay <file>                         re-executes a recorded violation in a fresh process
check.py --determinism <property> [n]            runs seeds twice in different processes and compares"""
import argparse
import hashlib
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from sim import build as simbuild  # noqa: E402
from vsim.props_meta import META  # noqa: E402

PY = simbuild.PY
NW = int(os.environ.get("VSIM_WORKERS", "8"))


class Worker:
    def __init__(self, prop, bdir, scratch, extra=None):
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
        env.update(PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   MALLOC_PERTURB_="90", MALLOC_ARENA_MAX="1", IMPLICIT_DISABLE_CUDA="1", PYTHONDONTWRITEBYTECODE="1",
                   VSIM_DIR=bdir, VSIM_SCRATCH=scratch, PYTHONPATH=VERIF, LC_ALL="C.UTF-8",
                   LD_PRELOAD=os.path.join(bdir, "libiofault.so"), HOME=scratch)
        if META[prop.upper()].get("guard"):
            env["VSIM_GUARD"] = "1"
        env.update(extra or {})
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([PY, "-X", "faulthandler=0", "-m", "vsim.worker", prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, cwd=scratch, text=True)

    def send(self, o):
        self.p.stdin.write(json.dumps(o) + "\n")
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise RuntimeError("worker died (exit %s): %s" % (self.p.wait(), self.err.read()[-3000:].decode("utf8", "replace")))
        return json.loads(line)

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


def fresh(prop, bdir, scratch, extra=None):
    w = Worker(prop, bdir, scratch, extra)
    w.recv()
    return w


def known_findings():
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                m = re.match(r"finding:\s*property=(\S+)\s+clause=(\S+)\s+match=/(.*?)/\s+(.*)", line)
                res.append({"property": m.group(1), "clause": m.group(2), "match": m.group(3), "what": m.group(4)})
    return res


def n_events(trace):
    return sum(len(v) for v in (trace or {}).values())


def same_violation(a, b):
    return b.get("status") == "violation" and a["clause"] == b["clause"]


class Pool:
    """runs jobs on the idle zygotes in parallel"""

    def __init__(self, workers):
        self.workers = workers

    def map(self, jobs, want_trace=False):
        q = queue.Queue()
        for i, j in enumerate(jobs):
            q.put((i, j))
        out = [None] * len(jobs)

        def go(w):
            while True:
                try:
                    i, j = q.get_nowait()
                except queue.Empty:
                    return
                w.send({"cmd": "run", "job": j, "trace": want_trace})
                out[i] = w.recv()

        ts = [threading.Thread(target=go, args=(w,)) for w in self.workers]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out


def flatten(trace):
    return [(s, tuple(e)) for s in sorted(trace, key=int) for e in trace[s]]


def unflatten(ev):
    tr = {}
    for s, e in ev:
        tr.setdefault(s, []).append(list(e))
    return tr


def minimise(pool, prop_mod, job, res, budget):
    """ddmin over the case (property-specific shrinks) and over the recorded decisions"""
    end = time.time() + budget
    log = []
    # 1. smaller workload under the same seeded strategy (the schedule is searched again)
    shr = getattr(prop_mod, "shrink", None)
    cur, curres = job, res
    if shr:
        progress = True
        while progress and time.time() < end - budget * 0.5:
            progress = False
            cands = list(shr(cur["case"]))[:24]
            jobs = []
            for c in cands:
                for k in range(2):
                    st = dict(cur["strategy"])
                    if k:
                        st["seed"] = (int(st.get("seed", 1)) * 31 + k) & (2**62 - 1)
                    jobs.append({"case": c, "strategy": st, "trace": None})
            for j, r in zip(jobs, pool.map(jobs)):
                if same_violation(curres, r) and not r.get("trace_truncated"):
                    cur, curres = dict(cur, case=j["case"], strategy=j["strategy"]), r
                    progress = True
                    log.append("case -> %s" % json.dumps(j["case"], sort_keys=True))
                    break
    # 2. fewer scheduling decisions / team-size faults
    trace = curres.get("trace") or {}
    if curres.get("trace_truncated"):
        return cur, curres, None, log
    ev = flatten(trace)

    def test(subsets):
        jobs = [dict(cur, trace=unflatten(s)) for s in subsets]
        return pool.map(jobs)

    r0 = test([ev])[0]
    if not same_violation(curres, r0):
        return cur, curres, None, log
    r1 = test([[]])[0]
    if same_violation(curres, r1):
        ev, r0 = [], r1
    n = 2
    while len(ev) >= 2 and time.time() < end:
        size = max(1, len(ev) // n)
        parts = [ev[i:i + size] for i in range(0, len(ev), size)]
        cands = parts + [[e for p in parts[:i] + parts[i + 1:] for e in p] for i in range(len(parts))] if n <= 16 else \
            [[e for p in parts[:i] + parts[i + 1:] for e in p] for i in range(len(parts))]
        hit = None
        for b in range(0, len(cands), 8):
            if time.time() > end:
                break
            rs = test(cands[b:b + 8])
            for c, r in zip(cands[b:b + 8], rs):
                if same_violation(curres, r):
                    hit = (c, r)
                    break
            if hit:
                break
        if hit:
            ev, r0 = hit
            n = max(2, min(n - 1, len(ev)))
        elif size == 1:
            break
        else:
            n = min(len(ev), n * 2)
    return cur, r0, unflatten(ev), log


def run_check(pid, tier):
    import importlib

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    bdir = simbuild.build(verbose=True)
    tbuild = time.time() - t0
    prop_mod = importlib.import_module("vsim.props_meta")
    meta = prop_mod.META[pid]
    shrinks = prop_mod.SHRINK.get(pid)
    scratch = tempfile.mkdtemp(prefix="vsim-")
    budget = meta["quick_s"] if tier == "quick" else meta["thorough_s"]
    floor = meta["quick_min"] if tier == "quick" else meta["thorough_min"]
    if os.environ.get("VSIM_SECONDS"):
        budget = float(os.environ["VSIM_SECONDS"])
    hard = 420 if tier == "quick" else budget * 2 + 300
    known = [k for k in known_findings() if k["property"] == pid]
    seen_known = {}
    workers = []
    try:
        workers = [Worker(pid, bdir, scratch) for _ in range(NW)]
        for w in workers:
            w.recv()
        redo_n = 16 if tier == "quick" else 64
        aggs, found, unrep, stuck = [], [], [], []
        lock = threading.Lock()
        stop = threading.Event()

        def drive(k, w):
            w.send({"cmd": "search", "start": k, "stride": NW, "deadline": budget, "hard": hard, "min": floor,
                    "max": 10**9, "seed": seed, "redo": redo_n})
            while True:
                m = w.recv()
                if m["event"] == "done":
                    with lock:
                        aggs.append(m["agg"])
                    return
                job = m["job"]
                with lock:
                    r = job["result"]
                    go_on = True
                    if m["event"] == "violation":
                        kf = [x for x in known if x["clause"] == r["clause"] and re.search(x["match"], r["msg"])]
                        if kf:
                            seen_known[kf[0]["what"]] = seen_known.get(kf[0]["what"], 0) + 1
                        else:
                            found.append(job)
                            stop.set()
                            go_on = False
                    else:
                        stuck.append(job)
                        go_on = len(stuck) < 3
                    if stop.is_set():
                        go_on = False
                w.send({"cmd": "go" if go_on else "stop"})

        errs = []

        def guarded(k, w):
            try:
                drive(k, w)
            except Exception as e:  # noqa
                errs.append(e)

        ts = [threading.Thread(target=guarded, args=(k, w)) for k, w in enumerate(workers)]
        for t in ts:
            t.start()
        # a violation stops the search: idle workers are needed for minimisation
        while any(t.is_alive() for t in ts):
            time.sleep(0.05)
            if stop.is_set():
                break
        if stop.is_set():
            time.sleep(0.3)
            for w in workers:
                w.kill()
            for t in ts:
                t.join()
            workers = [fresh(pid, bdir, scratch) for _ in range(NW)]
        elif errs:
            raise errs[0]
        violations = 0
        status = 0
        det = {"compared": 0, "different": 0}
        if not found and not stuck:
            # determinism: repeat the first seeds in other processes, another hash seed and worker
            mine = {}
            for a in aggs:
                mine.update(a["digests"])
            idx = [int(i) for i in mine]
            half = [idx[0::2], idx[1::2]]
            outs = {}
            ws = [fresh(pid, bdir, scratch, {"PYTHONHASHSEED": str(7 + j)}) for j in range(2)]
            for w, ii in zip(ws, half):
                w.send({"cmd": "redo", "indices": ii, "seed": seed})
            for w in ws:
                outs.update(w.recv()["digests"])
                w.kill()
            det = {"compared": len(outs), "different": sum(outs[i] != mine[i] for i in outs)}
        if found:
            pool = Pool(workers)
            confirmed = None
            for job in found[:4]:
                res = job["result"]
                plain = {k: job[k] for k in ("index", "seed", "case", "strategy")}
                # the violation must repeat, first from the seed, then from the recorded decisions
                rr = pool.map([dict(plain, trace=None)] * 3)
                ok = [r for r in rr if same_violation(res, r)]
                if not ok:
                    unrep.append(job)
                    continue
                confirmed = (plain, ok[0])
                break
            if confirmed:
                plain, res = confirmed
                class M:
                    shrink = staticmethod(shrinks) if shrinks else None
                cur, r, trace, log = minimise(pool, M, plain, res, 40 if tier == "quick" else 180)
                path = write_replay(pid, seed, tier, plain, cur, r, trace, log)
                okrep = replay_file(path, bdir, scratch)
                print("%s: %s" % (r["clause"], r["msg"]))
                print("seed=%d run=%d decisions=%s (was %d) fresh-process replay: %s" % (
                    seed, plain["index"], n_events(trace) if trace is not None else "seed-driven", n_events(res.get("trace")),
                    "reproduced" if okrep else "NOT reproduced"))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                violations, status = 1, 1
        for what in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        if not violations and (unrep or stuck):
            for j in (unrep + stuck)[:3]:
                print("ERROR: unresolved run index=%s status=%s\ncase=%s\nstrategy=%s\n%s" % (
                    j.get("index"), j["result"]["status"], json.dumps(j["case"]), json.dumps(j["strategy"]), j["result"].get("msg")))
            status = 2
        evidence(pid, tier, seed, meta, aggs, violations, time.time() - t0, tbuild, det, seen_known, len(unrep), len(stuck))
        if not violations and status == 0:
            runs = sum(a["runs"] for a in aggs)
            print("OK property=%s tier=%s runs=%d wall=%.1fs (build %.1fs) determinism %s" % (
                pid, tier, runs, time.time() - t0, tbuild, det))
        return status
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def write_replay(pid, seed, tier, plain, cur, res, trace, log):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "verif_seed": seed, "tier": tier, "run_index": plain["index"], "run_seed": plain["seed"],
            "clause": res["clause"], "message": res["msg"], "case": cur["case"], "strategy": cur["strategy"],
            "trace": trace, "trace_format": "session -> [type (1 preempt, 2 choice at a block, 3 team size), thread key, "
            "thread-local step or region, target thread key or team size]", "original": plain, "minimisation": log}
    h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p


def replay_file(path, bdir=None, scratch=None, verbose=False):
    b = json.load(open(path))
    own = scratch is None
    bdir = bdir or simbuild.build(verbose=True)
    scratch = scratch or tempfile.mkdtemp(prefix="vsim-")
    w = fresh(b["property"], bdir, scratch)
    try:
        w.send({"cmd": "run", "job": {"case": b["case"], "strategy": b["strategy"], "trace": b["trace"]}})
        r = w.recv()
    finally:
        w.kill()
        if own:
            shutil.rmtree(scratch, ignore_errors=True)
    if verbose:
        print("%s: %s: %s" % (r["status"], r.get("clause"), r.get("msg")))
    return r["status"] == "violation" and r["clause"] == b["clause"] and (
        r["msg"] == b["message"] or b["clause"] in ("crash", "hang"))


def evidence(pid, tier, seed, meta, aggs, violations, wall, tbuild, det, seen_known, unrep, stuck):
    tot = {"stats": {}, "faults": {}, "probes": {}}
    sched = set()
    runs = evals = nontriv = 0
    samples = []
    for a in aggs:
        runs += a["runs"]
        evals += a["evals"]
        nontriv += a["nontrivial"]
        sched.update(a["sched"])
        samples += a["samples"][:1]
        for k in tot:
            for n, v in a[k].items():
                tot[k][n] = max(tot[k].get(n, 0), v) if n.startswith("max_") else tot[k].get(n, 0) + v
    srch = max(wall - tbuild, 1e-3)
    faults = {k: v for k, v in sorted(tot["faults"].items())}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sched),
            "rule": meta["rule"] + " A run is non-trivial when at least one scheduling decision was forced or one fault "
                    "fired; two runs are distinct when (workload, complete sequence of scheduling decisions) differ.",
            "samples": samples[:3],
            "oracle_checks": evals,
            "nontrivial_runs": nontriv,
            "runs_per_hour": int(runs / srch * 3600),
            "seeds_per_hour": int(runs / srch * 3600),
            "simulated_time_s": round(tot["stats"].get("steps", 0) * 1e-6, 3),
            "simulated_time_rule": "one simulated microsecond per yield point",
            "yield_points": {k: tot["stats"].get(k, 0) for k in ("steps", "mem", "sync", "py", "chunks")},
            "scheduling": {k: tot["stats"].get(k, 0) for k in ("switches", "forced", "blocked", "gil_parked", "conflicts",
                                                               "teams", "threads", "max_alive", "max_session", "sessions")},
            "faults_injected": faults,
            "probes": tot["probes"],
            "interleavings_distinct": len(sched),
            "components_real": meta["real"],
            "components_stub": meta["stub"],
            "determinism": det,
            "known_findings_seen": seen_known,
            "unreproduced": unrep, "stuck": stuck,
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--determinism")
    ap.add_argument("-n", type=int, default=200)
    a = ap.parse_args()
    if a.replay:
        ok = replay_file(a.replay, verbose=True)
        print("reproduced exactly" if ok else "NOT reproduced")
        return 1 if ok else 0
    if a.determinism:
        return determinism(a.determinism, a.n)
    return run_check(a.property, a.tier)


def determinism(pid, n):
    """every seed is run in several processes (different hash seeds, different predecessors)"""
    bdir = simbuild.build(verbose=True)
    scratch = tempfile.mkdtemp(prefix="vsim-")
    outs = []
    try:
        for variant in range(3):
            ws = [fresh(pid, bdir, scratch, {"PYTHONHASHSEED": str(variant * 11)}) for _ in range(NW - variant)]
            res = {}
            for k, w in enumerate(ws):
                idx = list(range(k, n, len(ws)))
                if variant == 1:
                    idx.reverse()
                w.send({"cmd": "redo", "indices": idx, "seed": 1})
            for w in ws:
                res.update(w.recv()["digests"])
                w.kill()
            outs.append(res)
        bad = [i for i in outs[0] if not all(o[i] == outs[0][i] for o in outs)]
        print("determinism %s: %d seeds x %d processes, %d differ %s" % (pid, n, len(outs), len(bad), bad[:10]))
        for b in bad[:5]:
            print(b, [o[b] for o in outs])
        return 2 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
