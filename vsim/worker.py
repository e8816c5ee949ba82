"""Zygote: imports the simulated package once, then forks one process per simulated run.

Line protocol (JSON) on stdin/stdout.  Commands:
  {"cmd": "search", "start": i, "stride": k, "deadline": wall seconds, "min": n, "max": n, "seed": S}
  {"cmd": "run", "job": {"case":…, "strategy":…, "trace":… or null}}"""
import ctypes
import gc
import hashlib
import importlib
import json
import mmap
import os
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback

_wall = time.time  # the real clock, before the seams are installed

BUILD = os.environ["VSIM_DIR"]
sys.path[:0] = [os.path.join(BUILD, "pkg"), BUILD]
sys.dont_write_bytecode = True

import simrt  # noqa: E402

from vsim import rt  # noqa: E402

rt.install(os.path.join(BUILD, "pkg"))

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import tqdm  # noqa: E402

tqdm.tqdm.monitor_interval = 0
tqdm.tqdm.set_lock(rt.SimRLock())  # the default also holds a process-shared semaphore the simulator cannot see


def _refresh(self, nolock=False, lock_args=None):
    # tqdm itself never releases its lock when the display fails, which would hide what the package does then
    if self.disable:
        return None
    if nolock:
        self.display()
        return True
    if not self._lock.acquire(*(lock_args or ())):
        return False
    try:
        self.display()
    finally:
        self._lock.release()
    return True


tqdm.tqdm.refresh = _refresh
import implicit  # noqa: E402
import implicit.als  # noqa: E402
import implicit.bpr  # noqa: E402
import implicit.cpu.als  # noqa: E402
import implicit.cpu.bpr  # noqa: E402
import implicit.cpu.lmf  # noqa: E402
import implicit.evaluation  # noqa: E402
import implicit.lmf  # noqa: E402
import implicit.nearest_neighbours  # noqa: E402
import implicit.utils  # noqa: E402

if not os.path.realpath(implicit.__file__).startswith(os.path.realpath(BUILD)):
    raise SystemExit("wrong package imported: %s" % implicit.__file__)

BUF = mmap.mmap(-1, 64 + 32 * 400_000)
RUN_TIMEOUT = float(os.environ.get("VSIM_RUN_TIMEOUT", "60"))
SCRATCH = os.environ["VSIM_SCRATCH"]
LIBC = ctypes.CDLL(None)
DEVNULL = os.open(os.devnull, os.O_WRONLY)


def run_seed(seed, prop, i):
    h = hashlib.sha256(("%s/%s/%d" % (seed, prop.ID, i)).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 2


def tame(case):
    """large in one way at a time"""
    m, k = case.get("m"), case.get("k")
    if isinstance(m, dict) and isinstance(k, dict) and m.get("users", 0) * m.get("items", 0) > 4000 and k.get("factors", 0) > 14:
        k["factors"] = 14


def make_job(prop, seed, i):
    s = run_seed(seed, prop, i)
    r = random.Random(s)
    case = prop.new_case(r, i)
    tame(case)
    strat = prop.strategy(r, case)
    return {"index": i, "seed": s, "case": case, "strategy": strat, "trace": None}


def unsolvable(prop, e):
    """the solver found a row's system not positive definite: a legitimate outcome of training on nearly dependent data
    (C01, C02 and C17 decide whether it is)"""
    return isinstance(e, ValueError) and "posv failed" in str(e) and prop.ID not in ("C01", "C02", "C17")


def in_package(f):
    return f.startswith(rt.PKG_DIR) or (f.startswith("implicit/") or "/pkg/implicit/" in f)


def in_child(prop, job, wfd, scratch):
    # everything a run depends on is reset here
    out = {"status": "ok"}
    code = 0
    try:
        os.makedirs(scratch, exist_ok=True)
        simrt.buffer(BUF)
        np.random.seed(12345)
        random.seed(12345)
        entropy = random.Random(job["strategy"]["seed"])  # what the operating system's entropy source returns
        os.urandom = entropy.randbytes
        np.random.bit_generator.randbits = entropy.getrandbits
        ctx = rt.Ctx(prop, job["case"], job["strategy"], job.get("trace"), scratch)
        try:
            prop.run(job["case"], ctx)
        except rt.Violation as v:
            out.update(status="violation", clause=v.clause, msg=str(v.msg)[:2000])
        except Exception as e:  # noqa
            # a call that has to succeed raised: the innermost package frame shows that it was the code under test
            fr = [f for f in traceback.extract_tb(e.__traceback__) if in_package(f.filename)]
            if isinstance(e, rt.HarnessError) or not fr:
                raise
            if unsolvable(prop, e):
                ctx.probe("unsolvable_system")
            else:
                out.update(status="violation", clause="unexpected-exception:" + type(e).__name__,
                           msg="%s: %s (raised in %s)" % (type(e).__name__, str(e)[:400], fr[-1].name))
        if "msg" in out:
            out["msg"] = out["msg"].replace(scratch, "<scratch>")
        out.update(stats=ctx.stats, faults=ctx.faults, probes=ctx.probes, digest=ctx.digest,
                   sched=ctx.sched_hash, evals=ctx.evals)
    except BaseException:  # noqa
        out = {"status": "error", "msg": traceback.format_exc()[-3000:]}
        code = 1
    data = json.dumps(out).encode()
    os.write(wfd, struct.pack("<I", len(data)))
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os.close(wfd)
    simrt.finish()
    os._exit(code)


def read_all(fd, pid, timeout):
    """reads the child's report; returns (bytes, timed_out)"""
    buf = b""
    end = _wall() + timeout
    while True:
        left = end - _wall()
        if left <= 0:
            return buf, True
        r, _, _ = select.select([fd], [], [], min(left, 1.0))
        if r:
            d = os.read(fd, 1 << 16)
            if not d:
                return buf, False
            buf += d
            if len(buf) >= 4 and len(buf) >= 4 + struct.unpack("<I", buf[:4])[0]:
                return buf, False


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return -1


def trace_entries():
    n = struct.unpack_from("<Q", BUF, 8)[0]
    raw = np.frombuffer(BUF, dtype="<u8", count=4 * n, offset=64).reshape(-1, 4) if n else np.zeros((0, 4), "u8")
    tr = {}
    for ts, k, s, t in raw.tolist():
        tr.setdefault(str(ts >> 8), []).append([ts & 255, k, s, t])
    return tr, bool(struct.unpack_from("<Q", BUF, 24)[0])


def run_job(prop, job, want_trace=False):
    BUF[:64] = b"\0" * 64
    scratch = os.path.join(SCRATCH, "w%d" % os.getpid())
    shutil.rmtree(scratch, ignore_errors=True)
    rfd, wfd = os.pipe()
    t0 = _wall()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        os.setpgid(0, 0)
        LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)  # the run ends with its zygote
        os.dup2(DEVNULL, 1)  # and never writes into the protocol
        in_child(prop, job, wfd, scratch)
        os._exit(3)
    os.close(wfd)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    timeout = getattr(prop, "TIMEOUT", RUN_TIMEOUT)
    buf, late = read_all(rfd, pid, timeout)
    os.close(rfd)
    cpu = cpu_of(pid) if late else 0
    if late:
        os.kill(pid, signal.SIGKILL)
    else:
        # the report is complete; the process exits by itself
        end = _wall() + 10
        while _wall() < end:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(0)
            select.select([], [], [], 0.0005)
        else:
            os.kill(pid, signal.SIGKILL)
            p, st = os.waitpid(pid, 0)
    if late:
        p, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    res = None
    if len(buf) >= 4:
        n = struct.unpack("<I", buf[:4])[0]
        if len(buf) >= 4 + n:
            res = json.loads(buf[4:4 + n])
    if res is None:
        status = struct.unpack_from("<Q", BUF, 0)[0]
        if status == 2:
            res = {"status": "violation", "clause": "deadlock", "msg": "every simulated thread is blocked: deadlock"}
        elif status == 3:
            res = {"status": "violation", "clause": "no-progress",
                   "msg": "the step budget ran out: the call does not terminate under this schedule"}
        elif late:
            if cpu > 0.5 * timeout:
                res = {"status": "violation", "clause": "hang", "msg": "no end after %d s of CPU time" % timeout}
            else:
                res = {"status": "stuck", "msg": "blocked outside the simulator for %d s (cpu %.1f s)" % (timeout, cpu)}
        elif os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            if sig in (signal.SIGKILL,):
                res = {"status": "stuck", "msg": "run was killed (out of memory?)"}
            else:
                res = {"status": "violation", "clause": "crash",
                       "msg": "the process crashed with %s" % signal.Signals(sig).name}
        else:
            res = {"status": "error", "msg": "run ended with exit status %d and no report" % os.WEXITSTATUS(st)}
    res["wall"] = _wall() - t0
    if want_trace or res["status"] in ("violation", "stuck"):
        res["trace"], res["trace_truncated"] = trace_entries()
    return res


def send(o):
    sys.stdout.write(json.dumps(o) + "\n")
    sys.stdout.flush()


def main():
    prop = importlib.import_module("vsim.props." + sys.argv[1].lower())
    if hasattr(prop, "setup"):
        prop.setup()
    gc.collect()
    gc.freeze()
    gc.disable()
    send({"ready": True})
    for line in sys.stdin:
        cmd = json.loads(line)
        if cmd["cmd"] == "run":
            r = run_job(prop, cmd["job"], want_trace=cmd.get("trace", False))
            r["id"] = cmd.get("id")
            send(r)
        elif cmd["cmd"] == "search":
            agg = {"runs": 0, "stats": {}, "faults": {}, "probes": {}, "evals": 0, "sched": [], "samples": [],
                   "digests": {}, "nontrivial": 0, "errors": [], "wall": 0.0}
            i = cmd["start"]
            t0 = _wall()
            while True:
                el = _wall() - t0
                if i >= cmd["max"] or (el > cmd["deadline"] and i >= cmd["min"]) or el > cmd["hard"]:
                    break
                job = make_job(prop, cmd["seed"], i)
                r = run_job(prop, job)
                agg["runs"] += 1
                agg["wall"] += r["wall"]
                if r["status"] != "ok":
                    job.update(result=r)
                    send({"event": r["status"], "job": job})
                    # the supervisor decides whether to go on
                    ans = json.loads(sys.stdin.readline())
                    if ans["cmd"] == "stop":
                        break
                for k in ("stats", "faults", "probes"):
                    for n, v in (r.get(k) or {}).items():
                        agg[k][n] = max(agg[k].get(n, 0), v) if n.startswith("max_") else agg[k].get(n, 0) + v
                agg["evals"] += r.get("evals", 0)
                f = r.get("faults") or {}
                if any(v for v in f.values()) or (r.get("stats") or {}).get("forced", 0):
                    agg["nontrivial"] += 1
                    cd = hashlib.sha256(json.dumps(job["case"], sort_keys=True).encode()).hexdigest()[:10]
                    agg["sched"].append("%s%x" % (cd, r.get("sched", 0)))
                if i < cmd.get("redo", 0):
                    agg["digests"][str(i)] = [r.get("digest"), r.get("sched"), (r.get("stats") or {}).get("steps")]
                if len(agg["samples"]) < 2:
                    agg["samples"].append({"index": i, "seed": job["seed"], "case": job["case"],
                                           "strategy": job["strategy"], "stats": r.get("stats"), "faults": f})
                i += cmd["stride"]
            send({"event": "done", "agg": agg, "next": i})
        elif cmd["cmd"] == "redo":
            out = {}
            for i in cmd["indices"]:
                r = run_job(prop, make_job(prop, cmd["seed"], i))
                out[str(i)] = [r.get("digest"), r.get("sched"), (r.get("stats") or {}).get("steps")]
            send({"event": "redo", "digests": out})
        elif cmd["cmd"] == "quit":
            break


main()
