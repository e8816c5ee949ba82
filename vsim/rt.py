"""Runtime inside a simulated process: sessions, threads, locks, clock, yield points, fault injection.

Imported once by the zygote worker *before* the package under test, so that the seams (threading
locks, thread creation, clock, sys.monitoring) are in place when the package is imported."""
import _thread
import os
import sys
import threading
import time as _time
import types

import simrt

PKG_DIR = None  # directory of the simulated package, set by install()
HARNESS_DIR = os.path.dirname(os.path.abspath(__file__))

_real_time = _time.time
_real_sleep = _time.sleep
_real_start_new_thread = _thread.start_new_thread
_RealLock = _thread.allocate_lock


class Violation(Exception):
    """the property is broken: clause names the oracle that failed"""

    def __init__(self, clause, msg):
        super().__init__(clause, msg)
        self.clause = clause
        self.msg = msg


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------------------------- locks
_outside = [0]  # threads that were started outside a session and are still running


_outside_guard = _RealLock()


def _acquire_outside(lock, free, take, blocking, timeout):
    """between real threads, outside every session"""
    while True:
        with _outside_guard:
            if free():
                take()
                return True
        if not blocking or (timeout is not None and timeout >= 0):
            return False
        _wait_outside()


def _wait_outside():
    if not _outside[0]:
        raise Violation("lock-held", "a lock is still held after every call has ended")
    _real_sleep(0)


class SimLock:
    def __init__(self):
        self._held = False
        self._owner = 0

    def acquire(self, blocking=True, timeout=-1):
        if simrt.active():
            simrt.point()
        elif _outside[0]:
            return _acquire_outside(self, lambda: not self._held, self._take, blocking, timeout)
        while self._held:
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if not simrt.active():
                _wait_outside()
                continue
            simrt.block(id(self))
        self._take()
        return True

    def _take(self):
        self._held = True
        self._owner = simrt.ident()

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        simrt.wake(id(self))
        if simrt.active():
            simrt.point()

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False


class SimRLock:
    def __init__(self):
        self._depth = 0
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        if simrt.active():
            simrt.point()
        me = _thread.get_ident()
        if self._depth and self._owner == me:
            self._depth += 1
            return True
        if _outside[0] and not simrt.active():
            return _acquire_outside(self, lambda: not self._depth, self._take, blocking, timeout)
        while self._depth:
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if not simrt.active():
                _wait_outside()
                continue
            simrt.block(id(self))
        self._take()
        return True

    def _take(self):
        self._depth = 1
        self._owner = _thread.get_ident()

    def release(self):
        me = _thread.get_ident()
        if not self._depth or self._owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            simrt.wake(id(self))
            if simrt.active():
                simrt.point()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._depth > 0 and self._owner == (_thread.get_ident())

    def _release_save(self):
        s = (self._depth, self._owner)
        self._depth = 0
        self._owner = None
        simrt.wake(id(self))
        return s

    def _acquire_restore(self, s):
        while self._depth:
            if simrt.active():
                simrt.block(id(self))
            else:
                _wait_outside()
        self._depth, self._owner = s

    def _at_fork_reinit(self):
        self._depth = 0


# ------------------------------------------------------------------------------------- clock
class Clock:
    """virtual clock: one microsecond per yield point plus injected jumps"""

    def __init__(self):
        self.base = 1_700_000_000.0
        self.off = 0.0
        self.rng = None
        self.p = 0.0
        self.jumps = 0
        self.reads = 0
        self.advance = 0.0

    def now(self):
        self.reads += 1
        self.off += self.advance
        if self.rng is not None and self.rng.random() < self.p:
            self.off += self.rng.choice([3600.0, -3600.0, 86400.0 * 400, -86400.0 * 400, 1e-3, -5.0])
            self.jumps += 1
        return self.base + self.off + simrt.steps() * 1e-6


CLOCK = Clock()


def _now():
    return CLOCK.now()


def _sleep(s):
    CLOCK.off += max(0.0, float(s))
    if simrt.active():
        simrt.point()


# ------------------------------------------------------------------------------------- threads
class SimThread:
    """a simulated caller thread running fn()"""

    def __init__(self, fn, name=""):
        self.fn = fn
        self.name = name
        self.result = None
        self.exc = None
        self.handle = None
        self.real_done = _RealLock()
        self.real_done.acquire()

    def start(self):
        self.handle = simrt.spawn()
        ready = _RealLock()
        ready.acquire()

        def boot():
            ready.release()
            simrt.attach(self.handle)
            try:
                self.result = self.fn()
            except BaseException as e:  # noqa
                self.exc = e
            finally:
                simrt.detach()
                self.real_done.release()

        _real_start_new_thread(boot, ())
        ready.acquire()

    def join(self):
        simrt.join(self.handle)


def _sim_start_new_thread(fn, args, kwargs=None):
    """threads started by the code under test while a session is active are simulated too"""
    if not simrt.active():
        def plain():
            try:
                fn(*args, **(kwargs or {}))
            finally:
                _outside[0] -= 1

        _outside[0] += 1
        return _real_start_new_thread(plain, ())
    h = simrt.spawn()
    ready = _RealLock()
    ready.acquire()

    def boot():
        ready.release()
        simrt.attach(h)
        _handles[_thread.get_ident()] = h
        try:
            fn(*args, **(kwargs or {}))
        finally:
            simrt.detach()

    tid = _real_start_new_thread(boot, ())
    ready.acquire()
    _handles[tid] = h
    return tid


_hashes = [0]


def _thread_hash(self):
    """the same in every process (executors keep their threads in sets)"""
    d = vars(self)
    if "_vsim_hash" not in d:
        _hashes[0] += 1
        d["_vsim_hash"] = _hashes[0]
    return d["_vsim_hash"]


_handles = {}
_real_join = threading.Thread.join


def _sim_join(self, timeout=None):
    h = _handles.get(self.ident)
    if simrt.active() and h is not None:
        simrt.join(h)
        return None
    return _real_join(self, timeout)


# ------------------------------------------------------------------------------------- yield points
MON = sys.monitoring
TOOL = 4
EV = MON.events
_classes = {}
HELD = []  # predicates: true while a lock of third-party native code is held, where no switch may happen


class Inject:
    """raise `exc` when the `at`-th line event inside the package happens in thread `ident`"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.at = 0
        self.exc = None
        self.count = 0
        self.thread = None
        self.fired = None
        self.armed = False


INJ = Inject()


def _classify(code):
    f = code.co_filename
    if PKG_DIR and f.startswith(PKG_DIR):
        return 2
    if "numpy" in f or "scipy" in f or "tqdm" in f or "zipfile" in f or "urllib" in f or "h5py" in f:
        if "tqdm/_monitor" in f:
            return 0
        return 1
    return 0


def _on_start(code, off):
    c = _classes.get(code)
    if c is None:
        c = _classes[code] = _classify(code)
        if c == 2:
            MON.set_local_events(TOOL, code, EV.LINE | EV.INSTRUCTION)
        elif c == 1:
            MON.set_local_events(TOOL, code, EV.LINE)
    if c == 0:
        return MON.DISABLE
    if c == 2 and INJ.armed:
        _maybe_inject(code, 0)
    if c == 1 and HELD and HELD[0]():
        return
    simrt.point()


def _maybe_inject(code, line):
    if INJ.thread is not None and INJ.thread != simrt.ident():
        return
    INJ.count += 1
    if INJ.exc is not None and INJ.count == INJ.at:
        INJ.fired = "%s:%s" % (os.path.relpath(code.co_filename, PKG_DIR), code.co_qualname)
        e = INJ.exc
        INJ.exc = None
        raise e


def _on_line(code, line):
    c = _classes.get(code)
    if INJ.armed and c == 2:
        _maybe_inject(code, line)
    if c == 1 and HELD and HELD[0]():
        return
    simrt.point()


def _on_instr(code, off):
    simrt.point()


def monitor_on():
    MON.set_events(TOOL, EV.PY_START)


def monitor_off():
    MON.set_events(TOOL, 0)


def install(pkg_dir):
    global PKG_DIR
    PKG_DIR = os.path.realpath(pkg_dir) + os.sep
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._start_new_thread = _sim_start_new_thread
    threading.Thread.join = _sim_join
    threading.Thread.__hash__ = _thread_hash
    try:
        import queue

        queue.SimpleQueue = queue._PySimpleQueue
        import concurrent.futures.thread as cft

        cft._global_shutdown_lock = SimLock()
    except Exception:  # pragma: no cover
        pass
    _time.time = _now
    _time.perf_counter = _now
    _time.monotonic = _now
    _time.sleep = _sleep
    MON.use_tool_id(TOOL, "vsim")
    MON.register_callback(TOOL, EV.PY_START, _on_start)
    MON.register_callback(TOOL, EV.LINE, _on_line)
    MON.register_callback(TOOL, EV.INSTRUCTION, _on_instr)


# ------------------------------------------------------------------------------------- run context
MODES = {"random": 0, "pct": 1, "rr": 2, "serial": 3, "replay": 4}


class Ctx:
    """what a property's run() sees"""

    def __init__(self, prop, case, strategy, trace=None, scratch=None):
        self.prop = prop
        self.case = case
        self.strategy = strategy
        self.trace = trace          # {session: [(type, key, step, target)]} when replaying
        self.session_no = 0
        self.stats = {}
        self.faults = {}
        self.probes = {}
        self.digest = 0
        self.scratch = scratch
        self.sched_hash = 0
        self.evals = 0

    # -- accounting
    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, *vals):
        """adds values to the run's history digest"""
        import zlib

        for v in vals:
            if hasattr(v, "tobytes"):
                v = v.tobytes()
            elif not isinstance(v, bytes):
                v = repr(v).encode()
            self.digest = zlib.crc32(v, self.digest)

    def check(self, ok, clause, msg):
        self.evals += 1
        if not ok:
            raise Violation(clause, msg() if callable(msg) else msg)

    # -- sessions
    def session(self, **over):
        return Session(self, over)

    def par(self, fns, **over):
        """runs the functions as concurrent simulated threads; returns [(result, exception)]"""
        with self.session(py=True, **over):
            ths = [SimThread(f) for f in fns]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        for t in ths:
            t.real_done.acquire()
        self.probe("par_threads", len(ths))
        for t in ths:
            if isinstance(t.exc, (Violation, HarnessError)):
                raise t.exc
        return [(t.result, t.exc) for t in ths]


class Session:
    def __init__(self, ctx, over):
        self.ctx = ctx
        self.over = over

    def __enter__(self):
        c = self.ctx
        cfg = dict(c.strategy)
        cfg.update({k: v for k, v in self.over.items() if k != "py"})
        no = c.session_no
        c.session_no += 1
        cfg["session"] = no
        cfg["mode"] = MODES[cfg.get("mode", "serial")]
        # "same": every session makes the same choices
        cfg["seed"] = (int(cfg.get("seed", 1)) * 1000003 + (0 if cfg.pop("same", False) else no)) & (2**63 - 1)
        cfg.setdefault("max_steps", 1_500_000_000)  # the longest session on the unchanged tree needs below a tenth of it
        if c.trace is not None:
            cfg["mode"] = MODES["replay"]
            cfg["replay"] = [tuple(e) for e in c.trace.get(str(no), [])]
        self.py = bool(self.over.get("py"))
        self.clock0 = simrt.steps()
        simrt.start(cfg)
        if self.py:
            monitor_on()
        return self

    def __exit__(self, et, ev, tb):
        if self.py:
            monitor_off()
        st = simrt.stop()
        c = self.ctx
        for k, v in st.items():
            if k == "hash":
                c.sched_hash = (c.sched_hash * 1000003 + v) & (2**64 - 1)
            elif k in ("max_alive",):
                c.stats[k] = max(c.stats.get(k, 0), v)
            else:
                c.stats[k] = c.stats.get(k, 0) + v
        c.stats["max_session"] = max(c.stats.get("max_session", 0), st["steps"])
        c.stats["sessions"] = c.stats.get("sessions", 0) + 1
        c.fault("preemption", st["switches"])
        c.fault("stalled_thread", st["stalls"])
        c.fault("team_size_cut", st["teams_cut"])
        return False


def with_injection(ctx, exc, at, fn):
    """runs fn() with `exc` raised at the at-th package line event; returns (result, exception, fired)"""
    INJ.reset()
    INJ.exc = exc
    INJ.at = at
    INJ.thread = simrt.ident() or None
    INJ.armed = True
    res = err = None
    try:
        res = fn()
    except BaseException as e:  # noqa
        if isinstance(e, (Violation, HarnessError)):
            raise
        err = e
    finally:
        INJ.armed = False
    fired = INJ.fired
    if fired:
        ctx.fault("exception_injected:%s" % type(exc).__name__)
    return res, err, fired, INJ.count


def freeze_namespace():  # pragma: no cover - debugging helper
    return types.SimpleNamespace(**globals())
