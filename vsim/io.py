"""Disk seam: plans for the LD_PRELOAD layer, and crashes with lost writes."""
import ctypes
import errno
import os

import simrt

LIB = ctypes.CDLL(os.path.join(os.environ["VSIM_DIR"], "libiofault.so"))
for _n in ("iof_count", "iof_fired", "iof_nlog"):
    getattr(LIB, _n).restype = ctypes.c_int64
LIB.iof_entry.argtypes = [ctypes.c_int64, ctypes.POINTER(ctypes.c_int64)]
LIB.iof_name.restype = ctypes.c_char_p
LIB.iof_plan.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int]

OPENW, WRITE, CLOSE, SYNC, RENAME, UNLINK, TRUNC, READ, OPENR, MUT = range(10)
ERR, SHORT, CRASH_BEFORE, CRASH_PART, CRASH_AFTER, LOSE = range(1, 7)
NAMES = ["open_for_writing", "write", "close", "fsync", "rename", "unlink", "truncate", "read", "open_for_reading", "mutation"]
ACTS = {ERR: "error", SHORT: "short", CRASH_BEFORE: "crash_before", CRASH_PART: "crash_torn", CRASH_AFTER: "crash_after", LOSE: "lost_until_close"}
CRASH = 42


def config(prefix):
    LIB.iof_config(os.path.join(prefix, "").encode())


def clear():
    LIB.iof_clear()


def plan(p):
    """p: dict cls, nth, act, err, frac, sticky"""
    LIB.iof_plan(p["cls"], p["nth"], p["act"], getattr(errno, p.get("err", "EIO")), p.get("frac", 128), int(p.get("sticky", False)))


def plan_name(p):
    n = "%s_%s" % (NAMES[p["cls"]], ACTS[p["act"]])
    return n + "_" + p.get("err", "EIO") if p["act"] == ERR else n


def fired(p):
    return LIB.iof_fired(p["cls"])


def log():
    out = []
    buf = (ctypes.c_int64 * 4)()
    for i in range(LIB.iof_nlog()):
        LIB.iof_entry(i, buf)
        out.append((buf[0], LIB.iof_name(buf[1]).decode(), buf[2], buf[3]))
    return out


def under(ctx, plans, fn):
    """runs fn() with the plans armed; (result, exception, number of faults that fired)"""
    clear()
    for p in plans:
        plan(p)
    res = err = None
    try:
        res = fn()
    except Exception as e:  # noqa
        err = e
    n = 0
    for p in plans:
        k = fired(p)
        n += k
        ctx.fault("io:" + plan_name(p), k)
    clear_keep_log()
    return res, err, n


def clear_keep_log():
    lg = log()
    clear()
    under.last_log = lg


under.last_log = []


def crashing(ctx, plans, fn):
    """runs fn() in a forked process that may be ended by a plan; returns 'crashed', 'returned' or 'raised'"""
    clear()
    for p in plans:
        plan(p)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            fn()
            code = 0
        except BaseException:  # noqa
            code = 3
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    for p in plans:
        ctx.fault("io:" + plan_name(p), fired(p))
    lg = log()
    clear()
    under.last_log = lg
    if code == CRASH:
        return "crashed"
    return {0: "returned", 3: "raised"}.get(code, "died:%d" % code)


def lose_writes(ctx, r, root, lg, block):
    """after a power cut: unsynced writes may be missing block by block; the file keeps a length up to its size"""
    synced = {}
    for i, (c, f, off, n) in enumerate(lg):
        if c == SYNC:
            synced[f] = i
    lost = 0
    for f in sorted({e[1] for e in lg if e[0] == WRITE}):
        # names changed by renames afterwards
        path, last = f, synced.get(f, -1)
        for c, a, b, _ in lg:
            if c == RENAME and a == path:
                path = LIB.iof_name(b).decode()
        p = os.path.join(root, path)
        if not os.path.exists(p):
            continue
        blocks = set()
        for i, (c, g, off, n) in enumerate(lg):
            if c == WRITE and g == f and i > last and n:
                blocks.update(range(off // block, (off + n - 1) // block + 1))
        keep = set()
        for i, (c, g, off, n) in enumerate(lg):
            if c == WRITE and g == f and i <= last and n:
                keep.update(range(off // block, (off + n - 1) // block + 1))
        size = os.path.getsize(p)
        gone = [b for b in sorted(blocks - keep) if r.random() < 0.4]
        with open(p, "r+b") as fh:
            for b in gone:
                fh.seek(b * block)
                k = min(block, size - b * block)
                if k > 0:
                    fh.write(b"\0" * k)
                    lost += 1
        if r.random() < 0.3 and last < 0:
            cut = r.randrange(size + 1)
            os.truncate(p, cut)
            lost += 1
    ctx.fault("io:lost_block", lost)
    return lost
