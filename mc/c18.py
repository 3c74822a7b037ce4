"""C18: the catalogue cache under every crash point, torn write, two-process interleaving, damaged file and option history."""
import ctypes
import itertools
import json
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

if __name__ == "__main__" and "CRASHPOINT_SO" not in os.environ:          # restart with the shim in place
    _d = tempfile.mkdtemp(prefix="lipsmc.shim.")
    _so = os.path.join(_d, "crashpoint.so")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", _so, os.path.join(os.path.dirname(os.path.abspath(__file__)), "native", "crashpoint.c"), "-ldl"], check=True)
    _env = dict(os.environ, CRASHPOINT_SO=_so, LD_PRELOAD=_so)
    _rc = subprocess.run([sys.executable, "-B", "-W", "ignore", "-m", "mc.c18"] + sys.argv[1:], env=_env).returncode
    shutil.rmtree(_d, ignore_errors=True)
    sys.exit(_rc)

from .common import Check, chunks, SCRATCH  # noqa
from lips import Invariants  # noqa

KINDS = ["invs_2", "invs_3", "invs_4", "invs_5", "invs_s", "invs_D", "invs_O", "invs_P", "invs_tr5"]
LIB = ctypes.CDLL(None)
OPTS = {
    "default": {}, "no hard-coded": dict(no_hard_coded_ones=True), "all 3": dict(Restrict3Brackets=False), "all 4": dict(Restrict4Brackets=False),
    "more 4": dict(FurtherRestrict4Brackets=False), "no cache": dict(no_cached=True), "no cache, all 3": dict(no_cached=True, Restrict3Brackets=False),
    "all 3 and 4": dict(Restrict3Brackets=False, Restrict4Brackets=False), "no hard-coded, more 4": dict(no_hard_coded_ones=True, FurtherRestrict4Brackets=False),
}
FRESH = {}


def contents(I):
    return {k: list(getattr(I, k)) for k in KINDS}


def fresh(n, o):
    """What the options give without any cache."""
    if (n, o) not in FRESH:
        FRESH[n, o] = contents(Invariants(n, **dict(OPTS[o], no_cached=True)))
    return FRESH[n, o]


def in_child(home, func, limit=60):
    """func() in a forked child with its own home; returns ('ok', value) | ('error', text) | ('died', status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            os.environ["HOME"] = home
            try:
                out = ("ok", func())
            except Exception as e:
                out = ("error", "%s: %s" % (type(e).__name__, str(e)[:200]))
            LIB.cp_disarm()
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return ("died", "exit %d" % os.WEXITSTATUS(status) if os.WIFEXITED(status) else "signal %d" % os.WTERMSIG(status))
    return pickle.loads(data)


def arm(home, k, mode, num=0, den=1, tell=-1, go=-1):
    LIB.cp_arm((home + "/").encode(), ctypes.c_long(k), mode, num, den, tell, go)


def construct(n, o, home=None, **armed):
    if armed:
        arm(home, **armed)
    out = contents(Invariants(n, **OPTS[o]))
    return out


def counted(n, o, home):
    arm(home, 10 ** 9, 1)
    out = construct(n, o)
    return out, LIB.cp_count()


def listing(home):
    out = []
    for d, _, fs in os.walk(home):
        for f in fs:
            with open(os.path.join(d, f), "rb") as fh:
                out.append((os.path.relpath(os.path.join(d, f), home), hash(fh.read())))
    return tuple(sorted(out))


class Home:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="home.", dir=SCRATCH)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def judge(res, label, got, n, o, dead_ok=False):
    st, val = got
    if st == "died" and dead_ok:
        return
    if st != "ok":
        res.fail(label, "construction %s: %s" % (st, val))
    elif val != fresh(n, o):
        bad = [k for k in KINDS if val[k] != fresh(n, o)[k]]
        res.fail(label, "another catalogue than without a cache: %s" % ["%s has %d entries, not %d" % (k, len(val[k]), len(fresh(n, o)[k])) for k in bad])


def later(res, label, home, n, opts):
    """Every later construction, twice with the default options (the first one may repair the cache)."""
    for o in opts:
        judge(res, label + ", then " + o, in_child(home, lambda: construct(n, o)), n, o)
        res.transitions += 1


def prepare(home, n, state):
    """The cache before the crash: none, complete, left by a crash, damaged."""
    if state == "none":
        return
    if state == "other":
        in_child(home, lambda: construct(5 if n != 5 else 4, "default"))
        return
    in_child(home, lambda: construct(n, "default"))
    base = os.path.join(home, ".cache", "lips", "n=%d" % n)
    files = [os.path.join(base, f) for f in sorted(os.listdir(base))] if os.path.isdir(base) else []
    for f in files:
        with open(f, "rb") as fh:
            data = fh.read()
        if state == "empty":
            data = b""
        elif state == "garbage":
            data = b"\xff\x00garbage" * 100
        elif state == "zeros":
            data = bytes(len(data))
        elif state.startswith("cut"):
            data = data[:len(data) * int(state[3:]) // 100]
        elif state.startswith("page"):
            i = int(state[4:])
            data = data[:4096 * i] + bytes(len(data[4096 * i:4096 * (i + 1)])) + data[4096 * (i + 1):]
        with open(f, "wb") as fh:
            fh.write(data)
    if state.startswith("missing"):
        import shelve
        with shelve.open(os.path.join(base, "invariants"), "w") as s:
            for k in list(s)[int(state[7:]):int(state[7:]) + 1]:
                del s[k]


def backend(name):
    """The other database Python may find (dbm.dumb is always there)."""
    if name == "dumb":
        import dbm
        import dbm.dumb
        dbm._names = ["dbm.dumb"]
        dbm._defaultmod = dbm.dumb


def crash_worker(shard, res):
    _, n, state, torn, ks = shard[:5]
    if len(shard) > 5:
        got = in_child(SCRATCH, lambda: (backend(shard[5]), crash_worker(shard[:5], res), res)[2], limit=600)
        if got[0] != "ok":
            raise RuntimeError(got)
        for key, desc, case in got[1].violations:
            res.fail("%s: %s" % (shard[5], key), desc, **case)
        got[1].violations = []
        got[1].states = {(shard[5], s) for s in got[1].states}
        res.merge(got[1])
        return
    for k in ks:
        for num, den in torn:
            label = "n=%d, cache %s, killed at file operation %d%s" % (n, state, k, "" if den == 1 else ", %d/%d written" % (num, den))
            res.current = label
            with Home() as home:
                prepare(home, n, state)
                got = in_child(home, lambda: construct(n, "default", home, k=k, mode=1 if den == 1 else 2, num=num, den=den))
                judge(res, label, got, n, "default", dead_ok=True)
                res.case((n, state, k, num, den), "killed" if got[0] == "died" else "not reached")
                res.states.add(("disk", n, listing(home)))
                res.traces += 1
                if got[0] == "ok":
                    continue
                later(res, label, home, n, ["default", "default", "all 3"])


def double_crash_worker(shard, res):
    """Killed while writing, then killed again at every point of the next construction."""
    _, n, k1s, kmax = shard
    for k1 in k1s:
        for k2 in range(1, kmax + 1):
            label = "n=%d, killed at file operation %d and again at %d" % (n, k1, k2)
            res.current = label
            with Home() as home:
                in_child(home, lambda: construct(n, "default", home, k=k1, mode=1))
                got = in_child(home, lambda: construct(n, "default", home, k=k2, mode=1))
                judge(res, label, got, n, "default", dead_ok=True)
                res.case((n, k1, k2), "killed twice" if got[0] == "died" else "killed once")
                res.states.add(("disk", n, listing(home)))
                later(res, label, home, n, ["default", "default"])
                res.traces += 1


class Stoppable:
    """A child that stops at file operation k until told to go on."""

    def __init__(self, home, n, k):
        self.tr, tw = os.pipe()
        gr, self.gw = os.pipe()
        self.rr, rw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(120)
                os.environ["HOME"] = home
                os.close(self.gw)
                arm(home, k, 3, 0, 1, tw, gr)
                try:
                    out = ("ok", contents(Invariants(n)))
                except Exception as e:
                    out = ("error", "%s: %s" % (type(e).__name__, str(e)[:200]))
                LIB.cp_disarm()
                os.write(tw, b"d")
                with os.fdopen(rw, "wb") as fh:
                    fh.write(pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(tw), os.close(gr), os.close(rw)
        self.paused = None

    def wait(self, limit=None):
        """Until it stops or ends; None if it did neither within the limit (it waits for the other process)."""
        if self.paused is None and (limit is None or select.select([self.tr], [], [], limit)[0]):
            self.paused = os.read(self.tr, 1) == b"p"
        return self.paused

    def go(self):
        self.wait()
        if self.paused:
            os.write(self.gw, b"g")
        os.close(self.gw)
        with os.fdopen(self.rr, "rb") as fh:
            data = fh.read()
        os.close(self.tr)
        _, status = os.waitpid(self.pid, 0)
        return pickle.loads(data) if data else ("died", "status %d" % status)


def pair_worker(shard, res):
    """Two processes: the first stops at its operation k1, the second runs to its operation k2 (or its end), the first finishes, the second finishes."""
    _, n, state, k1s, kmax, kill = shard
    for k1 in k1s:
        for k2 in [None] + list(range(1, kmax + 1)):
            label = "n=%d, cache %s, two processes: A stops at %d, B runs to %s, A %s" % (n, state, k1, k2 or "its end", "is killed" if kill else "finishes")
            res.current = label
            with Home() as home:
                prepare(home, n, state)
                a = Stoppable(home, n, k1)
                if not a.wait():
                    judge(res, label, a.go(), n, "default")
                    res.case((n, state, k1, k2, "end"), "not reached")
                    break
                b = Stoppable(home, n, k2 or 10 ** 9)
                blocked = b.wait(0.7) is None
                if kill:
                    os.kill(a.pid, signal.SIGKILL)
                    a.paused = False
                    a.go()
                else:
                    judge(res, label + ": A", a.go(), n, "default")
                stopped = b.wait()
                judge(res, label + ": B", b.go(), n, "default")
                res.case((n, state, k1, k2, kill), "two processes, B waits for A" if blocked else "two processes")
                res.traces += 1
                res.transitions += 3
                res.states.add(("disk", n, listing(home)))
                later(res, label, home, n, ["default", "default"])
                if k2 and not stopped:
                    break


def history_worker(shard, res):
    """All sequences of constructions: each gives what its options give without a cache; callers may change what they got."""
    _, alphabet, firsts, depth = shard
    for first in firsts:
        for d in range(depth):
            for rest in itertools.product(alphabet, repeat=d):
                seq = (first,) + rest
                label = "constructions " + "; ".join("%d %s%s" % (n, o, " (changed by the caller)" if c else "") for n, o, c in seq)
                res.current = label

                def run():
                    bad = []
                    for i, (n, o, c) in enumerate(seq):
                        I = Invariants(n, **OPTS[o])
                        if contents(I) != fresh(n, o):
                            bad.append((i, [k for k in KINDS if getattr(I, k) != fresh(n, o)[k]]))
                        if c:
                            for k in KINDS:
                                getattr(I, k).append("changed")
                                del getattr(I, k)[:1]
                            I.full.clear()
                    return bad
                with Home() as home:
                    st, val = in_child(home, run)
                res.case((seq, "history"), "history")
                res.transitions += len(seq)
                if st != "ok":
                    res.fail(label, "%s: %s" % (st, val))
                elif val:
                    res.fail(label, "construction %d differs from the one without a cache: %s" % val[0])


def main():
    ck = Check("C18", level="fault_enumeration")
    ck.rule = "kill before every file operation and inside every write (1 byte, fractions, all but one byte) for each prior cache state; kill twice; two processes stopped at every pair of operations; all option histories"
    T = ck.thorough
    assert hasattr(LIB, "cp_arm")
    for n in (4, 5, 6):
        for o in OPTS:
            if n < 6 or o in ("default", "no cache", "no hard-coded", "all 3"):
                fresh(n, o)
    ops = {}
    for n in (4, 5, 6):
        with Home() as home:
            ops[n] = in_child(home, lambda: counted(n, "default", home))[1][1]
    ck.notes["file operations of one cold construction"] = ops
    shards = []
    whole, torn = [(0, 1)], [(1, 10 ** 9), (1, 8), (1, 4), (1, 2), (3, 4), (10 ** 9 - 1, 10 ** 9)]
    damaged = ["empty", "garbage", "zeros", "cut10", "cut50", "cut90", "page0", "page1", "page2", "missing0", "missing3", "missing8"]
    for n in (4, 5, 6) if T else (4, 5):
        top = ops[n] + 12
        for state in ["none", "complete", "other"] + (damaged if T or n == 4 else damaged[::3]):
            for ch in chunks(list(range(1, top + 1)), 6):
                shards.append(("crash", n, state, whole, ch))
                if state == "none" or (T and state in ("page1", "cut50")):
                    shards.append(("crash", n, state, torn, ch))
    if not T:
        shards.append(("crash", 6, "none", whole, list(range(1, ops[6] + 1, 3))))
    for state in ("none", "complete", "cut50", "page0", "missing3"):
        for ch in chunks(list(range(1, 41)), 4):
            shards.append(("crash", 4, state, whole + (torn if state == "none" else []), ch, "dumb"))
    ck.run(crash_worker, shards)
    ck.run(double_crash_worker, [("double", n, [k], ops[n] + 6) for n in ((4, 5) if T else (4,)) for k in range(1, ops[n] + 1)])
    shards = []
    for n in (4, 5) if T else (4,):
        for state in ("none", "complete", "cut50") + (("missing3", "garbage") if T else ()):
            for k in range(1, ops[n] + 8):
                shards.append(("pair", n, state, [k], ops[n] + 8, False))
                if T or state == "none":
                    shards.append(("pair", n, state, [k], ops[n] + 8, True))
    ck.run(pair_worker, shards)
    small = [(4, o, c) for o in ("default", "no cache", "all 3", "no hard-coded") for c in (False, True)]
    mixed = [(5, o, False) for o in OPTS] + [(5, "default", True), (5, "all 3", True), (4, "default", False)]
    six = [(6, "default", False), (6, "no hard-coded", False), (6, "all 3", False), (5, "default", False)]
    shards = [("history", small, [f], 3) for f in small] + [("history", mixed, [f], 3 if T else 2) for f in mixed] + [("history", six, [f], 3 if T else 2) for f in six]
    ck.run(history_worker, shards)
    ck.notes["distinct disk states"] = len([s for s in ck.res.states if "disk" in s])
    ck.assumptions += ["a killed process leaves everything it wrote (process crash, not power loss)", "file operations are those made through the C library; the dbm implementation is the one Python finds here"]
    ck.finish()


if __name__ == "__main__":
    main()
