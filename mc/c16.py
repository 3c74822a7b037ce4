"""C16: every combination of outcomes of the built-in constructions and of the fallback, every fault point inside the real built-in constructions."""
import contextlib
import io
import itertools
import random
import shutil
import sys
import warnings
from .common import Check, chunks
import mpmath
from pyadic import PAdic
from lips import Particles, Particle
from . import ref, invstr, solver  # noqa: the solver's clock
from .ref import el, arr, Ref, same, is_zero, coherent, spinors_of, snapshot
from .c14 import Roots, start, catalogue, val

warnings.simplefilter("ignore")
BUILTIN = ["solve", "raise", "nothing", "random", "random+raise", "solve+raise", "scale+raise", "swap+raise", "one leg+raise", "massive+raise", "wrong value", "first only", "second only",
           "rescaled leg", "massive leg", "tiny momentum", "other valuation", "half spinor+raise", "stale momentum"]
FALLBACK = ["solve", "raise", "nothing", "random", "wrong value", "first only", "second only", "rescaled leg", "massive leg", "tiny momentum", "other valuation", "solve+raise", "stale momentum"]


class Injected(Exception):
    pass


def request(field, k, m):
    """m requested values (valuations p-adically)."""
    if field.name == "padic":
        return ((1, 2, 1), (2, 1, 3), (3, 3, 1))[k][:m]
    if field.name == "mpc":
        return ((mpmath.mpf("1e-30"), mpmath.mpf("2e-30"), mpmath.mpf("3e-30")), (mpmath.mpf(3), mpmath.mpf(5), mpmath.mpf(7)), (mpmath.mpf("1e-100"), mpmath.mpf(2), mpmath.mpf("1e-20")))[k][:m]
    if field.name == "rational":
        return (el(field, 0), el(field, 5), el(field, -7))[:m] if k else (el(field, 0),) * m
    return (0,) * m


def tiny(field):
    """The smallest relative perturbation that is not rounding."""
    if field.name == "mpc":
        return mpmath.mpf(10) ** -200
    if field.name == "padic":
        return el(field, field.characteristic ** (field.digits - 1))
    return el(field, 1)


def solutions(field, n, invs, want, seed):
    """A valid point with the requested values, made by repeatedly using the real setters (checked by the reference), or None."""
    rng = random.Random("%s %s %s %s" % (field, n, invs, seed))

    def concrete(v):
        if field.name != "padic":
            return el(field, 0) + v
        p, d = field.characteristic, field.digits
        return PAdic(p ** v * rng.randrange(1, p), p, d)
    for t in range(3):
        ps = start(field, n, 11 + seed + t)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if len(invs) == 1:
                    REAL["_set"](ps, invs[0], concrete(want[0]))
                else:
                    REAL["_set_pair"](ps, invs[0], concrete(want[0]), invs[1], concrete(want[1]))
        except Exception:
            continue
        if not problems(ps, n, field, invs[:2], want[:2]):
            return spinors_of(ps)
    return None


REAL = {k: getattr(Particles, k) for k in ("_set", "_set_pair", "_singular_variety")}


def problems(ps, n, field, invs, want):
    """What is wrong with a returned point (reference evaluation)."""
    out = []
    if len(ps) != n:
        return ["%d particles" % len(ps)]
    if any(p.r_sp_d is None for p in ps):
        return ["no spinors"]
    R = Ref(spinors_of(ps))
    tot = [sum((p.r2_sp[i, j] for p in ps), 0) for i in (0, 1) for j in (0, 1)]
    if not all(is_zero(x) for x in R.total()) or not all(is_zero(x) for x in tot):
        out.append("momentum is not conserved")
    for i, p in enumerate(ps, 1):
        if not is_zero(ref.det(tuple(p.r2_sp.flatten()))):
            out.append("particle %d is massive" % i)
    for inv, v in zip(invs, want):
        x = sum((s * invstr.value(R, t) for s, t in split(inv)), el(field, 0))
        if field.name == "padic":
            if is_zero(x) or x.n != v:
                out.append("%s has valuation %s, not %s" % (inv, "zero" if is_zero(x) else x.n, v))
        elif field.name == "finite field":
            if not is_zero(x):
                out.append("%s does not vanish" % inv)
        elif not (same(x, v) or same(x, -v)) or (field.name == "mpc" and min(abs(x - v), abs(x + v)) > abs(v) * mpmath.mpf("1e-60")):
            out.append("%s is not %s" % (inv, mpmath.nstr(v, 5)))
    return out


def split(inv):
    if inv.startswith("s_") and "-s_" in inv:
        a, b = inv.split("-")
        return [(1, a), (-1, b)]
    return [(1, inv)]


def put(ps, spinors, field):
    for p, (a, b, c, d) in zip(ps, spinors):
        p.r_sp_d = arr([[a], [b]])
        p.l_sp_d = arr([[c, d]])


def act(outcome, ps, field, n, invs, want, sols):
    """One way a solver can behave."""
    base, _, rest = outcome.partition("+")
    sol, first, second, other, wrong = sols
    if base == "solve":
        put(ps, sol, field)
    elif base == "random":
        put(ps, spinors_of(start(field, n, 77)), field)
    elif base == "scale":
        for p in ps:
            p.r_sp_d = p.r_sp_d * el(field, 2)
    elif base == "swap":
        a, b = ps[1], ps[2]
        ps[1], ps[2] = b, a
    elif base == "one leg":
        ps[n].l_sp_d = ps[n].l_sp_d + ps[1].l_sp_d
    elif base == "massive":
        ps[2].r2_sp = ps[2].r2_sp + ps[1].r2_sp
    elif base == "half spinor":
        ps[1]._r_sp_d = ps[1].r_sp_d * el(field, 3)
    elif base == "wrong value":
        put(ps, wrong, field)
    elif base == "other valuation":
        put(ps, other, field)
    elif base == "first only":
        put(ps, first, field)
    elif base == "second only":
        put(ps, second, field)
    elif base == "rescaled leg":          # right values of most invariants, momentum broken
        put(ps, sol, field)
        ps[n].r_sp_d = ps[n].r_sp_d * el(field, 2)
    elif base == "massive leg":           # momentum conserved, two legs off shell
        put(ps, sol, field)
        q = arr([[el(field, 1), el(field, 0)], [el(field, 0), el(field, 1)]])
        x, y = ps[n].r2_sp + q, ps[n - 1].r2_sp - q
        ps[n].r2_sp, ps[n - 1].r2_sp = x, y
    elif base == "tiny momentum":
        put(ps, sol, field)
        ps[n].r_sp_d = ps[n].r_sp_d * (el(field, 1) + tiny(field))
    elif base == "stale momentum":        # spinors solve, the momentum of one leg is another one
        put(ps, sol, field)
        ps[n]._r2_sp = ps[n].r2_sp * el(field, 2)
        ps[n]._r2_sp_b = ps[n].r2_sp_b * el(field, 2)
    if outcome == "raise" or rest == "raise":
        raise Injected("injected")


def run(ps, invs, want, fallback):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            ps.variety(invs, want, try_singular_variety_solver=fallback)
            return "returned", None
        except Exception as e:
            return "raised", e


def stub_worker(shard, res):
    _, fname, n, invs, k, builtins = shard
    field = ref.make_field(fname)
    m = len(invs)
    want = request(field, k, m)
    sol = solutions(field, n, invs, want, 0)
    if sol is None:
        res.case((fname, invs, k), "no solution known")
        return
    if m == 3:         # only points on which the third condition holds as well are solutions
        tmp = start(field, n, 1)
        put(tmp, sol, field)
        if problems(tmp, n, field, invs, want):
            res.case((fname, invs, k), "no solution known")
            return

    def variant(w, iv):
        return solutions(field, n, iv, w, 3) or spinors_of(start(field, n, 78))
    bump = (lambda v: v + 1) if field.name == "padic" else (lambda v: el(field, 11)) if field.name == "finite field" else (lambda v: v * 3 + 2)
    if field.name == "finite field":
        wrong = spinors_of(start(field, n, 79))
        one = variant(want, invs[:1])
        sols = (sol, one, variant(want, invs[1:2]) if m > 1 else wrong, wrong, wrong)
    else:
        sols = (sol, variant((want[0],) + tuple(map(bump, want[1:])), invs[:2]), variant((bump(want[0]),) + want[1:], invs[:2]),
                variant((bump(want[0]),) + want[1:], invs[:2]), variant(tuple(map(bump, want)), invs[:2]))
    for b, f, allowed in itertools.product(builtins, FALLBACK, (True, False)):
        if not allowed and f != "raise":
            continue
        label = "%s n=%d %s := %s: built-in %s, fallback %s" % (fname, n, ", ".join(invs), ", ".join(mpmath.nstr(w, 3) if fname == "mpc" else str(w) for w in want), b, f if allowed else "not allowed")
        res.current = label
        log = []
        ps = start(field, n, 5)
        before = snapshot(ps)

        def fake_builtin(self, *a, **kw):
            if self is not ps:
                return REAL["_set"](self, *a, **kw) if len(a) < 4 else REAL["_set_pair"](self, *a, **kw)
            log.append("built-in")
            act(b, self, field, n, invs, want, sols)

        def fake_fallback(self, *a, **kw):
            if self is not ps:
                return REAL["_singular_variety"](self, *a, **kw)
            log.append("fallback")
            now = snapshot(self)
            if now != before:
                res.fail(label, "the fallback does not start from the original point: legs %s differ" % [i + 1 for i, (x, y) in enumerate(zip(now, before)) if x != y])
            if len(self) != n:
                res.fail(label, "the fallback starts from %d particles" % len(self))
            act(f, self, field, n, invs, want, sols)
        try:
            Particles._set = Particles._set_pair = fake_builtin
            Particles._singular_variety = fake_fallback
            out, exc = run(ps, invs, want, allowed)
        finally:
            for name, func in REAL.items():
                setattr(Particles, name, func)
        res.case((fname, n, invs, k, b, f, allowed), out)
        res.transitions += max(1, len(log))
        res.traces += 1
        if "fallback" in log and not allowed:
            res.fail(label, "the fallback ran although it was not allowed")
        if out == "returned":
            for p in problems(ps, n, field, invs, want):
                res.fail(label, "returned, but " + p)
        elif "built-in" in log or m > 2:
            used = [b] if log == ["built-in"] else [f] if log and log[-1] == "fallback" else []
            if used == ["solve"]:
                res.fail(label, "raised %s although the point satisfies everything: %s" % (type(exc).__name__, str(exc)[:150]))
        broke = m > 2 or b == "raise" or b.endswith("+raise")
        if allowed and broke and (m > 2 or "built-in" in log) and "fallback" not in log:
            res.fail(label, "the built-in construction failed and the fallback was not tried")


class Faults:
    """The k-th assignment to a particle fails (raises, or is made wrong)."""

    def __init__(self, k, mode):
        self.k, self.mode, self.count, self.armed = k, mode, 0, True

    def __enter__(self):
        me = self

        def setattr_(obj, name, value):
            if me.armed and name in ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom"):
                me.count += 1
                if me.count == me.k:
                    if me.mode == "raise":
                        raise Injected("fault")
                    if hasattr(value, "shape") and value.size and value.flatten()[0] is not None:
                        value = value.copy()
                        i = (0,) * value.ndim
                        value[i] = value[i] * 2 if not is_zero(value[i]) else value[i] + 1
            object.__setattr__(obj, name, value)
        Particle.__setattr__ = setattr_
        return self

    def __exit__(self, *a):
        del Particle.__setattr__


def fault_worker(shard, res):
    _, fname, n, invs, kreq, modes, stride, offset = shard
    field = ref.make_field(fname)
    want = request(field, kreq, len(invs))
    for mode, allowed in itertools.product(modes, (True, False)):
        if mode == "wrong" and not allowed:
            continue
        k = 1 + offset
        while True:
            label = "%s n=%d %s := request %d: assignment %d %s%s" % (fname, n, ", ".join(invs), kreq, k, mode, "" if allowed else ", no fallback")
            res.current = label
            ps = start(field, n, 5)
            before = snapshot(ps)
            log = []

            def fake_fallback(self, *a, **kw):
                if self is ps:
                    log.append("fallback")
                    faults.armed = False
                    if snapshot(self) != before:
                        res.fail(label, "the fallback does not start from the original point")
                raise Injected("no fallback")
            try:
                Particles._singular_variety = fake_fallback
                with (LineFaults(k) if mode == "line" else Faults(k, mode)) as faults:
                    out, exc = run(ps, invs, want, allowed)
                    faults.armed = False
            finally:
                Particles._singular_variety = REAL["_singular_variety"]
            if faults.count < k:
                break
            res.transitions += 1
            res.case((fname, invs, kreq, mode, allowed, k), "%s %s" % (mode, out))
            if out == "returned":
                for p in problems(ps, n, field, invs, want):
                    res.fail(label, "returned, but " + p)
            elif mode == "raise" and allowed and not log and isinstance(exc, Injected):
                pass            # the fault hit the final verification or the backup
            k += stride


class LineFaults:
    """The k-th line executed inside the built-in constructions raises."""

    def __init__(self, k):
        self.k, self.count, self.armed = k, 0, True

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if "hardcoded_limits" not in name and "particles_variety" not in name:
            return None
        return self.line if "hardcoded_limits" in name else self.trace

    def line(self, frame, event, arg):
        if event == "line" and self.armed:
            self.count += 1
            if self.count == self.k:
                raise Injected("fault at %s:%d" % (frame.f_code.co_name, frame.f_lineno))
        return self.line

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def real_worker(shard, res):
    """The real solvers, no stand-ins."""
    _, fname, n, requests, fallback = shard
    field = ref.make_field(fname)
    for invs, k in requests:
        want = request(field, k, len(invs))
        label = "%s n=%d %s := request %d%s" % (fname, n, ", ".join(invs), k, " with Singular" if fallback else "")
        res.current = label
        ps = start(field, n, 5)
        with Roots(field) as roots:
            out, exc = run(ps, invs, want, fallback)
        res.case((fname, n, invs, k, fallback), "real " + out)
        res.transitions += 1
        if out == "returned":
            if not roots.missing:
                for p in problems(ps, n, field, invs, want):
                    res.fail(label, "returned, but " + p)
        elif len(invs) == 1 and invs[0] in catalogue(n) and not roots.missing and field.name != "finite field":
            res.fail(label, "raised %s: %s" % (type(exc).__name__, str(exc)[:150]))


SINGLE = [("⟨1|2⟩",), ("[3|5]",), ("s_123",), ("⟨1|(2+3)|4]",), ("⟨2|(1+5)|2]",), ("tr5_1234",)]
PAIRS = [("⟨1|2⟩", "⟨1|3⟩"), ("⟨1|2⟩", "[1|2]"), ("⟨1|2⟩", "⟨3|(1+4)|5]"), ("⟨2|(1+5)|2]", "⟨3|(1+2)|3]"), ("[1|2]", "[3|4]"), ("s_123", "⟨1|2⟩")]


def main():
    ck = Check("C16", level="fault_enumeration")
    ck.rule = "19 outcomes of the built-in construction x 13 outcomes of the fallback x allowed or not, for one, two and three invariants x 4 fields; every assignment inside the real built-in constructions failing or made wrong; the real solvers on the whole catalogue"
    T = ck.thorough
    shards = []
    fields = ["mpc", "F2147483647", "Z10007^5", "Q"]
    triples = [("⟨1|2⟩", "⟨1|3⟩", "⟨2|3⟩"), ("[1|2]", "[1|3]", "[2|3]")]
    for fname in fields:
        for invs in SINGLE + PAIRS + triples:
            n = 6 if "s_123" in invs else 5
            if fname == "Q" and ("s_123" in invs or "tr5_1234" in invs):
                continue
            for k in range(3 if T else 2 if fname in ("mpc", "Z10007^5") else 1):
                for ch in chunks(BUILTIN, 3):
                    shards.append(("stub", fname, n, invs, k, ch))
    ck.run(stub_worker, shards)
    shards = []
    for fname in ("F2147483647", "mpc", "Z10007^5"):
        for invs in SINGLE[:5] + PAIRS[:5] if T or fname[0] == 'F' else SINGLE[1:5:2] + PAIRS[:3]:
            n = 6 if "s_123" in invs else 5
            stride = 8
            for off in range(stride):
                shards.append(("fault", fname, n, invs, 0, ("raise", "wrong", "line"), stride, off))
    ck.run(fault_worker, shards)
    shards = []
    for fname in fields:
        for n in (4, 5, 6) + ((7,) if T else ()):
            reqs = [((i,), k) for i in catalogue(n) for k in range(3 if T else 2 if n < 6 and fname in ("mpc", "Z10007^5") else 1)]
            for ch in chunks(reqs, max(1, len(reqs) // 30)):
                shards.append(("real", fname, n, ch, False))
        five = catalogue(5)
        pairs = [((a, b), 0) for a, b in itertools.permutations(five, 2) if T or five.index(a) % 6 == 0]
        for ch in chunks(pairs, max(1, len(pairs) // 30)):
            shards.append(("real", fname, 5, ch, False))
    if shutil.which("Singular"):
        for fname in ("mpc", "F2147483647", "Z10007^5"):
            for n, invs in [(7, ("s_45-s_67",)), (5, ("s_12-s_34",)), (5, ("⟨1|2⟩", "⟨1|3⟩", "⟨2|3⟩")), (5, ("⟨1|2⟩", "[1|2]", "⟨3|4⟩"))] + ([(5, ("⟨1|2⟩", "[3|4]", "⟨4|5⟩")), (6, ("s_12-s_34",)), (6, ("s_123-s_345", "s_12-s_34"))] if T else []):
                for k in range(2 if T else 1):
                    shards.append(("real", fname, n, [(invs, k)], True))
    ck.run(real_worker, shards)
    ck.assumptions += ["in characteristic zero a value is reached up to sign; in finite fields the requested invariants vanish (as documented by the verification at the end of variety)"]
    ck.finish()


if __name__ == "__main__":
    main()
