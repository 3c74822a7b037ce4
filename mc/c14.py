"""C14: setting one invariant: every invariant of the catalogue (and every other form the setter recognises) x value x field x start point."""
import contextlib
from fractions import Fraction
import io
import itertools
import warnings
from .common import Check, chunks
import mpmath
from pyadic.field_extension import FieldExtension
from lips import Invariants, Particle
from . import ref, invstr
from .ref import el, arr, Ref, lips_point, conserved_spinors, same, is_zero, coherent, i_unit, spinors_of
from .c05 import classify

warnings.simplefilter("ignore")
CATALOGUE = {}


def catalogue(n):
    if n not in CATALOGUE:
        CATALOGUE[n] = Invariants(n, no_cached=True).full
    return CATALOGUE[n]


def val(field, k):
    """The prescribed values: generic, zero, small."""
    if k == "0":
        return el(field, 0)
    if k == "small":
        if field.name == "mpc":
            return mpmath.mpf("1e-28")
        return el(field, field.characteristic ** 2) if field.name == "padic" else el(field, 0)
    if k == "i":
        return mpmath.mpc(2003, -3001) / 1024 if field.name == "mpc" else el(field, -3001)
    return el(field, Fraction({"5": 5003, "-7": -70001}[k], 1024 if field.name == "mpc" else 1))


class Roots:
    """Watches the square roots taken: were they all in the field?"""

    def __init__(self, field):
        self.field, self.missing = field, False

    def __enter__(self):
        F = type(self.field)
        self.orig = F.sqrt
        me = self

        def sqrt(fld, x):
            try:
                r = me.orig(fld, x)
            except Exception:
                me.missing = True
                raise
            if isinstance(r, FieldExtension):
                me.missing = True
            return r
        F.sqrt = sqrt
        return self

    def __exit__(self, *a):
        type(self.field).sqrt = self.orig


def brackets(R):
    for i, j in itertools.combinations(range(1, R.n + 1), 2):
        yield ("⟨%d|%d⟩" % (i, j)), R.ang(i, j)
        yield ("[%d|%d]" % (i, j)), R.sqr(i, j)


def related(inv, n):
    """Two-particle brackets that may become small when inv does."""
    out = {inv}
    if len(inv) == 5 and inv[0] in "⟨[":
        i, j = inv[1], inv[3]
        out.add("%s%s|%s%s" % (inv[0], j, i, inv[-1]))
        if n == 4:
            k, l = [c for c in "1234" if c not in (i, j)]
            out |= {"⟨%s|%s⟩" % (k, l), "[%s|%s]" % (k, l)}
    return out


def judge(res, label, ps, n, field, conds, roots, up_to_sign=False, check_related=True):
    """The contract on a returned point. conds: [(invariant, value)]"""
    if len(ps) != n:
        res.fail(label, "the point has %d particles" % len(ps))
        return
    if ps.field is not field and ps.field != field:
        res.fail(label, "the field changed")
    sp = spinors_of(ps)
    ext = any(isinstance(x, FieldExtension) for s in sp for x in s)
    if ext and not roots.missing:
        res.fail(label, "left the field although no root was missing")
    if not ext and not all(ref.in_field(x, field) for s in sp for x in s):
        res.fail(label, "components outside the field: %s" % sorted({type(x).__name__ for s in sp for x in s}))
    R = Ref(sp)
    if not all(is_zero(x) for x in R.total()):
        res.fail(label, "momentum is not conserved", total=str(R.total())[:300])
    for i, p in enumerate(ps, 1):
        if not is_zero(p.m2):
            res.fail(label, "particle %d is massive" % i)
        for b in coherent(p, None):
            res.fail(label, "particle %d: %s" % (i, b))
    for inv, v in conds:
        x = invstr.value(R, inv)
        if not (same(x, v) or (up_to_sign and same(x, -v))):
            res.fail(label, "%s is %s, not %s" % (inv, str(x)[:80], str(v)[:80]))
    if check_related and not ext:
        ok = set().union(*(related(inv, n) for inv, v in conds))
        for name, x in brackets(R):
            if classify(field, x) == "small" and name not in ok:
                res.fail(label, "%s became small (%s)" % (name, str(x)[:40]))


def start(field, n, seed):
    """Generic points: components from a wide range, so that no coincidences among small integers occur."""
    scale = 16384 if field.name == "mpc" else 1          # mpc tolerances are absolute
    return lips_point(conserved_spinors(lambda x: el(field, x / scale), n, seed, span=200003), field)


# A construction that goes wrong: the step that builds the point (where the implementation has a separate one) is followed by a fault.
FAULTS = ("phase", "sign", "scale", "tiny", "slight", "leg", "massive", "opposite legs", "none")


def inject(ps, fault, field):
    """Momentum stays conserved and the legs massless under the first five."""
    def scale(c, legs):
        for k in legs:
            ps[k].r_sp_d = ps[k].r_sp_d * c
    n = len(ps)
    if fault == "phase":
        scale(mpmath.mpc(1, 1) / mpmath.sqrt(2) if field.name == "mpc" else el(field, 3), range(1, n + 1))
    elif fault == "sign":
        scale(mpmath.mpc(0, 1) if field.name == "mpc" else el(field, 5), range(1, n + 1))
    elif fault == "scale":
        scale(el(field, 2), range(1, n + 1))
    elif fault == "tiny":
        scale(1 + mpmath.mpf(10) ** -250 if field.name == "mpc" else el(field, 1 + field.characteristic) if field.name == "padic" else el(field, 7), range(1, n + 1))
    elif fault == "slight":
        scale(1 + mpmath.mpf(10) ** -120 if field.name == "mpc" else el(field, 1 + field.characteristic ** (field.digits - 1)) if field.name == "padic" else el(field, -1), range(1, n + 1))
    elif fault == "leg":
        scale(el(field, 2), [n])
    elif fault in ("massive", "opposite legs"):
        d = arr([[el(field, 1), el(field, 0)], [el(field, 0), el(field, 1)]])
        ps[n].r2_sp = ps[n].r2_sp + d
        if fault == "massive":
            ps[1].r2_sp = ps[1].r2_sp - d


def faulty(ps, method, fault, field):
    from lips import Particles
    inner = getattr(Particles, method, None)
    if inner is None:
        return False
    depth = [0]

    def wrapped(self, *args, **kwargs):
        depth[0] += 1
        try:
            return inner(self, *args, **kwargs)
        finally:
            depth[0] -= 1
            if depth[0] == 0:
                inject(self, fault, field)
    ps.__class__ = type("Particles", (Particles,), {method: wrapped})
    return True


def worker(shard, res):
    kind = shard[0]
    if kind == "faults":
        _, fname, n, invs = shard
        field = ref.make_field(fname)
        for inv, fault, v in itertools.product(invs, FAULTS, ("5",)):
            label = "%s n=%d %s := %s with a construction that goes wrong (%s)" % (fname, n, inv, v, fault)
            res.current = label
            ps = start(field, n, 1)
            x = val(field, v)
            if not faulty(ps, "_set_inner", fault, field):
                res.case((fname, n, inv, fault), "no separate construction step")
                continue
            with Roots(field) as roots, contextlib.redirect_stdout(io.StringIO()):
                try:
                    ps._set(inv, x)
                except Exception:
                    res.case((fname, n, inv, fault), "raised")
                    res.transitions += 1
                    continue
            if fault in ("leg", "massive", "opposite legs"):
                if any(not is_zero(p.m2) for p in ps) or not all(is_zero(y) for y in ps.total_mom.flatten()):
                    res.fail(label, "returned an invalid point")
            else:
                judge(res, label, ps, n, field, [(inv, x)], roots, check_related=False)
            res.case((fname, n, inv, fault), "set")
            res.transitions += 1
        return
    if kind in ("catalogue", "extra", "modes"):
        _, fname, n, seed, invs, values, modes = shard
        field = ref.make_field(fname)
        for inv, v, mode in itertools.product(invs, values, modes):
            label = "%s n=%d start %d: %s := %s%s" % (fname, n, seed, inv, v, "" if mode == 1 else " mode %d" % mode)
            res.current = label
            ps = start(field, n, seed)
            x = val(field, v)
            with Roots(field) as roots, contextlib.redirect_stdout(io.StringIO()):
                try:
                    ps._set(inv, x) if mode == 1 else ps._set(inv, x, mode=mode)
                except Exception as e:
                    res.case((fname, n, seed, inv, v, mode), "raised")
                    res.transitions += 1
                    if kind == "catalogue" and not roots.missing:
                        res.fail(label, "raised %s: %s" % (type(e).__name__, str(e)[:120]))
                    continue
            with warnings.catch_warnings():
                judge(res, label, ps, n, field, [(inv, x)], roots, check_related=kind == "catalogue")
            res.case((fname, n, seed, inv, v, mode), "set")
            res.transitions += 1
    elif kind == "bad start":
        # a start point with a massive leg, or with too few legs: the contract is to raise or to return a valid point
        _, fname, n, leg, invs = shard
        field = ref.make_field(fname)
        for inv in invs:
            ps = start(field, n, 1)
            ps[leg] = Particle(arr([[el(field, 3), el(field, 1)], [el(field, 2), el(field, 4)]]), field=field)
            label = "%s n=%d leg %d massive: %s := 5003" % (fname, n, leg, inv)
            res.current = label
            with Roots(field) as roots, contextlib.redirect_stdout(io.StringIO()):
                try:
                    ps._set(inv, el(field, 5003))
                except Exception:
                    res.case((fname, n, "bad", leg, inv), "raised")
                    res.transitions += 1
                    continue
            bad = [i for i, p in enumerate(ps, 1) if not is_zero(p.m2)]
            if bad or not all(is_zero(x) for x in ps.total_mom.flatten()):
                res.fail(label, "returned a point with massive legs %s" % bad)
            res.case((fname, n, "bad", leg, inv), "set")
            res.transitions += 1


def extra(n, thorough):
    """Other strings the setter recognises."""
    legs = range(1, n + 1)
    out = []
    for r in (2, 3, 4):
        for c in itertools.permutations(legs, r) if r < 4 and (thorough or n < 6) else itertools.combinations(legs, r):
            out.append("s_" + "".join(map(str, c)))
    for i, j in itertools.permutations(legs, 2):
        out += ["⟨%d|%d⟩" % (i, j), "[%d|%d]" % (i, j)]
    for a, b in itertools.product(legs, repeat=2):
        for c in itertools.combinations(legs, 2):
            for f in ("⟨%d|(%d+%d)|%d]", "[%d|(%d+%d)|%d⟩") + (("⟨%d|%d-%d|%d]",) if a < b else ()):
                out.append(f % (a, c[0], c[1], b))
        if thorough or a <= 2:
            for c, d in itertools.product(legs, repeat=2):
                if c != d and c not in (a, b) and d not in (a, b):
                    out.append("⟨%d|%d|%d|%d⟩" % (a, c, d, b))
                    for e in legs:
                        if e not in (c, d):
                            out.append("[%d|(%d+%d)|%d|%d]" % (a, c, e, d, b))
    for q in itertools.permutations(legs, 4):
        if n == 5 or thorough or q[0] == 1:
            out.append("tr5_%d%d%d%d" % q)
    if n == 6:
        for c in itertools.permutations(legs, 3):
            out += ["Δ_%d%d%d" % c]
            if thorough or c[0] == 1:
                out += ["Ω_%d%d%d" % c, "Π_%d%d%d" % c]
        for g in itertools.permutations(legs):
            if g[0] == 1 and g[2] < g[3] and g[4] < g[5]:
                out.append("Δ_%d%d|%d%d|%d%d" % g)
        for a, b, c, d, e, f in itertools.permutations(legs):
            if c < d:
                out.append("(⟨%d|%d|%d+%d|%d|%d]-⟨%d|%d|%d+%d|%d|%d])" % (a, b, c, d, e, a, b, f, c, d, e, b))
    return out


def main():
    ck = Check("C14")
    ck.rule = "every invariant of the catalogue for each multiplicity x value x field x start point; every other recognised string set or refused; massive start points"
    T = ck.thorough
    shards = []
    fields = ["mpc", "F2147483647", "Z2147483647^4", "Q"]
    for n in (4, 5, 6, 7) + ((8,) if T else ()):
        cat = catalogue(n)
        for fname in fields:
            vals = ["small", "5"] if not T and n > 6 else ["small", "5", "0", "i"] if fname == "mpc" else ["small", "0", "5", "-7"] if fname[0] == "Z" else ["0", "5", "-7"]
            if fname == "Q" and n > 6:
                continue
            if not T and n > 6 and fname != "mpc":
                vals = ["0"] if fname[0] == "F" else ["small"]
            for seed in range(1, (4 if T else 3 if n < 6 else 2)):
                for ch in chunks(cat, max(1, len(cat) // 40)):
                    shards.append(("catalogue", fname, n, seed, ch, vals, (1,)))
    for n in (4, 5, 6):
        ex = extra(n, T)
        for fname in ("F2147483647", "mpc") if not T else fields:
            for ch in chunks(ex, max(1, len(ex) // 60)):
                shards.append(("extra", fname, n, 2, ch, ["5"] if not T else ["5", "0"], (1,)))
        for ch in chunks(catalogue(n), 8):
            shards.append(("modes", "F2147483647", n, 1, ch, ["5"], (2, 3, 4) if n == 6 else (2,)))
    for n in (4, 5, 6):
        for leg in range(1, n + 1):
            shards.append(("bad start", "F2147483647", n, leg, catalogue(n)))
    for n in (4, 5, 6):
        for fname in ("mpc", "F2147483647", "Z2147483647^4"):
            for ch in chunks(catalogue(n), 4 if n < 6 else 8):
                shards.append(("faults", fname, n, ch if n < 6 or T else ch[::4]))
    ck.run(worker, shards)
    ck.assumptions += ["generic points: the enumerated start points have no small brackets", "where a needed square root is missing from the field, raising or a point over the quadratic extension is accepted"]
    ck.finish()


if __name__ == "__main__":
    main()
