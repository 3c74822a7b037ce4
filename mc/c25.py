"""C25: points constructed by the solver for algebraic varieties: every invariant and pair x field x multiplicity x seed x starting point; valid, on the variety, close to the start, determined by the seed."""
import contextlib
import io
import itertools
import random
import warnings
from .common import Check, chunks
import mpmath
from lips import Particles, Invariants
from . import ref, invstr, solver
from .ref import el, Ref, lips_point, conserved_spinors, same, is_zero, coherent, spinors_of, i_unit

warnings.simplefilter("ignore")
F, Z = "F2147483647", "Z2147483647^4"


def start(field, n, k):
    scale = 16384 if field.name == "mpc" else 1
    ps = lips_point(conserved_spinors(lambda x: el(field, x / scale if scale > 1 else x), n, k, span=200003), field)
    ps.mt = el(field, 7)
    return ps


def wanted(field, m, k):
    """m requested valuations (p-adic), values (complex); ignored over a finite field."""
    if field.name == "padic":
        return ((1, 2, 1), (2, 1, 1), (1, 1, 1), (3, 2, 1))[k][:m]
    if field.name == "mpc":
        return tuple(mpmath.mpf(x) for x in (("1e-30", "2e-30", "3e-31"), ("5e-100", "1e-40", "1e-50"), ("1e-20", "1e-20", "1e-20"), ("1e-3", "2e-3", "3e-3"))[k][:m])
    return (1,) * m


def valuation(x, field):
    return abs(x).n if field.name == "padic" else None


def construct(field, n, invs, vals, seed, base, gens, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        if gens:
            kw["generators"] = tuple(gens)
        if base is None:
            return Particles.from_singular_variety(n, field, tuple(invs), vals, seed=seed, **kw)
        ps = start(field, n, base)
        ps._singular_variety(tuple(invs), vals, seed=seed, **kw)
        return ps


def history(field, k):
    """What may have happened before in the process."""
    if k == 1:
        Particles(5, seed=3, field=field)
        random.random()
    elif k == 2:
        with contextlib.redirect_stdout(io.StringIO()):
            Particles(5, field=field)._singular_variety(("⟨1|2⟩",), (1,) if field.name != "mpc" else (mpmath.mpf("1e-30"),), seed=5)


def judge(res, label, ps, n, field, invs, vals, gens, base):
    if not isinstance(ps, Particles) or len(ps) != n:
        res.fail(label, "not a point of %d particles" % n)
        return
    if ps.field != field:
        res.fail(label, "the field changed")
    sp = spinors_of(ps)
    if not all(ref.in_field(x, field) for s in sp for x in s):
        res.fail(label, "components outside the field: %s" % sorted({type(x).__name__ for s in sp for x in s}))
        return
    R = Ref(sp)
    if not all(is_zero(x) for x in R.total()):
        res.fail(label, "momentum is not conserved")
    for i, p in enumerate(ps, 1):
        if not is_zero(p.m2):
            res.fail(label, "particle %d is massive" % i)
        for b in coherent(p, i_unit(field)):
            res.fail(label, "particle %d: %s" % (i, b))
    for inv, v in zip(invs, vals):
        x = invstr.value(R, inv)
        if field.name == "finite field":
            ok = is_zero(x)
        elif field.name == "padic":
            ok = valuation(x, field) == v
        else:
            ok = abs(x - v) <= abs(v) * mpmath.mpf("1e-60")
        if not ok:
            res.fail(label, "%s is %s, requested %s" % (inv, str(x)[:60], v))
    for g in gens:
        x = invstr.value(R, g)
        ok = is_zero(x) if field.name == "finite field" else valuation(x, field) >= 1 if field.name == "padic" else abs(x) <= max(map(abs, vals)) * mpmath.mpf("1e12")
        if not ok:
            res.fail(label, "generator %s is %s" % (g, str(x)[:60]))
    if base is not None:
        before = spinors_of(start(field, n, base))
        moved = sum(not same(x, y) for s, t in zip(before, sp) for x, y in zip(s, t))
        most = 4 + len(set(invs) | set(gens)) if invs else 0
        if moved > most:
            res.fail(label, "%d spinor components changed, %d conditions" % (moved, most))
        if ps.internal_masses != {"mt"} or not same(ps.mt, el(field, 7)):
            res.fail(label, "internal masses changed")
    elif n == 0 or len({str(s) for s in sp}) < n:
        res.fail(label, "particles coincide")


def worker(shard, res):
    kind, fname, n, cases = shard
    field = ref.make_field(fname)
    for invs, gens, kv, seed, base, hist in cases:
        vals = wanted(field, len(invs), kv)
        label = "%s n=%d %s := %s%s seed %s %s%s" % (fname, n, ", ".join(invs) or "no conditions", kv, " on the branch " + ", ".join(gens) if gens else "", seed,
                                                   "from scratch" if base is None else "from point %d" % base, " history %d" % hist if hist else "")
        res.current = label
        history(field, hist)
        patience = solver.gave_up()
        try:
            ps = construct(field, n, invs, vals, seed, base, gens)
        except Exception as e:
            res.case((fname, n, invs, gens, kv, seed, base, hist), "raised")
            res.transitions += 1
            if kind == "must" and not isinstance(e, TimeoutError):
                res.fail(label, "raised %s: %s" % (type(e).__name__, str(e)[:150]))
            continue
        judge(res, label, ps, n, field, invs, vals, gens, base)
        res.case((fname, n, invs, gens, kv, seed, base, hist), "constructed", sample=label)
        res.transitions += 1
        if hist or seed is None:
            continue
        if kind == "must" and (seed == 2 or len(invs) == 1):
            # the same again, after something else
            history(field, 1)
            try:
                qs = construct(field, n, invs, vals, seed, base, gens)
            except TimeoutError:
                qs = None
            if solver.gave_up() != patience or qs is None:
                res.case((label, "again"), "the solver gave up")
            elif not all(same(x, y) for s, t in zip(spinors_of(ps), spinors_of(qs)) for x, y in zip(s, t)):
                res.fail(label, "the same seed gives another point")
            res.transitions += 1


def main():
    ck = Check("C25")
    T = ck.thorough
    ck.rule = "every invariant of the catalogue and every pair of brackets x field x multiplicity x starting point (or none) x seed x history; branches selected by extra generators"
    todo = []

    def add(kind, fname, n, cases, per=12):
        for ch in chunks(cases, max(1, len(cases) // per)):
            todo.append((kind, fname, n, ch))
    for n in (4, 5, 6) + ((7,) if T else ()):
        inv = Invariants(n, no_cached=True)
        br = list(inv.invs_2)
        singles = [(x,) for x in (br + list(inv.invs_s) + list(inv.invs_3) if n < 6 else br + list(inv.invs_s) + list(inv.invs_3)[::7 if not T else 1])]
        for fname in (F, Z, "mpc"):
            if n == 4 and fname != F:
                continue
            add("must", fname, n, [((), (), 0, 1, b, 0) for b in (None, 2)])
            add("must", fname, n, [(x, (), k, 1, b, 0) for i, x in enumerate(singles) for b in (None, 2) for k in ((i % 3,) if not T else (0, 1, 2))
                                   if T or n == 5 or (fname == F) or (b is None) == bool(i % 2)])
        add("must", F, n, [(x, (), 0, s, b, h) for x in singles[:: 5 if n < 6 else 9] for s in (1, 2, 3, None) for b in (None, 3) for h in (0, 1, 2) if s != 1 or h])
    inv = Invariants(5, no_cached=True)
    pairs = [tuple(p) for p in itertools.combinations(inv.invs_2, 2)]
    add("must", F, 5, [(p, (), 0, 1, (None, 2)[i % 2] if not T else b, 0) for i, p in enumerate(pairs) for b in ((None, 2) if T else (0,))])
    add("must", Z, 5, [(p if i % 3 else p[::-1], (), i % 4, 1, (None, 2)[i // 2 % 2], 0) for i, p in enumerate(pairs)], per=6)
    disjoint = [p for p in pairs if p[0][0] != p[1][0] or not set(p[0]) & set(p[1]) & set("12345")]
    add("must", "mpc", 5, [(p, (), i % 3, 1, (None, 2)[i % 2], 0) for i, p in enumerate(disjoint) if T or i % 3 == 0], per=4)
    if T:
        p6 = [tuple(p) for p in itertools.combinations(Invariants(6, no_cached=True).invs_2, 2)]
        add("must", F, 6, [(p, (), 0, 1, (None, 2)[i % 2], 0) for i, p in enumerate(p6)])
        add("must", Z, 6, [(p, (), i % 4, 1, (None, 2)[i % 2], 0) for i, p in enumerate(p6)], per=6)
    # branches: ⟨ij⟩ = ⟨ik⟩ = 0 splits into |i⟩ = 0 and three collinear spinors
    branches = []
    for n in (5, 6):
        for i, j, k in itertools.combinations(range(1, n + 1), 3):
            for a, b in ("⟨⟩", "[]"):
                two = ("%s%d|%d%s" % (a, i, j, b), "%s%d|%d%s" % (a, i, k, b))
                branches.append((n, two, two + ("%s%d|%d%s" % (a, j, k, b),)))
    for fname in (F, Z):
        for n in (5, 6):
            sel = [(two, gens, m % 3, 1, b, 0) for m, (q, two, gens) in enumerate(branches) if q == n for b in (None, 2) if T or fname == F or m % 4 == 0]
            add("may" if fname != F else "must", fname, n, sel, per=6)
    ck.run(worker, todo)
    ck.assumptions += ["Singular (through syngular) is trusted to terminate; what it returns is verified", "invariants and pairs of brackets of five or more particles (four: finite field)"]
    ck.finish()


if __name__ == "__main__":
    main()
