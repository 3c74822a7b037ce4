"""C04: restoring momentum conservation, for every choice of legs and axis, over all small-field states and every field."""
import itertools
import random
from .common import Check, chunks
import mpmath
from lips import Particles
from . import ref
from .ref import el, is_zero, same, coherent, i_unit, key, lips_point, spinors_of


def check(res, label, ps, A, B, axis, real, before, field, chosen=None):
    iu = i_unit(field) if field.name != "rational" else None
    after = ref.snapshot(ps)
    if after[2] != before[2] or after[1] != before[1]:
        res.fail(label, "number of particles or masses changed")
        return
    if not all(is_zero(x) for x in ps.total_mom.flatten()):
        res.fail(label, "momentum not conserved", total=str(ps.total_mom))
    changed = [i for i in range(1, len(ps) + 1) if after[0][i - 1] != before[0][i - 1]]
    allowed = {A, B} if A else None
    if allowed is not None and not set(changed) <= allowed:
        res.fail(label, "particles %s changed, only %s may" % (changed, sorted(allowed)))
    if allowed is None and len(changed) > 2:
        res.fail(label, "more than two particles changed: %s" % changed)
    for i, p in enumerate(ps, 1):
        if not is_zero(p.m2):
            res.fail(label, "particle %d is massive" % i)
        for b in coherent(p, iu):
            res.fail(label, "particle %d: %s" % (i, b))
        if not real and i in (changed if allowed is None else (A, B)):
            keep = (1, 3) if axis == 1 else (0, 2)      # l_sp_d,l_sp_u stay for axis 1; r_sp_* stay otherwise
            for k in keep:
                if after[0][i - 1][k] != before[0][i - 1][k]:
                    res.fail(label, "axis %d changed the wrong spinor of particle %d" % (axis, i))
        if real:
            for x in p.four_mom:
                if abs(mpmath.im(x)) > ref.TOL:
                    res.fail(label, "particle %d is not real" % i)
                    break


def worker(shard, res):
    kind = shard[0]
    if kind == "small":
        _, fname, axis, quads, rs = shard
        field = ref.make_field(fname)
        p = field.characteristic
        for (x1, x2), third in quads:
            for r1, r2 in itertools.product(rs, repeat=2):
                # the handedness that must be non-parallel is x1,x2; the other one is r1,r2
                sp = []
                for x, r in ((x1, r1), (x2, r2)):
                    sp.append((r + x) if axis == 1 else (x + r))
                sp.append(third)
                spn = [tuple(el(field, v) for v in s) for s in sp]
                label = "%s axis=%d %s" % (fname, axis, sp)
                res.current = label
                for A, B in ((1, 2), (2, 1)):
                    ps = lips_point(spn, field)
                    before = ref.snapshot(ps)
                    try:
                        ps.fix_mom_cons(A, B, axis=axis)
                    except Exception as e:
                        res.fail(label + " A=%d" % A, "unexpected %s: %s" % (type(e).__name__, e))
                        continue
                    check(res, label + " A=%d" % A, ps, A, B, axis, False, before, field)
                    res.transitions += 1
                    res.case((fname, axis, A, tuple(sp)), "small")
    elif kind == "gen":
        _, fname, n, seed = shard
        field = ref.make_field(fname)
        for A, B in list(itertools.permutations(range(1, n + 1), 2)) + [(0, 0)]:
            for axis in (1, 2):
                label = "%s n=%d seed=%d A=%d B=%d axis=%d" % (fname, n, seed, A, B, axis)
                res.current = label
                ps = Particles(n, seed=seed, field=field, fix_mom_cons=False, internal_masses={"m_t": el(field, 3)})
                before = ref.snapshot(ps)
                try:
                    if A:
                        ps.fix_mom_cons(A, B, axis=axis)
                    else:
                        ps.fix_mom_cons(axis=axis)
                except Exception as e:
                    res.fail(label, "unexpected %s: %s" % (type(e).__name__, e))
                    continue
                check(res, label, ps, A, B, axis, False, before, field)
                res.transitions += 1
                res.case((fname, n, seed, A, B, axis), "generic", sample=label)
                # idempotent once conserved, for any pair
                again = ref.snapshot(ps)
                C, D = (1, n) if (A, B) != (1, n) else (2, 1)
                sp0 = spinors_of(ps)
                ps.fix_mom_cons(C, D, axis=axis if n == 3 else 3 - axis)
                sp1 = spinors_of(ps)
                if not all(same(x, y) for s, t in zip(sp0, sp1) for x, y in zip(s, t)):
                    res.fail(label, "a conserved point changed")
    elif kind == "real":
        _, n, seed = shard
        field = ref.make_field("mpc")
        for A, B in list(itertools.permutations(range(1, n + 1), 2)) + [(0, 0)]:
            for axis in (1, 2, 3):
                label = "real n=%d seed=%d A=%d B=%d axis=%d" % (n, seed, A, B, axis)
                res.current = label
                ps = Particles(n, seed=seed, field=field, fix_mom_cons=False, real_momenta=True)
                before = ref.snapshot(ps)
                try:
                    ps.fix_mom_cons(A, B, real_momenta=True, axis=axis)
                except Exception as e:
                    res.fail(label, "unexpected %s: %s" % (type(e).__name__, e))
                    continue
                check(res, label, ps, A, B, axis, True, before, field)
                res.transitions += 1
                res.case(("real", n, seed, A, B, axis), "real", sample=label)


def main():
    ck = Check("C04")
    ck.rule = "every ordered pair of legs x axis x field x multiplicity 3..11; all states over F_3 of the relevant handedness of two legs and of a third leg"
    shards = []
    for fname in ("F3",) + (("F5",) if ck.thorough else ()):
        p = int(fname[1:])
        R = range(p)
        xs = [(x, y) for x in itertools.product(R, repeat=2) for y in itertools.product(R, repeat=2) if (x[0] * y[1] - x[1] * y[0]) % p]
        thirds = list(itertools.product(R, repeat=4))
        if p == 5:
            thirds = [t for t in thirds if t[0] in (0, 1) and t[2] in (0, 2)]
            xs = xs[::5]
        for axis in (1, 2):
            for ch in chunks(list(itertools.product(xs, thirds)), 24):
                shards.append(("small", fname, axis, ch, [(1, 2), (0, 1)] if not ck.thorough else [(1, 2), (0, 1), (0, 0)]))
    for fname in ("F2147483647", "F2147483629", "Z2147483647^3", "Q", "Qi", "mpc"):
        for n in range(3, 9 if ck.thorough else 7):
            for seed in range(3 if ck.thorough else 2):
                shards.append(("gen", fname, n, seed))
    for fname, ns in (("F2147483647", (7, 8, 9, 10, 11)), ("Z2147483647^3", (10,)), ("mpc", (8, 10))):
        for n in ns:
            shards.append(("gen", fname, n, 5))
    for n in range(4, 8 if ck.thorough else 7):
        for seed in range(4 if ck.thorough else 1):
            shards.append(("real", n, seed))
    ck.run(worker, shards)
    ck.assumptions += ["'the chosen legs allow it' means their brackets of the kept handedness do not vanish"]
    ck.finish()


if __name__ == "__main__":
    main()
