"""C12: clustering: every ordered grouping of the legs; momenta, Mandelstams, internal masses, independence of the original."""
import itertools
from .common import Check, chunks
from . import history, ref
from .ref import el, Ref, lips_point, conserved_spinors, snapshot, same, same_arr
from .c06 import massive_point


def groupings(n, use_all=True):
    """All ordered lists of disjoint non-empty ordered groups of legs 1..n, all legs used or not."""
    legs = range(1, n + 1)

    def rec(rest):
        if not rest:
            yield []
            return
        for r in range(1, len(rest) + 1):
            for g in itertools.permutations(sorted(rest), r):
                for tail in rec(rest - set(g)):
                    yield [list(g)] + tail
    subsets = [set(legs)] if use_all else [set(c) for r in range(1, n) for c in itertools.combinations(legs, r)]
    for sub in subsets:
        yield from rec(sub)


def sorted_groupings(n, use_all=True):
    """The same, with each group ascending or fully reversed (the order inside a group is covered for small n)."""
    seen = set()
    for g in set_groupings(n):
        for perm in itertools.permutations(g):
            for rev in (False, True):
                x = [list(reversed(c)) if rev else list(c) for c in perm]
                k = str(x)
                if k not in seen:
                    seen.add(k)
                    yield x


def set_groupings(n):
    def rec(items):
        if not items:
            yield []
            return
        first, rest = items[0], items[1:]
        for r in range(len(rest) + 1):
            for c in itertools.combinations(rest, r):
                left = [x for x in rest if x not in c]
                for t in rec(left):
                    yield [[first] + list(c)] + t
    yield from rec(list(range(1, n + 1)))


MASSES = ["number", "s_12", "s12", "s_21", "s_123", "s_34", "s_3", "S_12", "2*s_12+s_34", "s_12^2/s_34", "s_12+s_123", "⟨1|2⟩*[2|1]", "⟨1|2+3|4]", "tr(1|2)", "s_12*s_3+s_4", "3*s_34-(s_12)*2"]


def point(spec):
    kind, fname, n = spec[:3]
    field = ref.make_field(fname)
    if kind == "massive":
        return massive_point(fname, n, spec[3])
    sp = conserved_spinors(lambda x: el(field, x), n, spec[3])
    return lips_point(sp, field), Ref(sp)


def with_masses(ps, field, which):
    for k, m in enumerate(which):
        setattr(ps, "m_" + "abcdefghijklmnopqrstuvwxyz"[k], el(field, 5 + k) if m == "number" else m)


def check(ps, R, spec, groups, res, masses, deep):
    n = len(ps)
    lab = "%s %s" % (spec, groups)
    res.current = lab
    before = snapshot(ps)
    vals = {}
    for m in sorted(ps.internal_masses):
        try:
            vals[m] = ps.compute(m)
        except Exception:
            pass
    try:
        cl = ps.cluster(groups)
    except Exception as e:
        res.fail(lab, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]), groups=groups)
        return
    res.transitions += 1
    res.case(lab, "%d legs" % len(groups), sample=lab)
    if snapshot(ps) != before:
        res.fail(lab, "the original changed", groups=groups)
        return
    if len(cl) != len(groups) or cl.field != ps.field:
        res.fail(lab, "%d legs in field %s" % (len(cl), cl.field), groups=groups)
        return
    for k, g in enumerate(groups, 1):
        m = R.mom(g, False)
        if not same_arr(cl[k].r2_sp, [[m[0], m[1]], [m[2], m[3]]]):
            res.fail(lab, "momentum %d is not the sum over %s" % (k, g), groups=groups)
            return
        up = R.mom(g, True)
        if not same_arr(cl[k].r2_sp_b, [[up[0], up[1]], [up[2], up[3]]]):
            res.fail(lab, "lower-index momentum %d is not the sum over %s" % (k, g), groups=groups)
            return
        fm = [ps[i].four_mom for i in g]
        if all(f is not None for f in fm) and (cl[k].four_mom is None or not same_arr(cl[k].four_mom, sum(fm[1:], fm[0]))):
            res.fail(lab, "four-momentum %d is not the sum over %s" % (k, g), groups=groups)
        if len(g) == 1 and (not same_arr(cl[k].r2_sp, ps[g[0]].r2_sp) or (ps[g[0]].r_sp_d is not None and (not same_arr(cl[k].r_sp_d, ps[g[0]].r_sp_d) or not same_arr(cl[k].l_sp_d, ps[g[0]].l_sp_d)))):
            res.fail(lab, "single leg %d lost its spinors" % g[0], groups=groups)
        if not same(cl[k].m2, R.s(g)):
            res.fail(lab, "mass of leg %d" % k, groups=groups)
    if sorted(itertools.chain(*groups)) == list(range(1, n + 1)):
        if not same_arr(cl.total_mom, ps.total_mom):
            res.fail(lab, "total momentum changed", groups=groups)
    L = len(groups)
    for r in range(1, min(L, 9) + 1 if deep else 3):
        for c in itertools.combinations(range(1, L + 1), r):
            merged = [i for k in c for i in groups[k - 1]]
            a, b = "s_" + "".join(map(str, c)), "s_" + "".join(map(str, merged))
            if max(c) > 9:
                continue                # not a name of an invariant
            x = cl.compute(a)
            res.transitions += 1
            if not same(x, R.s(merged)) or (max(merged) < 10 and not same(x, ps.compute(b))):
                res.fail(lab + " " + a, "%s of the clustered point is not %s of the original" % (a, b), groups=groups)
    if set(cl.internal_masses) != set(ps.internal_masses):
        res.fail(lab, "internal masses %s became %s" % (ps.internal_masses, cl.internal_masses), groups=groups)
    for m, v in vals.items():
        res.transitions += 1
        try:
            w = cl.compute(m)
        except Exception as e:
            res.fail(lab + " mass %s=%s" % (m, getattr(ps, m)), "unexpected %s: %s" % (type(e).__name__, str(e)[:200]), groups=groups)
            continue
        if not same(v, w):
            res.fail(lab + " mass %s=%s" % (m, getattr(ps, m)), "was %s, is %s in the clustered point (as %s)" % (str(v)[:60], str(w)[:60], str(getattr(cl, m))[:60]), groups=groups)
        spec_txt = getattr(ps, m)
        if isinstance(spec_txt, str) and spec_txt.startswith("s_") and spec_txt[2:].isdigit() and L <= 9:
            legs = sorted(int(x) for x in spec_txt[2:])
            for k, g in enumerate(groups, 1):
                if sorted(g) == legs:
                    # the mass follows the leg: it is the leg's mass for other kinematics, too
                    other = cl.image("".join(map(str, range(1, L + 1))))
                    other[k] = other[k] + other[k % L + 1]
                    if not same(other.compute(m), other.compute("s_%d" % k)):
                        res.fail(lab + " mass %s=%s" % (m, spec_txt), "not relabelled to the mass of leg %d: %s" % (k, getattr(cl, m)), groups=groups)


def independence(spec, groups, res):
    for k in range(5):
        for on_clustered in (True, False):
            ps, R = point(spec)
            field = ps.field
            with_masses(ps, field, ["number", "s_12"])
            cl = ps.cluster(groups)
            a, b = (cl, ps) if on_clustered else (ps, cl)
            keep = snapshot(b)
            lab = "%s %s: change %d of the %s point" % (spec, groups, k, "clustered" if on_clustered else "original")
            res.current = lab
            one = el(field, 1)
            if k == 0:
                for p in a:
                    for nm in ("_r_sp_d", "_l_sp_d", "_r_sp_u", "_l_sp_u", "_r2_sp", "_r2_sp_b", "_four_mom"):
                        if getattr(p, nm, None) is not None:
                            getattr(p, nm)[...] = one * 9
            elif k == 1:
                if any(p.r_sp_d is None for p in a):
                    continue
                a.make_analytical_d()
            elif k == 2:
                a.angles_for_squares()
            elif k == 3:
                a.m_a = one * 17
                a.m_z = one * 19
                a.internal_masses.discard("m_b")
            elif k == 4:
                a.append(a[1])
                del a[1]
            res.case(lab, "independent", sample=lab)
            res.transitions += 2
            if snapshot(b) != keep:
                res.fail(lab, "the other point changed", groups=groups)


def worker(shard, res):
    kind, spec = shard[0], shard[1]
    if kind in ("cluster", "many"):
        ps, R = point(spec)
        with_masses(ps, ps.field, shard[3])
        for g in shard[2]:
            check(ps, R, spec, g, res, shard[3], shard[4])
            check(ps, R, spec, tuple(map(tuple, g)), res, shard[3], False) if len(shard[2]) < 40 and kind == "cluster" else None
    elif kind == "indep":
        for g in shard[2]:
            independence(spec, g, res)
    elif kind == "twice":
        ps, R = point(spec)
        with_masses(ps, ps.field, ["number", "s_12", "s_34"])
        for g, h in shard[2]:
            lab = "%s %s then %s" % (spec, g, h)
            res.current = lab
            a = ps.cluster(g).cluster(h)
            flat = [[i for k in c for i in g[k - 1]] for c in h]
            b = ps.cluster(flat)
            res.case(lab, "twice", sample=lab)
            res.transitions += 3
            if len(a) != len(b) or any(not same_arr(a[i].r2_sp, b[i].r2_sp) for i in range(1, len(b) + 1)) or any(not same(a.compute(m), ps.compute(m)) for m in ps.internal_masses):
                res.fail(lab, "differs from clustering at once")


def main():
    ck = Check("C12")
    th = ck.thorough
    ck.rule = "every ordered grouping (all orders inside groups for n<=4, ascending and descending for n=5,6), all and part of the legs, with every internal-mass definition; all cuts of up to 8 legs (10 and 12: up to two cuts or nearly all) into consecutive groups in three orders; two-step clusterings; mutations of either point"
    shards = []
    fields = ("F2147483647", "mpc", "Z1009^4")
    for f in fields:
        g4 = list(groupings(4))
        for ch in chunks(g4, 8):
            shards.append(("cluster", ("num", f, 4, 1), ch, MASSES, True))
        for ch in chunks(list(groupings(4, False)), 4):
            shards.append(("cluster", ("num", f, 4, 2), ch, MASSES, True))
        for ch in chunks(list(sorted_groupings(5)), 16):
            shards.append(("cluster", ("num", f, 5, 1), ch, MASSES[:: 1 if f == "F2147483647" or th else 3], th))
        six = [g for g in sorted_groupings(6)]
        if f == "F2147483647":
            for ch in chunks(six if th else six[::3], 32):
                shards.append(("cluster", ("num", f, 6, 1), ch, MASSES if th else MASSES[::4], th))
        elif th:
            for ch in chunks(six[::2], 32):
                shards.append(("cluster", ("num", f, 6, 1), ch, MASSES, False))
        for ch in chunks([g for g in sorted_groupings(4)], 4):
            shards.append(("cluster", ("massive", f, 6, ((1,), (2, 3), (4,), (5, 6))), ch, ["number", "s_12", "s_34", "s_2"], True))
        for ch in chunks([g for g in sorted_groupings(4)][:: 1 if th else 5] + [[[1], [2], [3], [4]], [[1], [2], [3, 4]], [[2], [1], [4, 3]], [[1], [3]]], 4):
            shards.append(("indep", ("num", f, 4, 1), ch))
        two = [(g, h) for g in sorted_groupings(4) for h in sorted_groupings(len(g))]
        for ch in chunks(two if th else two[::7], 8):
            shards.append(("twice", ("num", f, 4, 3), ch))
    # many legs: every cut of the legs in order, and of the reversed or interleaved legs, into consecutive groups
    for n in (7, 8, 9, 10, 12):
        for legs in (list(range(1, n + 1)), list(range(n, 0, -1)), list(range(1, n + 1, 2)) + list(range(2, n + 1, 2))):
            cuts = [c for r in range(1, n) for c in itertools.combinations(range(1, n), r) if n < 9 or r in (1, 2, n - 2, n - 1)]
            gs = [[legs[a:b] for a, b in zip((0,) + c, c + (n,))] for c in cuts]
            for ch in chunks(gs, 2 if n < 9 else 6):
                shards.append(("many", ("num", "F2147483647", n, 1), ch, ["number", "s_12", "s_123"], False))
    # the only exact rational groupings are those without massive legs: number-library limit on square roots
    shards.append(("cluster", ("num", "Q", 4, 1), [[list(c) for c in zip(p)] for p in itertools.permutations((1, 2, 3, 4))], ["number", "s_12", "⟨1|2⟩*[2|1]"], True))
    shards.append(("indep", ("num", "Q", 4, 1), [[[1], [2], [3], [4]], [[4], [2]]]))
    ck.run(worker, shards)
    ck.run(history.worker, history.shards("C12", ck.thorough, light=True))
    ck.rule += "; all sequences of two of 25 changes to a point (thorough: three), everything observed before and between, against a fresh point"
    ck.finish()


if __name__ == "__main__":
    main()
