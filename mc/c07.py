"""C07: Mandelstams, masses, traces, tr5, Gram determinants, Ω, Π, δ5, polarisation contractions, internal masses."""
import itertools
import warnings
from fractions import Fraction
from .common import Check, chunks
import mpmath
from lips import Particles
from . import history, ref
from .ref import el, Ref, lips_point, conserved_spinors, snapshot, same, two_dot, det, gdet
from .c06 import make_point, text, alphabet

warnings.simplefilter("ignore")


def half(x):
    return x / 2


def corners(n, ijk):
    """Cyclically adjacent legs starting at i, j, k (each list runs up to the next starting leg)."""
    out = []
    for i in ijk:
        c = [i]
        while (c[-1] % n) + 1 not in ijk:
            c.append(c[-1] % n + 1)
        out.append(c)
    return out


def gram(R, cs):
    """(-1)^n det(p_i.p_j) over all corners but the last."""
    m = [R.mom(c, False) for c in cs]
    n = len(cs)
    return (-1) ** n * gdet([[half(two_dot(m[i], m[j])) for j in range(n - 1)] for i in range(n - 1)])


def ask(ps, res, spec, string, want, kind):
    label = "%s %s" % (spec, string)
    res.current = label
    try:
        got = ps.compute(string)
    except Exception as e:
        res.fail(label, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]), string=string)
        return
    if hasattr(got, "shape") or not same(got, want):
        res.fail(label, "got %s, defined as %s" % (str(got)[:150], str(want)[:150]), string=string)
    res.case((spec[:4], string), kind, sample=string)
    res.transitions += 1


def tr5(R, a, b, c, d):
    up, dn = R.tr5(a, b, c, d)
    return up - dn


def worker(shard, res):
    warnings.simplefilter("ignore")
    spec, kind, items = shard
    if kind == "masses":
        return masses(spec, items, res)
    if kind == "pol":
        return polarisations(spec, items, res)
    ps, R = make_point(spec)
    before = snapshot(ps)
    n = R.n
    for it in items:
        if kind == "s":
            w = R.s(it)
            d = "".join(map(str, it))
            for sp in ("s_", "s", "S_", "S") if len(it) < 4 else ("s_", "s"):
                ask(ps, res, spec, sp + d, w, "s%d" % len(it))
            ask(ps, res, spec, "1*s_" + d, w, "s%d" % len(it))
            if len(it) == 1:
                for sp in ("m_", "m", "M_", "M"):
                    ask(ps, res, spec, sp + d, w, "m")
                ask(ps, res, spec, "(m_%s)" % d, w, "m")
        elif kind == "tr":
            w = R.tr(it)
            for s in dict.fromkeys(("tr(%s)" % "|".join(text(m, False) for m in it), "tr(%s)" % "|".join(text(m, len(m) > 1) for m in it))):
                ask(ps, res, spec, s, w, "tr%d" % len(it))
                ask(ps, res, spec, "1*" + s, w, "tr%d" % len(it))
        elif kind == "tr5":
            w = tr5(R, *[list(x) for x in it])
            s = "tr5(%s)" % "|".join(text(x, False) for x in it)
            ask(ps, res, spec, s, w, "tr5")
            ask(ps, res, spec, "1*" + s, w, "tr5")
            if all(len(x) == 1 for x in it):
                ask(ps, res, spec, "tr5_%d%d%d%d" % tuple(x[0] for x in it), w, "tr5")
                ask(ps, res, spec, "(tr5_%d%d%d%d)" % tuple(x[0] for x in it), w, "tr5")
        elif kind == "D":
            w = gram(R, it)
            s = "Δ_" + "|".join("".join(map(str, c)) for c in it)
            ask(ps, res, spec, s, w, "Δ%d" % len(it))
            ask(ps, res, spec, "1*" + s, w, "Δ%d" % len(it))
        elif kind == "Dijk":
            cs = corners(n, it)
            A, B = R.mom(cs[0], False), R.mom(cs[1], False)
            w = half(two_dot(A, B)) ** 2 - det(A) * det(B)
            d = "".join(map(str, it))
            ask(ps, res, spec, "Δ_" + d, w, "Δ")
            ask(ps, res, spec, "1*Δ_" + d, w, "Δ")
        elif kind == "OP":
            A, B, C = corners(n, it)
            d = "".join(map(str, it))
            om = 2 * R.s(C) * R.s(B) - (R.s(C) + R.s(B) - R.s(A)) * R.s(C + [A[0]])
            pi = R.s(C + [A[0]]) - R.s(C + [A[1]])
            for pre in ("", "1*"):
                ask(ps, res, spec, pre + "Ω_" + d, om, "Ω")
                ask(ps, res, spec, pre + "Π_" + d, pi, "Π")
        elif kind == "d5":
            G = gdet([[two_dot(R.P[i], R.P[j]) for j in range(4)] for i in range(4)])
            t = tr5(R, [1], [2], [3], [4])
            if not same(G, t * t):
                raise AssertionError("reference identity")
            for pre in ("", "1*"):
                ask(ps, res, spec, pre + "δ5", G, "δ5")
        elif kind == "ldot":
            i, j = it
            res.current = "%s ldot %s" % (spec, it)
            got, w = ps.ldot(i, j), half(two_dot(R.P[i - 1], R.P[j - 1]))
            if not same(got, w):
                res.fail("%s ldot(%d,%d)" % (spec, i, j), "got %s, is %s" % (got, w))
            res.case((spec[:4], "ldot", i, j), "ldot")
            res.transitions += 2
    if snapshot(ps) != before:
        res.fail("%s %s evaluation changed the point" % (spec, kind), "one of %s" % (items[:20],))


def polarisations(spec, items, res):
    """ε·p and ε·ε with the reference vector, for every helicity assignment."""
    ps, R = make_point(spec)
    n = R.n
    q = ps.oRefVec
    qs = (q.r_sp_d[0, 0], q.r_sp_d[1, 0], q.l_sp_d[0, 0], q.l_sp_d[0, 1])
    Rq = Ref(list(R.sp) + [qs])
    Q = n + 1
    s2 = mpmath.sqrt(2)

    def eps(i, h):
        """Polarisation as a rank-two spinor numerator (r, l) and a denominator."""
        if h == "+":
            return Rq.ru(Q), Rq.lu(i), s2 * Rq.ang(Q, i)
        return Rq.ru(i), Rq.lu(Q), s2 * Rq.sqr(i, Q)
    for hel in items:
        ps.helconf = list(hel)
        canon = ["+" if h in "+p" else "-" for h in hel]
        for i in range(1, n + 1):
            for j in range(1, n + 1):
                r, l, den = eps(i, canon[i - 1])
                w = ref.dot(ref.vm(r, Rq.mom([j], True)), l) / den
                label = "%s helicities %s" % (spec, "".join(hel))
                res.current = "%s ep(%d,%d)" % (label, i, j)
                if not same(ps.ep(i, j), w) or not same(ps.pe(j, i), w):
                    res.fail("%s ep(%d,%d)" % (label, i, j), "got %s / %s, is %s" % (ps.ep(i, j), ps.pe(j, i), w))
                if i != j:
                    # (r1 l1).(r2 l2) = 2 <r1 r2>[l2 l1] / (den1 den2)
                    r1, l1, d1 = eps(i, canon[i - 1])
                    r2, l2, d2 = eps(j, canon[j - 1])
                    w = 2 * (r1[0] * r2[1] - r1[1] * r2[0]) * (l1[0] * l2[1] - l1[1] * l2[0]) / (d1 * d2)
                    if not same(ps.ee(i, j), w):
                        res.fail("%s ee(%d,%d)" % (label, i, j), "got %s, is %s" % (ps.ee(i, j), w))
                res.case((spec, hel, i, j), "pol")
                res.transitions += 3


NAMES = ["m", "M", "μ", "m_t", "mt", "mt2", "M_W", "MH", "m_Z2", "μ2", "m_"]


def masses(spec, items, res):
    """Every way of giving internal masses x every way of reading them."""
    ps0, R = make_point(spec)
    field = ps0.field
    exprs = {"s_12": R.s([1, 2]), "s_123": R.s([1, 2, 3]), "2*s_12+s_34": 2 * R.s([1, 2]) + R.s([3, 4]),
             "⟨1|2⟩*[2|1]": R.ang(1, 2) * R.sqr(2, 1), "⟨1|2+3|4]": R.chain(("a", 1), [[2, 3]], ("s", 4))}
    val = el(field, 17)
    for how, name, value in items:
        label = "%s internal mass %s=%s via %s" % (spec, name, value, how)
        res.current = label
        v = val if value == "number" else value
        want = exprs.get(value, val)
        parts = lips_point(R.sp, field)
        before = snapshot(parts)
        try:
            if how == "dict":
                ps = Particles(list(parts), field=field, fix_mom_cons=False, internal_masses={name: v, "mOther": el(field, 5)})
            elif how == "setattr":
                ps = Particles(list(parts), field=field, fix_mom_cons=False)
                setattr(ps, name, v)
            elif how == "overwrite":
                ps = Particles(list(parts), field=field, fix_mom_cons=False, internal_masses=[name, "mOther"])
                setattr(ps, name, v)
            else:
                ps = Particles(list(parts), field=field, fix_mom_cons=False, internal_masses={"list": [name], "tuple": (name,), "set": {name}}[how])
                want = getattr(ps, name)
                if not ref.in_field(want, field):
                    res.fail(label, "random mass %r is not in the field" % (want,))
            if name not in ps.internal_masses or set(ps.internal_masses_dict) != set(ps.internal_masses):
                res.fail(label, "not listed: %s" % (ps.internal_masses,))
            for s, w in ((name, want), ("%s*s_12" % name, want * R.s([1, 2])), ("s_12-%s" % name, R.s([1, 2]) - want), ("%s^2" % name, want * want),
                         ("s_12*%s" % name, want * R.s([1, 2])), ("2%s" % name, 2 * want), ("(%s+1)" % name, want + 1)):
                got = ps.compute(s)
                if not same(got, w):
                    res.fail(label + " reading " + s, "got %s, is %s" % (got, w))
                res.case((spec[:3], how, name, value, s), "mass")
                res.transitions += 1
            a, _, b = snapshot(ps)
            if (a, b) != (before[0], before[2]):
                res.fail(label, "the point changed")
        except Exception as e:
            res.fail(label, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]))


def partitions(legs, k):
    """Ordered ways of splitting a permutation-free list of legs in k non-empty consecutive-free groups."""
    legs = list(legs)
    for f in itertools.product(range(k), repeat=len(legs)):
        if len(set(f)) == k:
            yield tuple(tuple(x for x, y in zip(legs, f) if y == g) for g in range(k))


def main():
    ck = Check("C07")
    th = ck.thorough
    ck.rule = "every index set/order of every kind of invariant up to the stated multiplicity, on the generic (polynomial) point and on points of every field"
    shards = []

    def add(spec, kind, items, n=8):
        for ch in chunks(items, n):
            shards.append((spec, kind, ch))
    G4, G5, G6 = ("generic", 4), ("generic", 5), ("generic", 6)
    F = "F2147483647"
    N = lambda f, n, s=1: ("num", f, n, s)
    subs = lambda n, sizes: [c for r in sizes for c in itertools.permutations(range(1, n + 1), r)]
    add(G5, "s", subs(5, (1, 2, 3, 4, 5)))
    add(G4, "tr", [t for t in itertools.product([list(x) for x in alphabet(4, (1, 2), False) + [(2, -1)]], repeat=2)])
    add(G4, "tr", [t for t in itertools.product([[1], [2], [3], [4], [1, 2], [3, -4]], repeat=4)], 16)
    add(N(F, 6), "tr", [t for t in itertools.product([[1], [2], [3, 4], [5, -6]], repeat=6)] if th else [t for t in itertools.product([[1], [2], [3, 4]], repeat=6)], 16)
    add(G5, "tr5", [tuple((x,) for x in t) for t in itertools.product(range(1, 6), repeat=4)])
    a6 = [(1,), (2,), (3,), (4, 5), (5, 6), (2, -6)]
    add(N(F, 6), "tr5", [t for t in itertools.product(a6, repeat=4)])
    add(("generic", 4), "tr5", [t for t in itertools.product([(1,), (2,), (3, 4), (1, -2)], repeat=4)])
    add(G4, "D", list(partitions(range(1, 5), 3)) + list(partitions((1, 2, 3), 3)))
    add(N(F, 5), "D", list(partitions(range(1, 6), 3)) + list(partitions(range(1, 6), 4)))
    add(N(F, 6), "D", [p for p in partitions(range(1, 7), 3) if p[0][0] < p[1][0]] + [p for p in partitions(range(1, 7), 5)][::1 if th else 5], 16)
    for f in (F, "Z2147483647^3", "mpc", "Q", "Qi"):
        add(N(f, 6), "Dijk", list(itertools.permutations((1, 3, 5))) + list(itertools.permutations((2, 4, 6))) + list(itertools.permutations((1, 2, 4))), 1)
        add(N(f, 6), "OP", list(itertools.permutations((1, 3, 5))) + list(itertools.permutations((2, 4, 6))), 1)
        add(N(f, 7), "Dijk", list(itertools.permutations(range(1, 8), 3)), 2)
        for sd in range(1, 9 if not th else 40):
            add(N(f, 5, sd), "d5", [()], 1)
        add(N(f, 6), "s", subs(6, (1, 2, 3)) + [c for r in (4, 5, 6) for c in itertools.combinations(range(1, 7), r)], 2)
        add(N(f, 6), "tr", [([1], [2]), ([1, 2], [3, -4]), ([1], [2], [3], [4]), ([1, 2], [3], [4], [5, 6]), ([1], [2], [3], [4], [5], [6])], 1)
        add(N(f, 6), "tr5", [t for t in itertools.permutations(((1,), (2,), (4,), (5, 6)))] + [tuple((x,) for x in t) for t in itertools.permutations((1, 3, 4, 6))], 1)
        add(N(f, 6), "D", [((1, 2), (3, 4), (5, 6)), ((1,), (2, 3), (4, 5, 6)), ((1,), (2,), (3, 4), (5, 6)), ((1, 3), (2, 6), (4, 5))], 1)
        add(N(f, 5), "ldot", list(itertools.product(range(1, 6), repeat=2)), 1)
        vals = ["number", "s_12", "s_123", "2*s_12+s_34", "⟨1|2⟩*[2|1]", "⟨1|2+3|4]"]
        add(N(f, 5), "masses", [(h, nm, v) for nm in NAMES for h in ("dict", "setattr", "overwrite") for v in vals] +
            ([(h, nm, "random") for nm in NAMES for h in ("list", "tuple", "set")] if f not in ("Q", "Qi") else []), 2)
    add(G6, "OP", list(itertools.permutations((1, 3, 5))) if th else [(1, 3, 5), (4, 6, 2)], 6)
    add(G6, "Dijk", list(itertools.permutations((1, 3, 5))) if th else [(1, 3, 5)], 6)
    add(G5, "ldot", list(itertools.product(range(1, 6), repeat=2)), 1)
    for f in (F, "mpc"):
        for n, groups in ((6, ((1,), (2,), (3, 4), (5, 6))), (7, ((5, 6), (1, 2, 3), (4,), (7,)))):
            sp = ("massive", f, n, groups)
            ends = [k for k, g in enumerate(groups, 1) if len(g) == 1]
            add(sp, "s", subs(4, (1, 2, 3, 4)), 1)
            add(sp, "tr", [t for t in itertools.product([[1], [2], [3], [4], [1, 2], [3, -4]], repeat=2)] + [t for t in itertools.product([[1], [2], [3], [4]], repeat=4)], 2)
            add(sp, "D", list(partitions(range(1, 5), 3)) + list(partitions((1, 2, 3), 3)) + [((1,), (2,), (3,), (4,))], 1)
            add(sp, "tr5", [tuple((x,) for x in t) for t in itertools.permutations(range(1, 5))], 1)
            add(sp, "ldot", list(itertools.product(range(1, 5), repeat=2)), 1)
    for n in (4, 5):
        add(("num", "mpc", n, 1), "pol", [h for h in itertools.product("+-" if n == 5 else "+-pm", repeat=n)], 8)
    ck.run(worker, shards)
    ck.assumptions += ["δ5 at momentum-conserving five-point points"]
    ck.run(history.worker, history.shards("C07", ck.thorough))
    ck.rule += "; all sequences of two of 25 changes to a point (thorough: three), everything observed before and between, against a fresh point"
    ck.finish()


if __name__ == "__main__":
    main()
