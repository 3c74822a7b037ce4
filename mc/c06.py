"""C06: every spinor string against its contraction, on the generic (polynomial) point and on points of every field."""
import itertools
from .common import Check, chunks
from sympy import ring, QQ
from lips import Particles, Particle
from . import history, ref
from .ref import el, arr, Ref, lips_point, lips_particle, conserved_spinors, snapshot, same, same_arr

BOLD = dict(zip("0123456789", "𝟎𝟏𝟐𝟑𝟒𝟓𝟔𝟕𝟖𝟗"))


def generic(n):
    """The universal point: spinor components are the generators of a polynomial ring, so an identity here holds at every point."""
    names = [c + str(i) for i in range(1, n + 1) for c in "abcd"]
    R, *g = ring(names, QQ)
    return [tuple(g[4 * i:4 * i + 4]) for i in range(n)]


def massive_point(fname, n, groups):
    """A point whose legs are sums of massless momenta; single-leg groups keep their spinors."""
    field = ref.make_field(fname)
    sp = conserved_spinors(lambda x: el(field, x), n, 2)
    parts, moms, spinors = [], [], []
    R = Ref(sp)
    for g in groups:
        if len(g) == 1:
            parts.append(lips_particle(sp[g[0] - 1], field))
            spinors.append(sp[g[0] - 1])
        else:
            m = R.mom(g, False)
            p = Particle(field=field, real_momenta=False) if False else lips_particle(sp[g[0] - 1], field)
            for k in g[1:]:
                p = p + lips_particle(sp[k - 1], field)
            assert same_arr(p.r2_sp, [[m[0], m[1]], [m[2], m[3]]])
            parts.append(p)
            spinors.append(None)
        moms.append(R.mom(g, False))
    ps = Particles(parts, field=field, fix_mom_cons=False)
    r = Ref(momenta=moms)
    r.sp = spinors
    return ps, r


def make_point(spec):
    kind = spec[0]
    if kind == "generic":
        sp = generic(spec[1])
        return lips_point(sp, ref.make_field("Q")), Ref(sp)
    if kind == "num":
        field = ref.make_field(spec[1])
        sp = conserved_spinors(lambda x: el(field, x), spec[2], spec[3])
        return lips_point(sp, field), Ref(sp)
    return massive_point(*spec[1:])


def text(terms, paren):
    s = "".join(("+" if t > 0 and k else "-" if t < 0 else "") + str(abs(t)) for k, t in enumerate(terms))
    return "(%s)" % s if paren else s


def closing(start, k):
    return start if k % 2 == 0 else ("s" if start == "a" else "a")


def spellings(start, mids, end, which):
    """All accepted spellings of a chain; which: 'all' or 'basic'."""
    out = []
    m1 = [text(m, False) for m in mids]
    m2 = [text(m, len(m) > 1) for m in mids]
    m3 = [text(m, True) for m in mids]
    for mm in ([m1] if which == "basic" or not mids else [m1, m2, m3]):
        beg = "" if start is None else ("⟨" if start[0] == "a" else "[") + str(start[1])
        fin = "" if end is None else str(end[1]) + ("⟩" if end[0] == "a" else "]")
        out.append("|".join([beg] + mm + [fin]))
    out = list(dict.fromkeys(out))
    if which == "basic":
        return out
    base = out[0]
    if "⟨" in base or "⟩" in base:
        out.append(base.replace("⟨", "<").replace("⟩", ">"))
    out.append("".join(BOLD.get(ch, ch) for ch in base))
    if not mids and start is not None and end is not None and start[1] < 10 and end[1] < 10:
        out.append(base.replace("|", ""))
        out.append(base.replace("|", "").replace("⟨", "<").replace("⟩", ">"))
    return out


def in_expression(s):
    return ["(%s)" % s, "1*%s" % s, "%s+0*%s" % (s, s)]


def expect(R, start, mids, end):
    if start is None and end is None:
        M = R.chain(None, mids, None)
        return [[M[0], M[1]], [M[2], M[3]]]
    if start is None:
        v = R.chain(None, mids, end) if mids else (R.rd(end[1]) if end[0] == "a" else R.lu(end[1]))
        return [[v[0]], [v[1]]]
    if end is None:
        v = R.chain(start, mids, None) if mids else (R.ru(start[1]) if start[0] == "a" else R.ld(start[1]))
        return [[v[0], v[1]]]
    return R.chain(start, mids, end)


def ok(got, want):
    if isinstance(want, list):
        return hasattr(got, "shape") and same_arr(got, want)
    return not hasattr(got, "shape") and same(got, want)


def worker(shard, res):
    spec, items, which, expr = shard
    ps, R = make_point(spec)
    before = snapshot(ps)
    recent = []
    for start, mids, end in items:
        want = expect(R, start, mids, end)
        sps = spellings(start, mids, end, which)
        calls = [(s, s) for s in sps]
        if expr:
            calls += [(e, s) for s in sps for e in in_expression(s)]
        for string, s in calls:
            label = "%s %s" % (spec, string)
            res.current = label
            recent.append(string)
            try:
                got = ps.compute(string)
            except Exception as e:
                if string != s and any(t >= 10 for m in mids for t in map(abs, m)) | (start is not None and start[1] >= 10) | (end is not None and end[1] >= 10):
                    res.fail("longer chain with a two-digit leg inside an expression raises", "%s: unexpected %s" % (string, type(e).__name__), string=string)
                    continue
                res.fail(label, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]), string=string)
                continue
            if not ok(got, want):
                res.fail(label, "got %s, defined as %s" % (str(got)[:200], str(want)[:200]), string=string)
            res.case((spec[:2], string), "%s%d%s" % (start[0] if start else "-", len(mids), end[0] if end else "-"), sample=string)
            res.transitions += 1
        if len(recent) > 100:
            if snapshot(ps) != before:
                res.fail("%s evaluation changed the point" % (spec,), "after one of %s" % recent)
                before = snapshot(ps)
            recent = []
    if snapshot(ps) != before:
        res.fail("%s evaluation changed the point" % (spec,), "after one of %s" % recent)


def chains(ends, alphabet, k, opens=True):
    """All chains with k matrices between ends drawn from `ends`."""
    out = []
    for mids in itertools.product(alphabet, repeat=k):
        mids = [list(m) for m in mids]
        for s in "as":
            e = closing(s, k)
            for i in ends:
                for j in ends:
                    out.append(((s, i), mids, (e, j)))
        if opens:
            for s in "as":
                for i in ends:
                    out.append(((s, i), mids, None))
                    out.append((None, mids, (s, i)))
            if k:
                out.append((None, mids, None))
    return out


def alphabet(n, sizes, signs=True):
    out = []
    for r in sizes:
        for c in itertools.permutations(range(1, n + 1), r):
            for sg in itertools.product((1, -1), repeat=r - 1) if signs else [(1,) * (r - 1)]:
                if not signs and list(c) != sorted(c):
                    continue
                out.append((c[0],) + tuple(x * y for x, y in zip(c[1:], sg)))
    return out


def main():
    ck = Check("C06")
    th = ck.thorough
    ck.rule = "every chain (ends, open ends, middle entries single/sum/difference) up to the stated length, in every accepted spelling"
    shards = []

    def add(spec, items, which="all", expr=True, n=16):
        for ch in chunks(items, n):
            shards.append((spec, ch, which, expr))
    # the generic point: identities for all points
    G4, G5 = ("generic", 4), ("generic", 5)
    add(G5, chains(range(1, 6), [], 0) if False else chains(range(1, 6), [(1,)], 0))
    add(G5, chains(range(1, 6), alphabet(5, (1, 2)) + alphabet(5, (3,), False) + [(1, 2, 3, 4), (5, -4, 3, -1)], 1))
    add(G4, chains(range(1, 5), alphabet(4, (1, 2), False) + [(2, -1), (3, -4)], 2), "all" if th else "basic", True)
    add(G4, chains((1, 2, 4), alphabet(4, (1,)) + [(1, 2), (3, -4)], 3), "basic", th, n=24)
    add(("generic", 3), chains((1, 3), alphabet(3, (1,)) + [(2, 3)], 4), "basic", th, n=24)
    add(("generic", 3), chains((1, 2), alphabet(3, (1,)), 5), "basic", False, n=24)
    # all number fields, multi-digit indices
    for f in ("F2147483647", "Z2147483647^3", "Z5^4", "mpc", "Q", "Qi"):
        add(("num", f, 6, 1), chains((1, 3, 6), [(2,), (4, 5), (6, -1), (1, 2, 3)], 1) + chains((1, 6), [(2,), (4, 5), (6, -1)], 2) + chains((1, 3, 6), [(1,)], 0), "all", True, 2)
    F = "F2147483647"
    add(("num", F, 12, 1), [x for x in chains((1, 10, 12), [(11,), (2, 10), (12, -9)], 1) + chains((9, 11), [(10,), (1, 12)], 2) + chains((1, 10, 12), [(1,)], 0)], "all", False, 4)
    add(("num", F, 12, 1), [x for x in chains((1, 10, 12), [(11,), (2, 10), (12, -9)], 1, False) + chains((9, 11), [(10,), (1, 12)], 2, False)], "all", True, 4)
    add(("num", F, 6, 1), chains(range(1, 7), alphabet(6, (1, 2), False), 2, False), "basic", False, 24)
    if th:
        add(("num", F, 6, 2), chains((1, 2, 6), alphabet(6, (1, 2), False), 3), "basic", False, 48)
        add(("num", F, 5, 2), chains((1, 2), alphabet(5, (1,)), 5), "basic", False, 24)
        add(G5, chains((1, 3, 5), alphabet(5, (1, 2), False) + [(2, -1)], 2), "all", True, 48)
    # massive legs in the middle
    for f in (F, "mpc", "Z2147483647^3"):
        for n, groups in ((6, ((1,), (2,), (3, 4), (5, 6))), (6, ((5, 6), (1, 2, 3), (4,))), (5, ((1,), (2, 3), (4,), (5,)))):
            ends = [k for k, g in enumerate(groups, 1) if len(g) == 1]
            m = len(groups)
            add(("massive", f, n, groups), chains(ends, alphabet(m, (1, 2), False), 1) + chains(ends[:2], alphabet(m, (1,)), 2), "all", True, 2)
    ck.run(worker, shards)
    ck.notes["generic_point"] = "spinor components are ring generators: agreement there is agreement at every point of every commutative ring"
    ck.run(history.worker, history.shards("C06", ck.thorough))
    ck.rule += "; all sequences of two of 25 changes to a point (thorough: three), everything observed before and between, against a fresh point"
    ck.finish()


if __name__ == "__main__":
    main()
