"""C10: images under every permutation with and without the exchange of angle and square brackets: relabelling, group action, independence."""
import itertools
from .common import Check, chunks
import numpy
from . import history, ref
from .ref import el, Ref, lips_point, conserved_spinors, snapshot, same, same_arr
from .c06 import massive_point
from .c07 import gram


# --- structured invariants: text, relabelling, reference value -----------------------------------------
def show(inv):
    kind = inv[0]
    if kind == "chain":
        _, (a, i), mids, (b, j) = inv
        return "|".join([("⟨" if a == "a" else "[") + str(i)] + ["+".join(map(str, m)) for m in mids] + [str(j) + ("⟩" if b == "a" else "]")])
    if kind == "s":
        return "s_" + "".join(map(str, inv[1]))
    if kind == "m":
        return "m_%d" % inv[1]
    if kind == "tr":
        return "tr(" + "|".join("+".join(map(str, m)) for m in inv[1]) + ")"
    if kind == "tr5":
        return "tr5_" + "".join(map(str, inv[1]))
    if kind == "D":
        return "Δ_" + "|".join("".join(map(str, c)) for c in inv[1])
    if kind == "expr":
        return "(%s)" % ")*(".join(show(x) for x in inv[1]) + "+%s" % show(inv[1][0])
    raise KeyError(kind)


def relabel(inv, f, swap):
    """The invariant whose value on the original point is that of inv on the image; legs go through f."""
    kind = inv[0]
    if kind == "chain":
        _, (a, i), mids, (b, j) = inv
        mids = [[f[x] for x in m] for m in mids]
        o = {"a": "s", "s": "a"}
        if swap:
            return ("chain", (o[b], f[j]), mids[::-1], (o[a], f[i]))
        return ("chain", (a, f[i]), mids, (b, f[j]))
    if kind == "s":
        return ("s", [f[x] for x in inv[1]])
    if kind == "m":
        return ("m", f[inv[1]])
    if kind in ("tr", "D"):
        cs = [[f[x] for x in m] for m in inv[1]]
        return (kind, cs[:1] + cs[1:][::-1] if swap and kind == "tr" else cs)
    if kind == "tr5":
        legs = [f[x] for x in inv[1]]
        return ("tr5", [legs[1], legs[0]] + legs[2:] if swap else legs)
    if kind == "expr":
        return ("expr", [relabel(x, f, swap) for x in inv[1]])
    raise KeyError(kind)


def value(R, inv):
    kind = inv[0]
    if kind == "chain":
        return R.chain(inv[1], inv[2], inv[3])
    if kind == "s":
        return R.s(inv[1])
    if kind == "m":
        return R.s([inv[1]])
    if kind == "tr":
        return R.tr(inv[1])
    if kind == "tr5":
        up, dn = R.tr5(*[[x] for x in inv[1]])
        return up - dn
    if kind == "D":
        return gram(R, inv[1])
    if kind == "expr":
        out = 1
        for x in inv[1]:
            out = out * value(R, x)
        return out + value(R, inv[1][0])


def invariants(n, massive=False):
    out = []
    legs = range(1, n + 1)
    if not massive:
        for i, j in itertools.permutations(legs, 2):
            out += [("chain", ("a", i), [], ("a", j)), ("chain", ("s", i), [], ("s", j))]
    for k in (2, 3):
        out += [("s", list(c)) for c in itertools.combinations(legs, k) if len(c) < n]
    out += [("m", i) for i in legs]
    if n >= 4:
        if not massive:
            out += [("chain", ("a", 1), [[2, 3]], ("s", 4)), ("chain", ("s", 2), [[1, 3]], ("a", 4)), ("chain", ("a", 3), [[1, 2], [2, 4]], ("a", 1)), ("chain", ("s", 3), [[1, 2], [4]], ("s", 1)),
                    ("chain", ("a", n), [[1], [2, 3], [1, 4]], ("s", 2))]
            out.append(("expr", [("chain", ("a", 1), [], ("a", 2)), ("chain", ("s", 3), [], ("s", 4)), ("chain", ("a", 2), [[3, 4]], ("s", 1))]))
        out += [("tr", [[1], [2], [3], [4]]), ("tr", [[1, 2], [3], [4], [2]]), ("tr", [[1, 3], [2]]), ("tr5", [1, 2, 3, 4]), ("tr5", [4, 2, 1, 3])]
    else:
        out += [("tr", [[1], [2]])]
    if n >= 5:
        out += [("D", [[1, 2], [3], list(range(4, n + 1))]), ("D", [[1], [2], [3, 4], list(range(5, n + 1))])]
    return out


# --- points ------------------------------------------------------------------------------------------------
def point(spec):
    """(lips point, reference, massive?)"""
    kind = spec[0]
    if kind == "num":
        _, fname, n, seed = spec
        field = ref.make_field(fname)
        sp = conserved_spinors(lambda x: el(field, x), n, seed)
        return lips_point(sp, field, internal_masses={"mt": el(field, 5), "m_Q": el(field, 7)}), Ref(sp), False
    if kind == "dup":
        _, fname, n, pattern = spec
        field = ref.make_field(fname)
        base = conserved_spinors(lambda x: el(field, x), max(n, 4), 3)
        sp = []
        for k, q in enumerate(pattern):
            a, b, c, d = base[q]
            if k in (1, 3):        # the same momentum with rescaled spinors
                two = el(field, 2)
                a, b, c, d = a * two, b * two, c / two, d / two
            sp.append((a, b, c, d))
        return lips_point(sp, field), Ref(sp), False
    if kind == "massive":
        _, fname, n, groups = spec
        ps, R = massive_point(fname, n, groups)
        return ps, R, True
    if kind == "symbolic":
        field = ref.make_field(spec[1])
        ps = lips_point(conserved_spinors(lambda x: el(field, x), spec[2], 1), field)
        ps.make_analytical_d()
        return ps, None, False
    raise KeyError(kind)


def rule_text(perm):
    return "".join(map(str, perm))


def part_snap(p):
    return tuple(None if getattr(p, nm) is None else tuple(ref.key(x) for x in getattr(p, nm).flatten()) for nm in ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d"))


def same_point(a, b):
    return snapshot(a) == snapshot(b)


def check_image(ps, R, massive, n, perm, swap, rules, invs, res, label):
    before = snapshot(ps)
    for rule in rules:
        lab = "%s %r" % (label, rule)
        res.current = lab
        res.transitions += 1
        try:
            im = ps.image(rule)
        except Exception as e:
            res.fail(lab, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]))
            return None
        if snapshot(ps) != before:
            res.fail(lab, "taking the image changed the original")
            return None
        if len(im) != n or im is ps or any(im[i] is ps[j] for i in range(1, n + 1) for j in range(1, n + 1)):
            res.fail(lab, "the image shares particles with the original")
        if im.field != ps.field or sorted(im.internal_masses) != sorted(ps.internal_masses) or im.internal_masses_dict != ps.internal_masses_dict:
            res.fail(lab, "field or internal masses differ: %s %s" % (im.field, im.internal_masses_dict))
        inv_p = {perm[k]: k + 1 for k in range(n)}          # leg of the image -> leg of the original
        if not swap:
            for i in range(1, n + 1):
                if part_snap(im[i]) != part_snap(ps[inv_p[i]]):
                    res.fail(lab, "leg %d of the image is not leg %d of the original" % (i, inv_p[i]))
        else:
            for i in range(1, n + 1):
                p, q = im[i], ps[inv_p[i]]
                if not same_arr(p.r2_sp, q.r2_sp.T) or (q.r_sp_d is not None and not massive and (not same_arr(p.r_sp_d, q.l_sp_d.T) or not same_arr(p.l_sp_d, q.r_sp_d.T))):
                    res.fail(lab, "leg %d of the image is not leg %d with left and right exchanged" % (i, inv_p[i]))
        if invs:
            RI = None if massive or R is None else R.image(perm, swap)
            for inv in invs:
                other = relabel(inv, inv_p, swap)
                a, b = show(inv), show(other)
                try:
                    x, y = im.compute(a), ps.compute(b)
                except Exception as e:
                    res.fail(lab + " " + a, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]))
                    continue
                if not same(x, y):
                    res.fail(lab + " " + a, "image gives %s, the relabelled %s gives %s" % (str(x)[:80], b, str(y)[:80]), invariant=a, relabelled=b)
                if RI is not None and not same(x, value(RI, inv)):
                    res.fail(lab + " " + a, "image gives %s, expected %s" % (str(x)[:80], str(value(RI, inv))[:80]), invariant=a)
            for m in im.internal_masses:
                if not same(im.compute(m), ps.compute(m)):
                    res.fail(lab + " " + m, "internal mass differs")
        res.case((label, perm, swap), "swap" if swap else "plain", sample=lab)
    return im


def mutations(field, n):
    one = el(field, 1)

    def spinor(p):
        p[1].r_sp_d = numpy.array([[one * 3], [one * 4]], dtype=object)

    def inplace(p):
        p[2].r_sp_d[0, 0] = one * 11

    def inplace2(p):
        p[2].r2_sp[0, 1] = one * 13

    def inplace3(p):
        p[2].l_sp_u[1, 0] = one * 13

    def swap(p):
        p.angles_for_squares()

    def delete(p):
        del p[1]

    def append(p):
        p.append(p[1])

    def mass(p):
        p.mt = one * 23

    def newmass(p):
        p.m_new = one * 29

    def clear_masses(p):
        p.internal_masses.clear()

    def analytic(p):
        p.make_analytical_d()

    def conserve(p):
        p[n].r_sp_d = numpy.array([[one * 5], [one * 7]], dtype=object)
        p.fix_mom_cons(1, 2)

    def replace(p):
        p[1] = p[2]

    def rand(p):
        p.randomise_all()
    return [spinor, inplace, inplace2, inplace3, swap, delete, append, mass, newmass, clear_masses, analytic, conserve, replace, rand]


def worker(shard, res):
    kind, spec = shard[0], shard[1]
    if kind == "perms":
        ps, R, massive = point(spec)
        n = len(ps)
        invs = invariants(n, massive) if shard[3] else []
        for perm, swap in shard[2]:
            t = rule_text(perm)
            rules = [(t, swap)] if swap else [t, (t, False)]
            check_image(ps, R, massive, n, perm, swap, rules, invs, res, str(spec))
    elif kind == "compose":
        ps, R, massive = point(spec)
        n = len(ps)
        idn = tuple(range(1, n + 1))
        if not same_point(ps.image((rule_text(idn), False)), ps) or not same_point(ps.image(rule_text(idn)), ps) or not same_point(ps.copy(), ps):
            res.fail("%s identity" % (spec,), "the identity does not act trivially")
        memo = {}

        def img(g):
            if g not in memo:
                memo[g] = snapshot(ps.image((rule_text(g[0]), g[1])))
            return memo[g]
        for (p, s), seconds in shard[2]:
            first = ps.image((rule_text(p), s))
            keep = snapshot(first)
            for q, t in seconds:
                res.current = "%s %s then %s" % (spec, (p, s), (q, t))
                second = first.image((rule_text(q), t))
                both = tuple(q[p[k] - 1] for k in range(n)), s != t
                res.case((str(spec), p, s, q, t), "compose", sample=res.current)
                res.transitions += 2
                if snapshot(second) != img(both):
                    res.fail(res.current, "differs from the image under the composed symmetry %s" % (both,))
                if both == (idn, False) and not same_point(second, ps):
                    res.fail(res.current, "the inverse does not undo the symmetry")
            if snapshot(first) != keep:
                res.fail("%s %s" % (spec, (p, s)), "an image changed while taking images of it")
    elif kind == "indep":
        for perm, swap in shard[2]:
            n = len(perm)
            for both in (False, True):
                for k in range(len(mutations(ref.make_field(spec[1]), n))):
                    ps, R, massive = point(spec)
                    im = ps.image((rule_text(perm), swap))
                    mut = mutations(ps.field, n)[k]
                    a, b = (ps, im) if both else (im, ps)
                    keep = snapshot(b)
                    lab = "%s %s: %s on the %s" % (spec, (perm, swap), mut.__name__, "original" if both else "image")
                    res.current = lab
                    try:
                        mut(a)
                    except Exception as e:
                        res.fail(lab, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]))
                        continue
                    res.transitions += 2
                    res.case(lab, "independent", sample=lab)
                    if snapshot(b) != keep:
                        res.fail(lab, "the other point changed too")


def group(n):
    return [(p, s) for p in itertools.permutations(range(1, n + 1)) for s in (False, True)]


def main():
    ck = Check("C10")
    th = ck.thorough
    ck.rule = "every permutation of 3..6 legs (and all transpositions, rotations and reversals of 7..9), with and without the exchange: every invariant of the list on the image equals the relabelled one; all pairs composed; every mutation of image or original"
    shards = []
    fields = ["mpc", "F2147483647", "Z1009^4", "Q"] + (["Qi", "F7", "Z2147483647^3"] if th else [])
    for f in fields:
        for n in (3, 4, 5, 6):
            specs = [("num", f, n, 1)] if not (n == 6 and f in ("mpc", "Qi") and not th) else []
            for spec in specs:
                for ch in chunks(group(n), 24 if n == 6 else 8 if n == 5 else 2):
                    shards.append(("perms", spec, ch, True))
    for f in ("F2147483647", "Q"):
        for n, pat in ((4, (0, 0, 1, 1)), (4, (0, 1, 0, 2)), (5, (0, 0, 0, 1, 2)), (5, (2, 1, 0, 1, 2)), (3, (0, 0, 1)), (4, (0, 0, 0, 0))):
            for ch in chunks(group(n), 4):
                shards.append(("perms", ("dup", f, n, pat), ch, True))
    for f in ("mpc", "F2147483647"):
        for n, gr in ((6, ((1,), (2, 3), (4,), (5, 6))), (6, ((1, 2), (3, 4), (5, 6))), (7, ((1, 2), (3,), (4,), (5, 6), (7,)))):
            for ch in chunks(group(len(gr)), 4):
                shards.append(("perms", ("massive", f, n, gr), ch, True))
    for f in ("Q", "F2147483647"):
        for n in (3, 4):
            for ch in chunks(group(n), 2):
                shards.append(("perms", ("symbolic", f, n), ch, False))
    # composition
    for spec in [("num", f, n, 2) for f in ("F2147483647", "mpc") for n in (3, 4)] + [("dup", "Q", 4, (0, 0, 1, 2)), ("massive", "F2147483647", 6, ((1,), (2, 3), (4,), (5, 6)))]:
        n = len(spec[3]) if spec[0] in ("dup", "massive") else spec[2]
        G = group(n)
        for ch in chunks(G, 8):
            shards.append(("compose", spec, [(g, G) for g in ch]))
    G = group(5)
    gens = [((2, 1, 3, 4, 5), False), ((2, 3, 4, 5, 1), False), ((1, 2, 3, 4, 5), True), ((2, 3, 1, 4, 5), True)]
    for ch in chunks(G, 8 if not th else 40):
        shards.append(("compose", ("num", "F2147483647", 5, 2), [(g, G if th else gens) for g in ch]))
    inv6 = [(p, s) for p, s in group(6)]
    for ch in chunks(inv6, 16):
        shards.append(("compose", ("num", "F2147483647", 6, 2), [((p, s), [(tuple(p.index(i) + 1 for i in range(1, 7)), s)]) for p, s in ch]))
    # larger points: all transpositions, rotations and reversals of up to nine legs, undone by their inverse
    for n in (7, 8, 9):
        ident = tuple(range(1, n + 1))
        G = [ident, ident[::-1]] + [ident[k:] + ident[:k] for k in range(1, n)]
        for i, j in itertools.combinations(range(n), 2):
            t = list(ident)
            t[i], t[j] = t[j], t[i]
            G.append(tuple(t))
        G = [(g, s) for g in G for s in (False, True)]
        for f in ("F2147483647", "mpc") if n == 8 or th else ("F2147483647",):
            for ch in chunks(G, 8):
                shards.append(("perms", ("num", f, n, 1), ch, True))
                shards.append(("compose", ("num", f, n, 2), [((p, s), [(tuple(p.index(i) + 1 for i in ident), s)]) for p, s in ch]))
    # independence
    for f in ("mpc", "F2147483647", "Z1009^4", "Q"):
        for ch in chunks([((1, 2, 3, 4), False), ((1, 2, 3, 4), True), ((2, 1, 3, 4), False), ((4, 3, 2, 1), True)] if not th else group(4), 4):
            shards.append(("indep", ("num", f, 4, 1), ch))
    ck.run(worker, shards)
    ck.run(history.worker, history.shards("C10", ck.thorough, light=True))
    ck.rule += "; all sequences of two of 25 changes to a point (thorough: three), everything observed before and between, against a fresh point"
    ck.finish()


if __name__ == "__main__":
    main()
