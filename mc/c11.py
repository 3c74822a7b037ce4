"""C11: the symmetry helpers against brute force, for every small vector of phase weights and every permutation."""
import itertools
from fractions import Fraction
from .common import Check, chunks
import numpy
from lips.symmetries import phase_weights_compatible_symmetries, inverse, identity, all_symmetries
from . import ref
from .ref import el, lips_point, conserved_spinors, snapshot


def expected(w):
    """{permutation: flag}: preserving the weights wins over flipping them (both only if all vanish)."""
    n, out = len(w), {}
    for p in itertools.permutations(range(1, n + 1)):
        im = [w[i - 1] for i in p]
        if im == list(w):
            out["".join(map(str, p))] = False
        elif im == [-x for x in w]:
            out["".join(map(str, p))] = True
    return out


def compose(p, q):
    """first p, then q"""
    return "".join(q[int(c) - 1] for c in p)


def worker(shard, res):
    kind = shard[0]
    if kind == "weights":
        for w in shard[1]:
            want = expected(w)
            forms = [list(w), tuple(w), numpy.array(w)] if len(w) < 5 else [list(w)]
            for form in forms:
                lab = "weights %s as %s" % (w, type(form).__name__)
                res.current = lab
                keep = list(form)
                try:
                    got = phase_weights_compatible_symmetries(form)
                except Exception as e:
                    res.fail(lab, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]))
                    continue
                res.case(lab, "%d symmetries" % len(want), sample="%s -> %d" % (w, len(want)))
                bad = [g for g in got if not (isinstance(g, tuple) and len(g) == 2 and isinstance(g[0], str) and g[1] in (True, False))]
                if bad:
                    res.fail(lab, "not a symmetry: %s" % (bad[:3],))
                    continue
                if len(got) != len(set(g[0] for g in got)):
                    res.fail(lab, "a symmetry is listed twice")
                have = {g[0]: bool(g[1]) for g in got}
                if have != want:
                    res.fail(lab, "missing %s, spurious or wrong flag %s" % (sorted(set(want.items()) - set(have.items()))[:4], sorted(set(have.items()) - set(want.items()))[:4]), weights=list(map(str, w)))
                if list(form) != keep:
                    res.fail(lab, "the argument changed")
                # a group: closed under inverse and composition of the reported symmetries
                for g in got if len(got) <= 48 else got[::37]:
                    i = inverse(g)
                    if compose(g[0], i[0]) != "".join(map(str, range(1, len(w) + 1))) or i[1] != g[1] or have.get(i[0]) != bool(i[1]):
                        res.fail(lab, "inverse of %s is %s" % (g, i))
    elif kind == "all":
        n = shard[1]
        want = ["".join(map(str, p)) for p in itertools.permutations(range(1, n + 1))]
        got = all_symmetries(n)
        res.case(("all", n), "all symmetries", sample="all_symmetries(%d)" % n)
        if sorted(g[0] for g in got) != sorted(want) or any(g[1] for g in got) or identity(n) not in got:
            res.fail("all_symmetries(%d)" % n, "got %d symmetries, expected the %d permutations without exchange" % (len(got), len(want)))
        first, again = len(got), None
        got.clear()
        again = all_symmetries(n)
        if len(again) != first:
            res.fail("all_symmetries(%d)" % n, "the result of one call depends on what the caller did to the previous result")
    elif kind == "inverse":
        n = shard[1]
        idn = "".join(map(str, range(1, n + 1)))
        if identity(n) != (idn, False):
            res.fail("identity(%d)" % n, "got %s" % (identity(n),))
        for p in shard[2]:
            res.current = p
            q = inverse(p)
            res.case(("inverse", p), "inverse", sample=p)
            if not isinstance(q, str) or compose(p, q) != idn or compose(q, p) != idn or inverse(q) != p:
                res.fail("inverse %s" % p, "got %s" % q)
            for s in (False, True):
                r = inverse((p, s))
                if r != (q, s) or type(r) is not tuple or r[1] is not s:
                    res.fail("inverse %s" % ((p, s),), "got %s" % (r,))
    elif kind == "act":
        n = shard[1]
        field = ref.make_field("F2147483647")
        ps = lips_point(conserved_spinors(lambda x: el(field, x), n, 1), field)
        keep = snapshot(ps)
        for p, s in shard[2]:
            lab = "%s then its inverse" % ((p, s),)
            res.current = lab
            res.case(lab, "undone", sample=lab)
            if snapshot(ps.image((p, s)).image(inverse((p, s)))) != keep or snapshot(ps.image(inverse((p, s))).image((p, s))) != keep:
                res.fail(lab, "does not give the point back")
    elif kind == "reject":
        for x in (5, None, ["123", False], 1.5, {"123"}):
            try:
                v = inverse(x)
            except Exception as e:
                res.case(("reject", repr(x)), type(e).__name__, sample=repr(x))
            else:
                res.case(("reject", repr(x)), "value", sample=repr(x))
                if not (isinstance(x, list) and tuple(v) == ("123", False)):
                    res.fail("inverse(%r)" % (x,), "returned %r" % (v,))


def main():
    ck = Check("C11")
    th = ck.thorough
    ck.rule = "every vector of weights over the stated values up to the stated length; every permutation up to n=8 (9 thorough) inverted; every symmetry of up to 5 legs undone on a point"
    shards = []
    W = []
    for n in (1, 2, 3, 4):
        W += list(itertools.product(range(-3, 4), repeat=n) if n < 4 or th else itertools.product((-2, -1, 0, 1, 2), repeat=n))
    W += list(itertools.product((-2, -1, 0, 1) if not th else (-2, -1, 0, 1, 2), repeat=5))
    W6 = list(itertools.product((-1, 0, 1), repeat=6)) if th else [w for w in itertools.product((-1, 0, 1), repeat=6) if w[0] <= w[1]][::3]
    W6 += [(1, -1, 1, -1, 1, -1), (-1, 1, -1, 1, 0, 0), (2, 2, -2, -2, 0, 0), (-1, -1, -1, 1, 1, 1), (2, -2, 1, -1, 0, 0), (0,) * 6]
    W += [(Fraction(1, 2), Fraction(-1, 2), 1, -1), (0.5, -0.5, 0, 0), (10 ** 20, -10 ** 20, 1, -1), (1, -1, 10, -10), (12, 12, -12, -12)]
    for ch in chunks(W, 16):
        shards.append(("weights", ch))
    for ch in chunks(W6, 24):
        shards.append(("weights", ch))
    if th:
        shards += [("weights", [w]) for w in [(1, -1, 1, -1, 1, -1, 0), (0, 0, 0, 1, 1, -1, -1), (1, 2, 3, -1, -2, -3, 0), (2, 2, 2, -2, -2, -2, 0)]]
    for n in range(1, 8 if not th else 9):
        shards.append(("all", n))
    for n in range(1, 9 if not th else 10):
        for ch in chunks(["".join(map(str, p)) for p in itertools.permutations(range(1, n + 1))], 8 if n > 6 else 1):
            shards.append(("inverse", n, ch))
    for n in (3, 4, 5):
        for ch in chunks([("".join(map(str, p)), s) for p in itertools.permutations(range(1, n + 1)) for s in (False, True)], 4):
            shards.append(("act", n, ch))
    shards.append(("reject",))
    ck.run(worker, shards)
    ck.finish()


if __name__ == "__main__":
    main()
