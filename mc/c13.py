"""C13: massive fermion legs: every pair, position, component, order and field; momentum, Dirac equation, self-contractions, components, exchange."""
import itertools
from .common import Check, chunks
import numpy
from . import ref
from .ref import el, Ref, lips_point, conserved_spinors, snapshot, same



def same_arr(a, b):
    return ref.same_arr(numpy.array(a, dtype=object), numpy.array(b, dtype=object))


EPS = ((0, 1), (-1, 0))


def mul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]


def scale(x, A):
    return [[x * y for y in row] for row in A]


def tr(A):
    return [list(r) for r in zip(*A)]


def expected(R, a, b, pos):
    """(right spinor index down, left spinor index down) of the leg made of a and b, both spin components."""
    ra, rb, la, lb = list(R.rd(a)), list(R.rd(b)), list(R.ld(a)), list(R.ld(b))
    if pos == "u":       # |leg^I> = (|a>, |b>), [leg^I| = (-[b|, [a|)
        return tr([ra, rb]), [[-x for x in lb], la]
    return tr([rb, [-x for x in ra]]), [la, lb]        # |leg_I> = (|b>, -|a>), [leg_I| = ([a|, [b|)


def component(rd, ld, comp):
    if comp is all:
        return rd, ld
    return [[row[comp - 1]] for row in rd], [ld[comp - 1]]


def raised(rd, ld):
    return tr(mul(EPS, rd)), mul(EPS, tr(ld))


def name(x):
    return "all" if x is all else x


def mat(m):
    return [[m[0], m[1]], [m[2], m[3]]]


def check_leg(p, R, a, b, comp, lab, res, swapped):
    """Relations of one leg with all spin components, in terms of its mass pairing."""
    rd, ld, ru, lu, P, Pb = p.r_sp_d, p.l_sp_d, p.r_sp_u, p.l_sp_u, p.r2_sp, p.r2_sp_b
    m, mb = -R.ang(a, b), R.sqr(a, b)
    if swapped:
        m, mb = mb, m
    if comp is all:
        if not same_arr(mul(mul(rd, EPS), ld), Pb):
            res.fail(lab, "the massive spinors do not multiply to the momentum of the leg")
        if not same_arr(mul(ru, rd), scale(-m, EPS)) or not same_arr(mul(ld, lu), scale(mb, EPS)):
            res.fail(lab, "the contraction of the leg with itself is not its mass pairing: %s %s" % (mul(ru, rd), mul(ld, lu)))
    for what, got, want in (("P|p> = -m|p]", mul(P, rd), scale(-m, lu)), ("P|p] = -m~|p>", mul(Pb, lu), scale(-mb, rd)), ("<p|P = m[p|", mul(ru, Pb), scale(m, ld)), ("[p|P = m~<p|", mul(ld, P), scale(mb, ru))):
        if not same_arr(got, want):
            res.fail(lab, "Dirac equation %s fails" % what)
    if not same(p.m2, m * mb):
        res.fail(lab, "mass squared is not the product of the pairings")


def worker(shard, res):
    kind, spec = shard[0], shard[1]
    fname, n, seed = spec
    field = ref.make_field(fname)
    sp = conserved_spinors(lambda x: el(field, x), n, seed)
    R = Ref(sp)
    ps = lips_point(sp, field, internal_masses={"mt": el(field, 3)})
    if kind == "legs":
        keep = snapshot(ps)
        for groups, fermions in shard[2]:
            lab = "%s %s %s" % (spec, groups, [(l, q, name(c)) for l, q, c in fermions])
            res.current = lab
            try:
                cl = ps.cluster(groups, massive_fermions=fermions)
            except Exception as e:
                res.fail(lab, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]))
                continue
            res.case(lab, "clustered", sample=lab)
            res.transitions += 1
            if snapshot(ps) != keep:
                res.fail(lab, "the original changed")
                ps = lips_point(sp, field, internal_masses={"mt": el(field, 3)})
            plain = ps.cluster(groups)
            for k in range(1, len(groups) + 1):
                if not same_arr(cl[k].r2_sp, plain[k].r2_sp) or not same_arr(cl[k].r2_sp_b, plain[k].r2_sp_b):
                    res.fail(lab, "momentum %d differs from the clustering without fermions" % k)
            spin = {}
            for k, g in enumerate(groups, 1):
                f = [x for x in fermions if x[0] == k]
                if f:
                    (_, pos, comp), (a, b) = f[0], g
                    rd, ld = component(*expected(R, a, b, pos), comp)
                    ru, lu = raised(rd, ld)
                    p = cl[k]
                    for nm, want in (("r_sp_d", rd), ("l_sp_d", ld), ("r_sp_u", ru), ("l_sp_u", lu)):
                        got = getattr(p, nm)
                        if got.shape != (len(want), len(want[0])) or not same_arr(got, want):
                            res.fail(lab, "%s of leg %d is not the expected spinor" % (nm, k))
                    check_leg(p, R, a, b, comp, lab, res, False)
                    spin[k] = (ru, rd, ld, lu)
                elif len(g) == 1:
                    i = g[0]
                    spin[k] = ([list(R.ru(i))], tr([list(R.rd(i))]), [list(R.ld(i))], tr([list(R.lu(i))]))
            # spinor strings with massive legs at either end
            for i, j in itertools.product(spin, repeat=2):
                for mids in ([], [1], [len(groups)], [1, 2], [2, len(groups), 1]):
                    for s in "⟨[":
                        M, up = (spin[i][0], True) if s == "⟨" else (spin[i][2], False)
                        for q in mids:
                            M = mul(M, mat(R.mom(groups[q - 1], up)))
                            up = not up
                        end = "⟩" if up else "]"
                        want = mul(M, spin[j][1] if up else spin[j][3])
                        t = "|".join([s + str(i)] + [str(q) for q in mids] + [str(j) + end])
                        res.transitions += 1
                        try:
                            got = cl.compute(t)
                        except Exception as e:
                            res.fail(lab + " " + t, "unexpected %s: %s" % (type(e).__name__, str(e)[:150]))
                            continue
                        if not same_arr(numpy.array([[got]], dtype=object) if not isinstance(got, numpy.ndarray) else got.reshape(len(want), len(want[0])), want):
                            res.fail(lab + " " + t, "got %s expected %s" % (str(got)[:100], str(want)[:100]))
            # exchange of left and right, twice
            once = cl.image(("".join(map(str, range(1, len(groups) + 1))), True))
            for rounds in (1, 2, 3):
                for l, pos, comp in fermions:
                    a, b = groups[l - 1]
                    check_leg(once[l], R, a, b, comp, lab + " exchanged %dx" % rounds, res, rounds % 2 == 1)
                    if not same_arr(once[l].r2_sp, cl[l].r2_sp.T if rounds % 2 else cl[l].r2_sp):
                        res.fail(lab, "momentum of leg %d after %d exchanges" % (l, rounds))
                    # documented sign: 'u' flips the new left spinor, 'd' the new right one
                    if rounds == 1 and not (same_arr(once[l].r_sp_d, scale(1 if pos == "u" else -1, tr(cl[l].l_sp_d))) and same_arr(once[l].l_sp_d, scale(-1 if pos == "u" else 1, tr(cl[l].r_sp_d)))):
                        res.fail(lab, "sign of the exchanged spinors of leg %d" % l)
                res.transitions += 1
                once.angles_for_squares()
            for l, pos, comp in fermions:
                a, b = groups[l - 1]
                check_leg(cl[l], R, a, b, comp, lab + " after taking images", res, False)
            for k, g in enumerate(groups, 1):
                if not same_arr(cl[k].r2_sp, plain[k].r2_sp):
                    res.fail(lab, "the clustered point changed while taking images")
    elif kind == "strings":
        for s, mids, e, i, j in shard[2]:
            # leg i stands for (i, i+1) with spin index as decorated: 1st component, lower for angle, upper for square
            beg = {"⟨": "⟨%d_" % i, "[": "[%d^" % i, "⟨p": "⟨%d" % i, "[p": "[%d" % i}[s]
            fin = {"⟩": "%d_⟩" % j, "]": "%d^]" % j, "p⟩": "%d⟩" % j, "p]": "%d]" % j}[e]
            row = {"⟨": lambda: list(R.ru(i + 1)), "[": lambda: [-x for x in R.ld(i + 1)], "⟨p": lambda: list(R.ru(i)), "[p": lambda: list(R.ld(i))}[s]()
            col = {"⟩": lambda: list(R.rd(j + 1)), "]": lambda: [-x for x in R.lu(j + 1)], "p⟩": lambda: list(R.rd(j)), "p]": lambda: list(R.lu(j))}[e]()
            M, up = [row], s[0] == "⟨"
            for m in mids:
                M = mul(M, mat(R.mom(m, up)))
                up = not up
            want = mul(M, [[x] for x in col])[0][0]
            for form in ("{}", "2*{}", "{}+s_12", "({})^2"):
                for alt in (False, True):
                    t = "|".join([beg] + ["+".join(map(str, m)) for m in mids] + [fin])
                    if alt:
                        t = t.replace("_", "d").replace("^", "u")
                    t = form.format(t)
                    w = {"{}": want, "2*{}": want * 2, "{}+s_12": want + R.s([1, 2]), "({})^2": want * want}[form]
                    res.current = t
                    res.case((str(spec), t), "string", sample=t)
                    try:
                        got = ps.compute(t)
                    except Exception as ex:
                        res.fail("string %s" % t, "unexpected %s: %s" % (type(ex).__name__, str(ex)[:150]), string=t)
                        continue
                    if isinstance(got, numpy.ndarray) or not same(got, w):
                        res.fail("string %s" % t, "got %s, expected %s" % (str(got)[:80], str(w)[:80]), string=t)


def main():
    ck = Check("C13")
    th = ck.thorough
    ck.rule = "every ordered pair of legs as a massive fermion, every position and component of one or two fermions, all contractions of legs up to three momenta, exchange up to three times; every decorated spinor string"
    shards = []
    fields = ("F2147483647", "mpc", "Z1009^4")
    GROUPS = ([[1], [2], [3, 4], [5, 6]], [[2], [1], [6, 3], [4, 5]], [[1, 2], [4, 3], [5], [6]], [[1, 6], [2], [5, 3], [4]], [[3], [1, 2], [4], [6, 5]])
    C = [(p, c) for p in "ud" for c in (1, 2, all)]
    for f in fields:
        cases = []
        for a, b in itertools.permutations(range(1, 6), 2):
            rest = [[x] for x in range(1, 6) if x not in (a, b)]
            for at in range(4):
                groups = rest[:at] + [[a, b]] + rest[at:]
                for p, c in (C if at in (0, 3) or th else C[:2]):
                    cases.append((groups, ((at + 1, p, c),)))
        for ch in chunks(cases, 8):
            shards.append(("legs", (f, 5, 1), ch))
        cases = []
        for (p, c), (q, d) in itertools.product(C, repeat=2):
            for groups in GROUPS if th else GROUPS[:3]:
                two = [k for k, g in enumerate(groups, 1) if len(g) == 2]
                cases.append((groups, ((two[0], p, c), (two[1], q, d))))
        for ch in chunks(cases, 8):
            shards.append(("legs", (f, 6, 1), ch))
        shards.append(("legs", (f, 6, 2), [([[1, 2], [3, 4], [5, 6]], ((1, p, all), (2, q, all), (3, r, all))) for p, q, r in itertools.product("ud", repeat=3)]))
        strs = []
        for i, j in itertools.product((1, 3, 5), repeat=2):
            for mids in ([], [[2]], [[1, 2]], [[1, 2], [3]], [[4], [5, 6], [1]]):
                for s in ("⟨", "[", "⟨p", "[p"):
                    up = (s[0] == "⟨") == (len(mids) % 2 == 0)
                    for e in (("⟩", "p⟩") if up else ("]", "p]")):
                        if s in ("⟨", "[") or e in ("⟩", "]"):
                            strs.append((s, mids, e, i, j))
        for ch in chunks(strs, 4):
            shards.append(("strings", (f, 6, 1), ch))
    ck.run(worker, shards)
    ck.finish()


if __name__ == "__main__":
    main()
