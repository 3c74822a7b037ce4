"""C02: all particle-arithmetic expression trees up to a depth, against linear algebra on momenta."""
import itertools
from fractions import Fraction
from .common import Check, chunks
import lips
from lips import Particle
from lips.tools import ldot
from . import history, ref
from .ref import arr, el, same_arr, same, is_zero, det, coherent, i_unit, two_dot, key

LEAVES = [("sp", (1, 2, 3, 4)), ("sp", (2, -1, 5, 1)), ("sp", (1, 2, -3, -4)), ("sp", (0, 1, 0, 2)), ("sp", (3, 1, 1, -2)),
          ("m", (1, 2, 3, 5)), ("m", (0, 1, 1, 0)), ("m", (0, 0, 0, 0))]
SCAL = [0, 1, -1, 2, -3, Fraction(2, 3)]


def leaf(i, field):
    kind, v = LEAVES[i]
    v = [el(field, x) for x in v]
    if kind == "sp":
        a, b, c, d = v
        return Particle((arr([[a], [b]]), arr([[c, d]])), field=field), (d * b, -(d * a), -(c * b), c * a)
    return Particle(arr([[v[0], v[1]], [v[2], v[3]]]), field=field), tuple(v)


def scal(field, s):
    if isinstance(s, int) or field.name == "gaussian rational":    # GaussianRational * Particle is refused by the number library
        return s
    return el(field, s)


UN = [("neg", None)] + [(op, s) for op in ("mul", "rmul", "div") for s in SCAL if not (op == "div" and s == 0)] + [("add0", None), ("radd0", None), ("sub0", None), ("sum1", None)]
BIN = ["+", "-", "sum", "radd"]


def unary(op, s, p, m, field):
    if op == "neg":
        return -p, tuple(-x for x in m)
    if op == "mul":
        return p * scal(field, s), tuple(x * el(field, s) for x in m)
    if op == "rmul":
        return scal(field, s) * p, tuple(x * el(field, s) for x in m)
    if op == "div":
        return p / scal(field, s), tuple(x / el(field, s) for x in m)
    if op == "add0":
        return p + 0, m
    if op == "radd0":
        return 0 + p, m
    if op == "sub0":
        return p - 0, m
    return sum([p]), m


def binary(op, p, m, q, k):
    if op == "+":
        return p + q, tuple(x + y for x, y in zip(m, k))
    if op == "-":
        return p - q, tuple(x - y for x, y in zip(m, k))
    if op == "radd":
        return q.__radd__(p), tuple(x + y for x, y in zip(m, k))
    return sum([p, q]), tuple(x + y for x, y in zip(m, k))


def snap(p):
    return tuple(None if getattr(p, nm) is None else tuple(key(x) for x in getattr(p, nm).flatten()) for nm in ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom"))


def check(res, label, p, m, field, iu):
    if not same_arr(p.r2_sp, [[m[0], m[1]], [m[2], m[3]]]):
        res.fail(label, "momentum is not the linear combination", got=str(p.r2_sp), want=str(m))
        return
    for b in coherent(p, iu):
        res.fail(label, b)
    if p.field is not field and p.field.name != field.name:
        res.fail(label, "result is in another field")
    d = det(m)
    for nm, v in (("m2", p.m2), ("lsq", p.lsq())):
        if not same(v, d):
            res.fail(label, "%s is not the determinant of the momentum" % nm, got=str(v), want=str(d))
    if p.four_mom is not None and iu is not None:
        E, x, y, z = p.four_mom
        if not same(E * E - x * x - y * y - z * z, d):
            res.fail(label, "Minkowski square of the four-momentum is not the mass squared")
    res.case((field.name, field.characteristic, tuple(key(x) for x in m)), "tree", sample=label if res.evaluations % 5000 == 7 else None)


def products(res, label, p, m, q, k):
    w = two_dot(m, k)
    a, b = ldot(p, q), ldot(q, p)
    if not same(2 * a, w) or not same(2 * b, w):
        res.fail(label, "Lorentz product wrong", got=str(a), want2=str(w))
    res.transitions += 1


def worker(shard, res):
    fname, conv, i, depth2 = shard
    field = ref.make_field(fname)
    iu = i_unit(field) if field.name != "rational" else None
    lips.spinor_convention = conv
    n = len(LEAVES)

    def guard(label, f):
        try:
            return f()
        except Exception as e:
            res.fail(label, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]))
            return None
    # level 1 results, recomputed fresh for each use so that operand mutation is observable
    for j in range(n):
        for op in BIN:
            label = "%s/%s %d %s %d" % (fname, conv, i, op, j)
            res.current = label
            p, m = leaf(i, field)
            q, k = leaf(j, field)
            s0, s1 = snap(p), snap(q)
            r = guard(label, lambda: binary(op, p, m, q, k))
            res.transitions += 1
            if r is None:
                continue
            if (snap(p), snap(q)) != (s0, s1):
                res.fail(label, "operand changed")
            check(res, label, r[0], r[1], field, iu)
            products(res, label + " products", p, m, q, k)
            if op not in ("+", "-"):
                continue
            products(res, label + " bilinear", r[0], r[1], p, m)
            # second level
            for (u, s) in UN:
                lab = label + " then %s %s" % (u, s)
                s2 = snap(r[0])
                r2 = guard(lab, lambda: unary(u, s, r[0], r[1], field))
                res.transitions += 1
                if r2 is None:
                    continue
                if snap(r[0]) != s2:
                    res.fail(lab, "operand changed")
                check(res, lab, r2[0], r2[1], field, iu)
            for l in range(n):
                for op2 in ("+", "-") + (("sum",) if depth2 else ()):
                    lab = label + " %s %d" % (op2, l)
                    q3, k3 = leaf(l, field)
                    s2, s3 = snap(r[0]), snap(q3)
                    r2 = guard(lab, lambda: binary(op2, r[0], r[1], q3, k3))
                    res.transitions += 1
                    if r2 is None:
                        continue
                    if (snap(r[0]), snap(q3)) != (s2, s3):
                        res.fail(lab, "operand changed")
                    check(res, lab, r2[0], r2[1], field, iu)
                    if depth2:
                        for (u, s) in UN:
                            lab2 = lab + " then %s %s" % (u, s)
                            r3 = guard(lab2, lambda: unary(u, s, r2[0], r2[1], field))
                            res.transitions += 1
                            if r3 is not None:
                                check(res, lab2, r3[0], r3[1], field, iu)
    for (u, s) in UN:
        label = "%s/%s %s %s %d" % (fname, conv, u, s, i)
        p, m = leaf(i, field)
        s0 = snap(p)
        r = guard(label, lambda: unary(u, s, p, m, field))
        res.transitions += 1
        if r is None:
            continue
        if snap(p) != s0:
            res.fail(label, "operand changed")
        check(res, label, r[0], r[1], field, iu)
        # the result is independent of the operand
        q = r[0]
        if q.r_sp_d is not None:
            q.r_sp_d = arr([[el(field, 7)], [el(field, 8)]])
        q.r2_sp = arr([[el(field, 1), el(field, 0)], [el(field, 0), el(field, 1)]])
        if snap(p) != s0:
            res.fail(label, "assigning to the result changed the operand")
        for (u2, s2) in UN:
            lab = label + " then %s %s" % (u2, s2)
            p, m = leaf(i, field)
            r = guard(lab, lambda: unary(u2, s2, *unary(u, s, p, m, field), field))
            res.transitions += 1
            if r is not None:
                check(res, lab, r[0], r[1], field, iu)


HISTORY = {"massive": (2, 3, 5, 11), "massive too": (1, 4, 9, 2), "massless": (6, 2, 3, 1), "zero": (0, 0, 0, 0), "negative": (-3, 1, 1, 4)}


def history_worker(shard, res):
    """One particle given one momentum after another, its mass and combinations looked at in between."""
    _, fname, first, depth = shard
    field = ref.make_field(fname)
    iu = i_unit(field) if field.name != "rational" else None
    lips.spinor_convention = "asymmetric"
    nms = ("r2_sp", "r2_sp_b") + (("four_mom", "four_mom_d") if field.name == "mpc" or iu is not None else ())
    ops = [(nm, k) for nm in nms for k in HISTORY] + [("swap", None)]

    def mat(v):
        return arr([[el(field, v[0]), el(field, v[1])], [el(field, v[2]), el(field, v[3])]])
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first,) + rest
        label = "%s given %s" % (fname, ", ".join("%s %s" % o for o in seq))
        res.current = label
        p, q = Particle(mat((1, 2, 4, 3)), field=field), Particle(mat((3, 1, 1, 7)), field=field)
        cur = (1, 2, 4, 3)
        for nm, k in seq:
            look(p, q, field)
            if nm == "swap":
                p.angles_for_squares()
                cur = (cur[0], cur[2], cur[1], cur[3])
            else:
                cur = HISTORY[k]
                setattr(p, nm, getattr(Particle(mat(cur), field=field), nm))
            res.transitions += 1
        d = el(field, cur[0] * cur[3] - cur[1] * cur[2])
        m2, m2s, tot, dif, sq = look(p, q, field)
        s = [x + y for x, y in zip(cur, (3, 1, 1, 7))]
        if not same(m2, d) or (sq is not None and not same(sq, d)):
            res.fail(label, "mass squared is %s, its four-momentum squared %s, the determinant %s" % (m2, sq, d))
        if not same(m2s, el(field, s[0] * s[3] - s[1] * s[2])):
            res.fail(label, "mass squared of the sum with another is %s" % m2s)
        if not ref.same_arr(tot, mat(s)) or not ref.same_arr(dif, mat([2 * x - y for x, y in zip((3, 1, 1, 7), cur)])):
            res.fail(label, "sum or difference with another is not that of the momenta")
        res.case(label, "history")


def look(p, q, field):
    f = p.four_mom
    sq = None if f is None or any(x is None for x in f) else f[0] * f[0] - f[1] * f[1] - f[2] * f[2] - f[3] * f[3]
    return p.m2, (p + q).m2, (p + q).r2_sp, (q * 2 - p).r2_sp, sq


def main():
    ck = Check("C02")
    ck.rule = "every expression tree of depth <= 2 (thorough: 3) over +, -, sum, negation, scaling and division by 6 scalars, on 8 leaf momenta (massless, massive, zero, degenerate frames)"
    shards = []
    for fname in ("F5", "F13", "F2147483629", "F2147483647", "Z13^3", "Z2147483629^3", "mpc", "Q", "Qi"):
        for conv in ("symmetric", "asymmetric"):
            if fname in ("Q", "Qi", "Z13^3") and conv == "symmetric":
                continue
            for i in range(len(LEAVES)):
                shards.append((fname, conv, i, ck.thorough))
    ck.run(worker, shards)
    ck.assumptions += ["(gaussian) rationals only in the asymmetric convention (no square roots available there)", "pyadic, mpmath trusted"]
    for f, d in (("F2147483629", 3 if ck.thorough else 2), ("mpc", 2), ("Q", 2)):
        nms = ("r2_sp", "r2_sp_b") + (("four_mom", "four_mom_d") if f != "Q" else ())
        ck.run(history_worker, [("one", f, o, d) for o in [(nm, k) for nm in nms for k in HISTORY] + [("swap", None)]])
    ck.run(history.worker, history.shards("C02", ck.thorough, light=True))
    ck.rule += "; all sequences of two of 25 changes to a point (thorough: three), everything observed before and between, against a fresh point"
    ck.finish()


if __name__ == "__main__":
    main()
