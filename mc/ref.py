"""Reference model of the kinematics, written independently of /repo: plain nested tuples over any commutative ring.

A massless particle is (a, b, c, d): right spinor with lower index (a, b)^T, left spinor with lower index (c, d).
Momenta are 2x2 matrices with upper indices, P = |l]<r| = [[d b, -d a], [-c b, c a]] (row-major 4-tuples).
"""
import itertools
from fractions import Fraction

import mpmath
import numpy
from pyadic import ModP, PAdic, GaussianRational
from pyadic.field_extension import FieldExtension
from syngular import Field

TOL = mpmath.mpf(10) ** -240


# --- number fields ------------------------------------------------------------------------------
def fields(names):
    return [(n, make_field(n)) for n in names]


def make_field(name):
    if name == "mpc":
        return Field("mpc", 0, 300)
    if name == "Q":
        return Field("rational", 0, 0)
    if name == "Qi":
        return Field("gaussian rational", 0, 0)
    if name[0] == "F":
        return Field("finite field", int(name[1:]), 1)
    if name[0] == "Z":          # Z7^3
        p, k = name[1:].split("^")
        return Field("padic", int(p), int(k))
    raise ValueError(name)


def el(field, x, y=0):
    """The field element x + i y (x, y integers or fractions)."""
    n = field.name
    if n == "mpc":
        return mpmath.mpc(mpmath.mpf(Fraction(x).numerator) / Fraction(x).denominator, mpmath.mpf(Fraction(y).numerator) / Fraction(y).denominator)
    if n == "rational":
        return Fraction(x)
    if n == "gaussian rational":
        return GaussianRational(Fraction(x), Fraction(y))
    if n == "finite field":
        return ModP(Fraction(x).numerator, field.characteristic) / ModP(Fraction(x).denominator, field.characteristic)
    if n == "padic":
        return PAdic(Fraction(x).numerator, field.characteristic, field.digits) / PAdic(Fraction(x).denominator, field.characteristic, field.digits)
    raise ValueError(n)


def arr(rows):
    return numpy.array(rows, dtype=object)


def is_zero(x):
    """Zero: exactly in exact fields, to the known digits p-adically, to working precision for mpc."""
    if isinstance(x, PAdic):
        return x.num == 0
    if isinstance(x, ModP):
        return x.n % x.p == 0
    if isinstance(x, (mpmath.mpc, mpmath.mpf, complex, float)):
        return abs(x) < TOL
    if isinstance(x, FieldExtension):
        return all(is_zero(v) for v in x.dict_.values())
    if isinstance(x, GaussianRational):
        return x.real == 0 and x.imag == 0
    return x == 0


def same(x, y):
    if x is None or y is None:
        return x is None and y is None
    if isinstance(x, (mpmath.mpc, mpmath.mpf)) or isinstance(y, (mpmath.mpc, mpmath.mpf)):
        return abs(x - y) <= TOL * (1 + abs(x) + abs(y))
    return is_zero(x - y)


def same_arr(x, y):
    """x an array of the code under test, y nested reference values of the same shape."""
    if x is None or y is None:
        return x is None and y is None
    if not hasattr(x, "shape"):
        return False
    fx, fy = list(x.flatten()), list(numpy.array(y, dtype=object).flatten())
    return tuple(x.shape) == tuple(numpy.array(y, dtype=object).shape) and all(same(p, q) for p, q in zip(fx, fy))


def key(x):
    """Hashable canonical form of a number."""
    if x is None:
        return None
    if isinstance(x, ModP):
        return x.n % x.p
    if isinstance(x, PAdic):
        return (x.num, x.k, x.n)
    if isinstance(x, FieldExtension):
        return ("ext",) + tuple(sorted((tuple(map(int, k)), int(v)) for k, v in x.dict_.items()))
    if isinstance(x, (mpmath.mpc, mpmath.mpf)):
        return mpmath.nstr(x, 40)
    return str(x)


def in_field(x, field):
    n = field.name
    if n == "finite field":
        return isinstance(x, ModP) and x.p == field.characteristic
    if n == "padic":
        return isinstance(x, PAdic) and x.p == field.characteristic
    if n == "rational":
        return isinstance(x, (Fraction, int))
    if n == "gaussian rational":
        return isinstance(x, (GaussianRational, Fraction, int))
    return isinstance(x, (mpmath.mpc, mpmath.mpf, int, float, complex))


# --- 2x2 matrices and spinors ---------------------------------------------------------------------
def mm(A, B):
    return (A[0] * B[0] + A[1] * B[2], A[0] * B[1] + A[1] * B[3], A[2] * B[0] + A[3] * B[2], A[2] * B[1] + A[3] * B[3])


def vm(v, A):
    return (v[0] * A[0] + v[1] * A[2], v[0] * A[1] + v[1] * A[3])


def mv(A, v):
    return (A[0] * v[0] + A[1] * v[1], A[2] * v[0] + A[3] * v[1])


def dot(v, w):
    return v[0] * w[0] + v[1] * w[1]


def madd(A, B, s=1):
    return tuple(x + s * y for x, y in zip(A, B))


def adj(A):
    return (A[3], -A[1], -A[2], A[0])


def det(A):
    return A[0] * A[3] - A[1] * A[2]


def trace(A):
    return A[0] + A[3]


def gdet(M):
    """Determinant by permutation expansion (any ring)."""
    n = len(M)
    tot = 0
    for perm in itertools.permutations(range(n)):
        inv = sum(1 for i in range(n) for j in range(i + 1, n) if perm[i] > perm[j])
        t = (-1) ** inv
        for i in range(n):
            t = t * M[i][perm[i]]
        tot = tot + t
    return tot


def two_dot(A, B):
    """2 p.q"""
    return A[0] * B[3] + A[3] * B[0] - A[1] * B[2] - A[2] * B[1]


class Ref:
    """A point: list of momenta (upper-index matrices) and, for massless legs, spinors."""

    def __init__(self, spinors=None, momenta=None):
        self.sp = list(spinors) if spinors is not None else None
        if spinors is not None:
            self.P = [(d * b, -(d * a), -(c * b), c * a) for a, b, c, d in self.sp]
        else:
            self.P = [tuple(m) for m in momenta]
        self.n = len(self.P)

    # spinors by name; i is one-based
    def rd(self, i): a, b, c, d = self.sp[i - 1]; return (a, b)
    def ru(self, i): a, b, c, d = self.sp[i - 1]; return (b, -a)
    def ld(self, i): a, b, c, d = self.sp[i - 1]; return (c, d)
    def lu(self, i): a, b, c, d = self.sp[i - 1]; return (d, -c)

    def mom(self, terms, lower):
        """Sum of signed momenta, lower (r2_sp_b) or upper (r2_sp) indices. terms: list of signed ints."""
        tot = None
        for t in terms:
            m = self.P[abs(t) - 1]
            m = m if t > 0 else tuple(-x for x in m)
            tot = m if tot is None else madd(tot, m)
        return adj(tot) if lower else tot

    def total(self):
        return self.mom(range(1, self.n + 1), False)

    def ang(self, i, j): return dot(self.ru(i), self.rd(j))
    def sqr(self, i, j): return dot(self.ld(i), self.lu(j))

    def chain(self, start, mids, end, first="a"):
        """start: 'a'/'s'/None with index, e.g. ('a', 1); mids: list of term lists; end likewise.
        Returns a scalar, a 2-tuple (open at one end) or a 4-tuple (both ends open, first matrix lower index)."""
        if start is not None:
            kind, i = start
            v = self.ru(i) if kind == "a" else self.ld(i)
            lower = kind == "a"
            for m in mids:
                v = vm(v, self.mom(m, lower))
                lower = not lower
            if end is None:
                return v
            kind2, j = end
            # angle row vector (upper alpha) contracts with rd; square row vector (lower alphadot) with lu
            return dot(v, self.rd(j) if kind2 == "a" else self.lu(j))
        if end is not None:
            kind2, j = end
            # |m1|...|mk|j> : last matrix must have lower alpha ... i.e. upper-index r2_sp maps |j> -> |.]
            w = self.rd(j) if kind2 == "a" else self.lu(j)
            lower = kind2 == "s"
            for m in reversed(mids):
                w = mv(self.mom(m, lower), w)
                lower = not lower
            return w
        M, lower = None, True
        for m in mids:
            A = self.mom(m, lower)
            M = A if M is None else mm(M, A)
            lower = not lower
        return M

    def s(self, idx):
        return det(self.mom(list(idx), False))

    def dot2(self, A, B):
        return two_dot(self.mom(list(A), False), self.mom(list(B), False))

    def tr(self, mids):
        M, lower = None, True
        for m in mids:
            A = self.mom(m, lower)
            M = A if M is None else mm(M, A)
            lower = not lower
        return trace(M)

    def tr5(self, a, b, c, d):
        """[a|b|c|d|a> - <a|b|c|d|a] for term lists: trace difference of the two chiralities."""
        up = mm(mm(self.mom(a, True), self.mom(b, False)), mm(self.mom(c, True), self.mom(d, False)))
        dn = mm(mm(self.mom(a, False), self.mom(b, True)), mm(self.mom(c, False), self.mom(d, True)))
        return trace(up), trace(dn)

    def image(self, perm, swap=False):
        """Passive relabelling: leg i of the image is the leg of the original that perm sends to i."""
        order = sorted(range(self.n), key=lambda k: perm[k])
        sp = [self.sp[k] for k in order]
        if swap:
            sp = [(c, d, a, b) for a, b, c, d in sp]
        return Ref(sp)


# --- points -----------------------------------------------------------------------------------------
def conserved_spinors(mk, n, seed, fix=(1, 2), span=19):
    """Deterministic rational spinors with momentum conservation: legs in fix get their right spinors solved for.
    mk(x) makes ring elements of Fractions. A linear congruential stream keeps it independent of `random`."""
    state = (seed * 2654435761 + 12345) % (2 ** 31)

    def nxt():
        nonlocal state
        state = (1103515245 * state + 12345) % (2 ** 31)
        v = (state >> 12) % span - span // 2
        return v if v else span // 2 + 1
    while True:
        sp = [[Fraction(nxt()) for _ in range(4)] for _ in range(n)]
        A, B = fix[0] - 1, fix[1] - 1
        ca, da = sp[A][2:]
        cb, db = sp[B][2:]
        den = ca * db - da * cb
        if den == 0:
            continue
        K = [Fraction(0)] * 4      # sum of upper momenta of the others
        for k, (a, b, c, d) in enumerate(sp):
            if k not in (A, B):
                K = [x + y for x, y in zip(K, (d * b, -d * a, -c * b, c * a))]
        # need  lA ruA + lB ruB = -K with lA=(dA,-cA), ru=(b,-a)
        # columns: for each column j: dA x + dB y = -K[0,j]; -cA x - cB y = -K[1,j]
        ru = []
        for j in range(2):
            r0, r1 = -K[j], -K[2 + j]
            D = -da * cb + db * ca
            x = (r0 * -cb - db * r1) / D
            y = (da * r1 + ca * r0) / D
            ru.append((x, y))
        bA, maA = ru[0][0], ru[1][0]
        bB, maB = ru[0][1], ru[1][1]
        sp[A][:2] = [-maA, bA]
        sp[B][:2] = [-maB, bB]
        ref = Ref([tuple(s) for s in sp])
        assert all(x == 0 for x in ref.total())
        ok = all((n == 3 or ref.ang(i, j) != 0) and ref.sqr(i, j) != 0 for i in range(1, n + 1) for j in range(i + 1, n + 1))
        if ok:
            return [tuple(mk(x) for x in s) for s in sp]


def lips_particle(sp, field):
    from lips import Particle
    a, b, c, d = sp
    return Particle((arr([[a], [b]]), arr([[c, d]])), field=field)


def lips_point(spinors, field, **kw):
    from lips import Particles
    return Particles([lips_particle(s, field) for s in spinors], field=field, fix_mom_cons=False, **kw)


def spinors_of(ps):
    return [(p.r_sp_d[0, 0], p.r_sp_d[1, 0], p.l_sp_d[0, 0], p.l_sp_d[0, 1]) for p in ps]


def snapshot(ps):
    """Everything observable of a point, hashable."""
    out = []
    for p in ps:
        out.append(tuple(None if getattr(p, nm) is None else tuple(key(x) for x in getattr(p, nm).flatten())
                         for nm in ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d")))
    masses = tuple(sorted((m, str(getattr(ps, m))) for m in getattr(ps, "internal_masses", ())))
    return tuple(out), masses, len(ps)


def coherent(p, i_unit=None):
    """Problems with the mutual consistency of one particle's representations ([] if none)."""
    bad = []
    r2, r2b = p.r2_sp, p.r2_sp_b
    if r2 is None or r2b is None:
        return ["no momentum"]
    P = tuple(r2.flatten())
    if not same_arr(r2b, [[P[3], -P[1]], [-P[2], P[0]]]):
        bad.append("r2_sp_b is not r2_sp with both indices lowered")
    if (p.r_sp_d is None) != (p.l_sp_d is None) or (p.r_sp_d is None) != (p.r_sp_u is None) or (p.l_sp_d is None) != (p.l_sp_u is None):
        bad.append("spinors partly undefined")
    elif p.r_sp_d is not None:
        (a, b), (c, d) = p.r_sp_d.flatten(), p.l_sp_d.flatten()
        if p.r_sp_d.shape != (2, 1) or p.l_sp_d.shape != (1, 2):
            bad.append("spinor shapes")
        if not same_arr(p.r_sp_u, [[b, -a]]):
            bad.append("r_sp_u is not r_sp_d with index raised")
        if not same_arr(p.l_sp_u, [[d], [-c]]):
            bad.append("l_sp_u is not l_sp_d with index raised")
        if is_zero(det(P)):
            if not same_arr(r2, [[d * b, -(d * a)], [-(c * b), c * a]]):
                bad.append("spinors do not multiply to the momentum")
    if p.four_mom is not None:
        E, x, y, z = p.four_mom
        i = i_unit
        if i is not None:
            if not same_arr(r2b, [[E + z, x - i * y], [x + i * y, E - z]]):
                bad.append("four-momentum does not match the momentum")
        if p.four_mom_d is None or not same_arr(p.four_mom_d, [E, -x, -y, -z]):
            bad.append("four_mom_d is not four_mom with index lowered")
    elif p.four_mom_d is not None:
        bad.append("four_mom undefined but four_mom_d defined")
    return bad


def i_unit(field):
    """The square root of -1 the number library uses in this field, or None."""
    try:
        n = field.name
        if n == "mpc":
            return mpmath.mpc(0, 1)
        if n == "gaussian rational":
            return GaussianRational(Fraction(0), Fraction(1))
        if n == "finite field":
            return ModP(1, field.characteristic) * 1j
        if n == "padic":
            return PAdic(1, field.characteristic, field.digits) * 1j
    except Exception:
        pass
    return None
