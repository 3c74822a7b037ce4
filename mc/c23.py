"""C23: ideals in spinor components and in spinor brackets, against graded linear algebra that does not use Singular, for every symmetry; membership; conversion."""
import itertools
import re
from fractions import Fraction
from .common import Check, chunks
import numpy
import sympy
from . import ref, solver  # noqa: the solver's clock
from .ref import Ref, el, lips_point, spinors_of
from .invstr import value as inv_value

Q = 32003


# ---------------------------------------------------------------- polynomials: {exponents: coefficient mod Q}

class Poly:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    @staticmethod
    def of(x, nv):
        return x if isinstance(x, Poly) else Poly({(0,) * nv: int(x) % Q} if int(x) % Q else {})

    def _nv(self):
        return len(next(iter(self.d))) if self.d else 0

    def __add__(self, o):
        o = Poly.of(o, self._nv()) if not isinstance(o, Poly) else o
        out = dict(self.d)
        for k, v in o.d.items():
            w = (out.get(k, 0) + v) % Q
            if w:
                out[k] = w
            else:
                out.pop(k, None)
        return Poly(out)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: Q - v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = int(Fraction(o).numerator) * pow(int(Fraction(o).denominator), -1, Q) % Q
            return Poly({k: v * o % Q for k, v in self.d.items() if v * o % Q})
        out = {}
        for k, v in self.d.items():
            for l, w in o.d.items():
                m = tuple(x + y for x, y in zip(k, l))
                out[m] = (out.get(m, 0) + v * w) % Q
        return Poly({k: v for k, v in out.items() if v})

    __rmul__ = __mul__

    def __pow__(self, n):
        out = self
        for _ in range(n - 1):
            out = out * self
        return out

    def __truediv__(self, o):
        return self * Fraction(1, o)

    def monic(self):
        k = max(self.d)
        return frozenset((self * Fraction(pow(self.d[k], -1, Q))).d.items())


class Ring:
    """Components a1, b1, c1, d1, a2, ... of n legs, or brackets A1, ..., B1, ...; graded by the number of each letter."""

    def __init__(self, n, letters):
        self.n, self.letters = n, letters
        pairs = n * (n - 1) // 2
        self.names = [x + str(i) for i in range(1, n + 1) for x in letters] if letters == "abcd" else [x + str(i) for x in letters for i in range(1, pairs + 1)]
        self.grade = [letters.index(x[0]) for x in self.names]
        nv = len(self.names)
        self.gens = {x: Poly({tuple(1 if i == j else 0 for j in range(nv)): 1}) for i, x in enumerate(self.names)}
        self.nv = nv
        self._mono = {}

    def degree(self, mono):
        out = [0] * len(self.letters)
        for g, e in zip(self.grade, mono):
            out[g] += e
        return tuple(out)

    def parts(self, f):
        out = {}
        for k, v in f.d.items():
            out.setdefault(self.degree(k), {})[k] = v
        return {D: Poly(d) for D, d in out.items()}

    def monomials(self, D):
        if D not in self._mono:
            per = []
            for g, deg in enumerate(D):
                idx = [i for i in range(self.nv) if self.grade[i] == g]
                per.append([c for c in itertools.combinations_with_replacement(idx, deg)])
            out = []
            for combo in itertools.product(*per):
                e = [0] * self.nv
                for c in combo:
                    for i in c:
                        e[i] += 1
                out.append(tuple(e))
            self._mono[D] = out
        return self._mono[D]

    def parse(self, text):
        text = re.sub(r"(?<![A-Za-z0-9_])(\d+)(?![A-Za-z0-9_])(?!\s*\*\*)", r"F(\1)", text.replace("^", "**").replace("** ", "**"))
        text = re.sub(r"\*\*F\((\d+)\)", r"**\1", text)
        x = eval(text, {"__builtins__": {}, "F": Fraction}, dict(self.gens))
        return x if isinstance(x, Poly) else Poly({(0,) * self.nv: int(x.numerator) * pow(x.denominator, -1, Q) % Q} if x else {})


def rref(M):
    """Row echelon form mod Q: (rows, pivot columns)."""
    M = M % Q
    r, piv = 0, []
    for c in range(M.shape[1]):
        if r == M.shape[0]:
            break
        nz = numpy.nonzero(M[r:, c])[0]
        if not len(nz):
            continue
        k = r + nz[0]
        if k != r:
            M[[r, k]] = M[[k, r]]
        M[r] = M[r] * pow(int(M[r, c]), -1, Q) % Q
        rows = numpy.nonzero(M[:, c])[0]
        rows = rows[rows != r]
        if len(rows):
            M[rows] = (M[rows] - M[rows, c][:, None] * M[r][None, :]) % Q
        piv.append(c)
        r += 1
    return M[:r], piv


class IdealRef:
    """The ideal of homogeneous generators, piece by piece."""

    def __init__(self, ring, gens):
        self.ring, self.cache = ring, {}
        self.gens = []
        for g in gens:
            self.gens += list(ring.parts(g).items())
        self.seen = {g.monic() for _, g in self.gens if g.d}

    def piece(self, D):
        if D not in self.cache:
            cols = {m: i for i, m in enumerate(self.ring.monomials(D))}
            rows = []
            for d, g in self.gens:
                if all(x <= y for x, y in zip(d, D)):
                    for m in self.ring.monomials(tuple(y - x for x, y in zip(d, D))):
                        row = numpy.zeros(len(cols), dtype=numpy.int64)
                        for k, v in g.d.items():
                            row[cols[tuple(x + y for x, y in zip(k, m))]] = v
                        rows.append(row)
            self.cache[D] = (cols,) + (rref(numpy.array(rows)) if rows else (numpy.zeros((0, len(cols)), dtype=numpy.int64), []))
        return self.cache[D]

    def reduce(self, f, D):
        cols, M, piv = self.piece(D)
        row = numpy.zeros(len(cols), dtype=numpy.int64)
        for k, v in f.d.items():
            row[cols[k]] = v
        if len(piv):
            row = (row - (row[piv][:, None] * M % Q).sum(axis=0)) % Q
        return row

    def contains(self, f):
        if not f.d or f.monic() in self.seen:
            return True
        return all(not self.reduce(g, D).any() for D, g in self.ring.parts(f).items())

    def equal(self, other):
        return all(other.contains(g) for _, g in self.gens) and all(self.contains(g) for _, g in other.gens)


# ---------------------------------------------------------------- the reference side

def generic(n):
    R = Ring(n, "abcd")
    sp = [tuple(R.gens[x + str(i)] for x in "abcd") for i in range(1, n + 1)]
    return R, Ref(sp), sp


def polys(R, P, sp, text, n):
    """The components of a covariant (products with *)."""
    out = [Poly({(0,) * R.nv: 1})]
    for part in text.split("*"):
        m = re.fullmatch(r"([⟨\[])(\d)\|", part)
        m2 = re.fullmatch(r"\|(\d)([⟩\]])", part)
        if m:
            a, b, c, d = sp[int(m.group(2)) - 1]
            comp = [b, -a] if m.group(1) == "⟨" else [c, d]
        elif m2:
            a, b, c, d = sp[int(m2.group(1)) - 1]
            comp = [a, b] if m2.group(2) == "⟩" else [d, -c]
        else:
            comp = [inv_value(P, part)]
        out = [x * y for x in out for y in comp]
    return out


def conservation(R, n):
    g = R.gens
    out = []
    for x in "ab":
        for y in "cd":
            s = g[x + "1"] * g[y + "1"]
            for i in range(2, n + 1):
                s = s + g["%s%d" % (x, i)] * g["%s%d" % (y, i)]
            out.append(s)
    return out


def component_ideal(n, cov, mc):
    R, P, sp = generic(n)
    if isinstance(cov, list):
        return R, IdealRef(R, [R.parse(t) for t in cov])
    gens = [f for t in cov for f in polys(R, P, sp, t, n)]
    return R, IdealRef(R, gens + (conservation(R, n) if mc else []))


def relabel(R, f, rule):
    """f'(p') = f(p) for p' the image of p."""
    perm, swap = rule
    letters = {"a": "c", "b": "d", "c": "a", "d": "b"} if swap else {x: x for x in "abcd"}
    src = {}
    for i, name in enumerate(R.names):
        src[i] = R.names.index(letters[name[0]] + perm[int(name[1:]) - 1])
    out = {}
    for k, v in f.d.items():
        e = [0] * R.nv
        for i, x in enumerate(k):
            e[src[i]] = x
        out[tuple(e)] = v
    return Poly(out)


def pairs(n):
    return list(itertools.combinations(range(1, n + 1), 2))


def relabel_brackets(B, f, rule):
    perm, swap = rule
    n = B.n
    sub = {}
    for k, (i, j) in enumerate(pairs(n)):
        x, y = int(perm[i - 1]), int(perm[j - 1])
        sign = 1 if x < y else -1
        q = pairs(n).index((min(x, y), max(x, y))) + 1
        for let, to in (("A", "B"), ("B", "A")):
            s = -sign if swap else sign                                     # ⟨ij⟩ -> [ji]
            sub[B.names.index(let + str(k + 1))] = (B.names.index((to if swap else let) + str(q)), s)
    out = {}
    for k, v in f.d.items():
        e, s = [0] * B.nv, 1
        for i, x in enumerate(k):
            if x:
                e[sub[i][0]] = x
                s *= sub[i][1] ** x
        out[tuple(e)] = v * s % Q
    return Poly(out)


def to_components(R, P, B, f):
    n, out = B.n, Poly({})
    val = [P.ang(i, j) for i, j in pairs(n)] + [P.sqr(i, j) for i, j in pairs(n)]
    for k, v in f.d.items():
        t = Poly({(0,) * R.nv: v})
        for i, x in enumerate(k):
            for _ in range(x):
                t = t * val[i]
        out = out + t
    return out


def kernel_dim(R, P, B, I, D):
    """Dimension of the polynomials of bidegree D in the brackets that lie in the component ideal, on substitution."""
    monos = B.monomials(D)
    CD = (D[0], D[0], D[1], D[1])
    rows = [I.reduce(to_components(R, P, B, Poly({m: 1})), CD) for m in monos]
    return len(monos) - len(rref(numpy.array(rows))[1])


# ---------------------------------------------------------------- what is enumerated

def ideals(n):
    base = [(), ("⟨1|2⟩",), ("[1|2]",), ("⟨1|2⟩", "[1|2]"), ("s_12",), ("⟨1|",), ("|2]",)]
    if n == 3:
        return base + [("⟨1|2⟩", "[1|3]"), ("⟨1|2|3]",)]
    base += [("⟨1|2⟩", "[3|4]"), ("⟨1|2⟩", "⟨1|3⟩"), ("⟨1|2|3]",), ("⟨1|2+3|1]",), ("⟨1|2⟩*[3|4]",), ("⟨2|3⟩", "⟨4|1⟩")]
    if n >= 5:
        base += [("⟨1|2+3|4]",), ("⟨1|2⟩", "⟨3|4⟩", "[1|2]"), ("[1|5]", "⟨2|3⟩")]
    if n >= 6:
        base += [("s_123",), ("⟨1|2+3|4+5|6⟩",), ("⟨1|2+3|4]", "⟨5|6⟩")]
    return base


def queries(n):
    L = range(1, n + 1)
    out = ["⟨%d|%d⟩" % p for p in itertools.permutations(L, 2)] + ["[%d|%d]" % p for p in pairs(n)]
    out += ["s_%d%d" % p for p in pairs(n)] + ["s_%d%d%d" % t for t in itertools.combinations(L, 3)]
    out += ["⟨%d|%d|%d]" % t for t in itertools.permutations(L, 3) if n < 6 or t[0] == 1]
    out += ["⟨%d|%d+%d|%d]" % (i, j, k, l) for i in L for j, k in pairs(n) for l in L if i not in (j, k) and l not in (j, k) and (n < 5 or i <= 2)]
    out += ["⟨%d|" % i for i in L] + ["|%d]" % i for i in L] + ["[%d|" % i for i in L] + ["|%d⟩" % i for i in L]
    out += ["⟨%d|%d⟩*⟨%d|%d⟩" % (p + q) for p in pairs(n) for q in pairs(n) if p <= q and (n < 5 or p[0] == 1)]
    out += ["⟨%d|%d⟩*[%d|%d]" % (p + q) for p in pairs(n) for q in pairs(n) if n < 5 or p[0] == 1]
    out += ["⟨1|%s|%d]" % ("+".join(str(x) for x in L if x != 1), k) for k in L if k != 1]
    out += ["⟨1|2⟩*⟨%d|" % i for i in L] + ["[1|2]*|%d⟩" % i for i in L]
    if n == 4:
        out += ["⟨%d|%d⟩*⟨%d|%d⟩*[%d|%d]" % (p + q + r) for p in pairs(n)[:2] for q in pairs(n)[2:4] for r in pairs(n)[::2]]
    return list(dict.fromkeys(out))


def lips_text(text):
    return "*".join("(%s)" % t if t[0] != "|" and t[-1] != "|" else t for t in text.split("*")) if "*" in text else text


def sums(n):
    """Identities and relations with several terms: (lips expression, component polynomials)."""
    R, P, sp = generic(n)
    out = []
    if n >= 4:
        for i, j, k, l in list(itertools.permutations(range(1, n + 1), 4))[: 24 if n < 6 else 6]:
            out.append(("⟨%d|%d⟩⟨%d|%d⟩+⟨%d|%d⟩⟨%d|%d⟩" % (i, j, k, l, i, k, l, j), [-(P.ang(i, l) * P.ang(j, k))]))
            out.append(("⟨%d|%d⟩[%d|%d]-⟨%d|%d⟩[%d|%d]" % (i, j, j, k, i, l, l, k), [P.ang(i, j) * P.sqr(j, k) - P.ang(i, l) * P.sqr(l, k)]))
            out.append(("⟨%d|%d⟩[%d|%d]+⟨%d|%d⟩[%d|%d]" % (i, j, j, k, i, l, l, k), [P.ang(i, j) * P.sqr(j, k) + P.ang(i, l) * P.sqr(l, k)]))
            out.append(("s_%d%d-s_%d%d" % (i, j, k, l), [P.s([i, j]) - P.s([k, l])]))
    for i in range(1, n + 1):
        ks = [k for k in range(1, n + 1) if k != i]
        x = P.s([i, ks[0]])
        for k in ks[1:]:
            x = x + P.s([i, k])
        out.append(("+".join("s_%d%d" % tuple(sorted((i, k))) for k in ks), [x]))
        y = P.ang(1, 2) * P.ang(i, ks[0])
        out.append(("⟨1|2⟩⟨%d|%d⟩+⟨1|2⟩^2" % (i, ks[0]), [y + P.ang(1, 2) * P.ang(1, 2)]))
    return out


def same_ideal(res, key, desc, gens_text, ring, want, **case):
    """The generators of a lips ideal generate the wanted ideal."""
    try:
        got = IdealRef(ring, [ring.parse(t) for t in gens_text])
    except Exception as e:
        return res.fail(key, "%s: generators cannot be read: %s: %s" % (desc, type(e).__name__, str(e)[:100]), generators=str(gens_text)[:300], **case)
    res.transitions += 1
    if not (got.seen == want.seen or got.equal(want)):
        res.fail(key, "%s: generators do not generate the ideal" % desc, generators=str(gens_text)[:400], **case)


def rules(n):
    return [("".join(map(str, p)), s) for p in itertools.permutations(range(1, n + 1)) for s in (False, True)]


# ---------------------------------------------------------------- workers

def w_images(n, cov, mc, rs, res):
    from lips.algebraic_geometry.covariant_ideal import LipsIdeal
    lab = "n=%d %s%s" % (n, list(cov), "" if mc else " without momentum conservation")
    R, want = component_ideal(n, cov, mc)
    I = LipsIdeal(n, cov) if mc else LipsIdeal(n, cov, momentum_conservation=False)
    same_ideal(res, "build", lab, I.generators, R, want, n=n, covariants=cov)
    before = list(I.generators)
    for r in rs:
        key = res.case("image n=%d" % n, "ok")
        J = I.image(r)
        w = IdealRef(R, [relabel(R, g, r) for _, g in want.gens])
        same_ideal(res, "image", "%s image %s" % (lab, r), J.generators, R, w, n=n, covariants=cov, rule=r)
        K = I(*r)
        same_ideal(res, "image", "%s called with %s" % (lab, r), K.generators, R, w, n=n, covariants=cov, rule=r)
        if J.multiplicity != n:
            res.fail("image", "%s image %s: multiplicity %s" % (lab, r, J.multiplicity), n=n)
        for r2 in (rules(n) if n == 3 else [("2134567"[:n], False), ("234567"[:n - 1] + "1", True), ("1324567"[:n], True)]):
            w2 = IdealRef(R, [relabel(R, g, r2) for _, g in w.gens])
            same_ideal(res, "compose", "%s image %s then %s" % (lab, r, r2), J.image(r2).generators, R, w2, n=n, covariants=cov, rule=r, second=r2)
    if I.generators != before:
        res.fail("image", "%s: taking images changes the ideal" % lab, n=n)


def bracket_reference(n, cov, mc, bidegrees):
    R, P, sp = generic(n)
    _, I = component_ideal(n, cov, mc)
    B = Ring(n, "AB")
    return R, P, B, I, {D: kernel_dim(R, P, B, I, D) for D in bidegrees}


def judge_brackets(res, key, desc, gens, R, P, B, I, dims, **case):
    try:
        got = IdealRef(B, [B.parse(t) for t in gens])
    except Exception as e:
        res.fail(key, "%s: generators cannot be read: %s: %s" % (desc, type(e).__name__, str(e)[:100]), generators=str(gens)[:300], **case)
        return None
    for D, g in got.gens:
        if 2 * sum(D) <= 4 or (D in dims):
            if not I.contains(to_components(R, P, B, g)):
                res.fail(key, "%s: contains a polynomial that does not vanish on the variety" % desc, generators=str(gens)[:300], **case)
                return None
    for D, k in dims.items():
        res.transitions += 1
        if len(got.piece(D)[2]) != k:
            res.fail(key, "%s: %d independent elements of bidegree %s, the variety has %d relations" % (desc, len(got.piece(D)[2]), D, k), generators=str(gens)[:300], **case)
            return None
    return got


def w_brackets(n, cov, mc, rs, bidegrees, slices, res):
    from lips.algebraic_geometry.covariant_ideal import LipsIdeal
    from lips.algebraic_geometry.invariant_ideal import SpinorIdeal
    lab = "n=%d %s%s" % (n, list(cov), "" if mc else " without momentum conservation")
    R, P, B, I, dims = bracket_reference(n, cov, mc, bidegrees)
    args = () if mc else (False,)
    S = SpinorIdeal(n, cov, *args)
    res.case("brackets n=%d" % n, "ok")
    want = judge_brackets(res, "brackets", "SpinorIdeal " + lab, S.generators, R, P, B, I, dims, n=n, covariants=cov)
    L = LipsIdeal(n, cov, *args)
    judge_brackets(res, "slice", "invariant_slice of " + lab, L.invariant_slice().generators, R, P, B, I, dims, n=n, covariants=cov)
    if S.multiplicity != n or SpinorIdeal(S.ring, list(S.generators)).multiplicity != n:
        res.fail("brackets", "SpinorIdeal %s: multiplicity %s" % (lab, S.multiplicity), n=n)
    if want is None:
        return
    for r in rs:
        res.case("bracket image n=%d" % n, "ok")
        w = IdealRef(B, [relabel_brackets(B, g, r) for _, g in want.gens])
        J = S.image(r)
        same_ideal(res, "bracket image", "SpinorIdeal %s image %s" % (lab, r), J.generators, B, w, n=n, covariants=cov, rule=r)
        same_ideal(res, "bracket image", "SpinorIdeal %s called with %s" % (lab, r), S(*r).generators, B, w, n=n, covariants=cov, rule=r)
        for r2 in (rules(n) if n == 3 else [("2134567"[:n], False), ("234567"[:n - 1] + "1", True)]):
            w2 = IdealRef(B, [relabel_brackets(B, g, r2) for _, g in w.gens])
            same_ideal(res, "bracket compose", "SpinorIdeal %s image %s then %s" % (lab, r, r2), J.image(r2).generators, B, w2, n=n, covariants=cov, rule=r, second=r2)
        if slices:
            K = L.image(r).invariant_slice()
            same_ideal(res, "slice of image", "invariant_slice of %s image %s" % (lab, r), K.generators, B, w, n=n, covariants=cov, rule=r)


def w_members(n, cov, mc, qs, kind, multiples, res):
    from lips.algebraic_geometry.covariant_ideal import LipsIdeal
    lab = "n=%d %s%s" % (n, list(cov), "" if mc else " without momentum conservation")
    R, P, sp = generic(n)
    _, I = component_ideal(n, cov, mc)
    L = LipsIdeal(n, cov) if mc else LipsIdeal(n, cov, momentum_conservation=False)
    if kind == "qring":
        L.to_mom_cons_qring()
    for text, comps in qs:
        want = all(I.contains(f) for f in comps)
        try:
            got = text in L
        except Exception as e:
            got = "%s: %s" % (type(e).__name__, str(e)[:80])
        res.case("member n=%d" % n, str(want))
        if got is not want:
            res.fail("member", "%s%s: %s is %sin the ideal, lips says %s" % (lab, " in the quotient ring" if kind == "qring" else "", text, "" if want else "not ", got), n=n, covariants=cov, query=text)
    # generators and their multiples, as polynomials
    for g in list(L.generators) if multiples else []:
        for m in [""] + ["%s%d*" % (x, i) for x in "abcd" for i in range(1, n + 1)]:
            res.case("multiple n=%d" % n, "True")
            if sympy.sympify((m + "(%s)" % g)) not in L:
                res.fail("member", "%s: multiple %s of generator %s is not in the ideal" % (lab, m, g), n=n, covariants=cov)


def w_classes(n, cov, res):
    from lips.algebraic_geometry.covariant_ideal import LipsIdeal
    lab = "n=%d %s" % (n, list(cov))
    R, want = component_ideal(n, cov, True)
    degs = sorted({D for D, _ in want.gens})

    def canon(I):
        out = []
        for D in degs:
            J = I.piece(D)[1]
            out.append(J.tobytes())
        return tuple(out)

    def image(r):
        return IdealRef(R, [relabel(R, g, r) for _, g in want.gens])
    alldegs = {relabel_degree(D, s) for D in degs for s in (False, True)}
    degs = sorted(alldegs)
    from lips.symmetries import all_symmetries                               # permutations, by C11; the equivalence is with respect to those
    table = {r: canon(image(r)) for r in all_symmetries(n)}
    cls = LipsIdeal(n, cov).equivalenceClass
    res.case("classes n=%d" % n, str(len(set(table.values()))))
    bad = [k for k in cls if k not in table]
    if bad:
        return res.fail("classes", "%s: equivalenceClass has keys %s" % (lab, bad[:3]), n=n, covariants=cov)
    if len({table[k] for k in cls}) != len(cls) or {table[k] for k in cls} != set(table.values()):
        return res.fail("classes", "%s: equivalenceClass has %d members representing %d of %d distinct images" % (lab, len(cls), len({table[k] for k in cls}), len(set(table.values()))), n=n, covariants=cov)
    for r, J in cls.items():
        same_ideal(res, "classes", "%s equivalenceClass[%s]" % (lab, r), J.generators, R, image(r), n=n, covariants=cov, rule=r)


def relabel_degree(D, swap):
    return (D[2], D[3], D[0], D[1]) if swap else D


def points(n, cov, count):
    """Conserved points with small integer spinors, on and off the variety: the first of each in the order of the enumeration."""
    small = [(1, 0), (0, 1), (1, 1), (1, 2), (0, 0)]
    R, I = component_ideal(n, cov, True)
    R_, P, sp = generic(n)
    fs = [f for t in cov for f in polys(R_, P, sp, t, n)]
    on, off = [], []
    for lam in itertools.product(small, repeat=n):
        if len({x for x in lam if x != (0, 0)}) < 2:
            continue
        M = sympy.Matrix([[x[0] for x in lam], [x[1] for x in lam]])
        ker = [[int(x * sympy.ilcm(*[y.q for y in v])) for x in v] for v in M.nullspace()]
        if not ker:
            continue
        k = len(ker)
        for u, v in itertools.islice(itertools.product(itertools.product((1, 0, -1), repeat=k), repeat=2), 0, 40):
            c = [sum(u[i] * ker[i][j] for i in range(k)) for j in range(n)]
            d = [sum(v[i] * ker[i][j] for i in range(k)) for j in range(n)]
            pt = [lam[j] + (c[j], d[j]) for j in range(n)]
            vals = [y for s in pt for y in s]
            vanish = all(evaluate(f, vals, Q) == 0 for f in fs)
            (on if vanish else off).append(pt)
        if len(on) >= count * 7 and len(off) >= count * 7:
            break
        if len(on) + len(off) > 6000:
            break
    step = lambda l: l[::max(1, len(l) // count)][:count]                    # noqa: E731
    return step(on), step(off)


def evaluate(f, vals, p):
    t = 0
    for k, v in f.d.items():
        x = v
        for e, y in zip(k, vals):
            if e:
                x = x * pow(y, e, p) % p
        t = (t + x) % p
    return t % p


def w_points(n, cov, rs, count, res):
    """Real points and their real images."""
    from lips.algebraic_geometry.covariant_ideal import LipsIdeal
    field = ref.make_field("F%d" % Q)
    R, P, sp = generic(n)
    B = Ring(n, "AB")
    I = LipsIdeal(n, cov)
    S = I.invariant_slice()
    on, off = points(n, cov, count)
    images = [(r, [R.parse(t) for t in I.image(r).generators], [B.parse(t) for t in S.image(r).generators]) for r in rs]
    sing = [B.parse(t) for t in S.generators]
    for pt in on + off:
        want = pt in on
        ps = lips_point([tuple(el(field, x) for x in s) for s in pt], field)

        def brackets(q):
            return [int(q("⟨%d|%d⟩" % p)) for p in pairs(n)] + [int(q("[%d|%d]" % p)) for p in pairs(n)]
        onS = all(evaluate(g, brackets(ps), Q) == 0 for g in sing)
        if want and not onS:
            res.fail("points", "n=%d %s: a point of the variety is not on the variety of its invariant slice" % (n, list(cov)), n=n, covariants=cov, point=pt)
        for r, comp, br in images:
            q = ps.image(r)
            got = all(evaluate(g, [int(x) for s in spinors_of(q) for x in s], Q) == 0 for g in comp)
            res.case("point n=%d" % n, str(want))
            if got != want:
                res.fail("points", "n=%d %s: the point %s is %son the variety, its image under %s is %son that of the image ideal" % (n, list(cov), pt, "" if want else "not ", r, "" if got else "not "), n=n, covariants=cov, point=pt, rule=r)
            gotS = all(evaluate(g, brackets(q), Q) == 0 for g in br)
            if gotS != onS:
                res.fail("points", "n=%d %s: brackets of the point %s and of its image under %s disagree about lying on the invariant slice" % (n, list(cov), pt, r), n=n, covariants=cov, point=pt, rule=r)


def w_symbols(n, res):
    from lips.algebraic_geometry.tools import lips_covariant_symbols, lips_invariant_symbols, conversionIdeal
    from lips import Particles
    R, P, sp = generic(n)
    B = Ring(n, "AB")
    res.case("symbols", "ok")
    if [str(x) for x in lips_covariant_symbols(n)] != R.names or [str(x) for x in lips_invariant_symbols(n)] != B.names:
        return res.fail("symbols", "n=%d: symbols %s %s" % (n, lips_covariant_symbols(n), lips_invariant_symbols(n)), n=n)
    ps = Particles(n)
    ps.make_analytical_d()
    comps = [str(x) for s in spinors_of(ps) for x in s]
    if comps != R.names:
        res.fail("symbols", "n=%d: make_analytical_d gives components %s" % (n, comps), n=n)
    # conversion: the ideal generated by bracket - symbol
    both = Ring(n, "abcd")
    both.letters = "abcdAB"
    both.names = R.names + B.names
    both.grade = ["abcdAB".index(x[0]) for x in both.names]
    both.nv = len(both.names)
    both.gens = {x: Poly({tuple(1 if i == j else 0 for j in range(both.nv)): 1}) for i, x in enumerate(both.names)}
    P2 = Ref([tuple(both.gens[x + str(i)] for x in "abcd") for i in range(1, n + 1)])
    want = {(P2.ang(*p) - both.gens["A%d" % (k + 1)]).monic() for k, p in enumerate(pairs(n))} | {(P2.sqr(*p) - both.gens["B%d" % (k + 1)]).monic() for k, p in enumerate(pairs(n))}
    C = conversionIdeal(n)
    if [str(x) for x in C.ring.variables] != both.names:
        res.fail("symbols", "n=%d: conversionIdeal ring %s" % (n, C.ring.variables), n=n)
    got = {both.parse(t).monic() for t in C.generators}
    if got != want:
        res.fail("symbols", "n=%d: conversionIdeal generators disagree with the brackets: %s" % (n, str(C.generators)[:200]), n=n)


def worker(shard, res):
    kind = shard[0]
    res.current = str(shard)[:150]
    fn = {"images": w_images, "brackets": w_brackets, "members": w_members, "classes": w_classes, "points": w_points, "symbols": w_symbols}[kind]
    try:
        fn(*shard[1:], res)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "lips/" in f.filename or "syngular" in f.filename]
        if not where:
            raise
        res.fail("raises", "%s: %s: %s" % (str(shard)[:120], type(e).__name__, str(e)[:120]), shard=str(shard)[:300])


def main():
    ck = Check("C23")
    T = ck.thorough
    ck.rule = "every symmetry of 3 to 5 particles (6: the generators of the group and, thorough, all) on every ideal of the list, compositions, every bracket and composite covariant as a membership query, equivalence classes, small-integer points on and off each variety with their images"
    sh = [("symbols", n) for n in range(3, 8)]
    for n in (3, 4, 5, 6):
        rs = rules(n)
        R, P, sp = generic(n)
        qs = [(lips_text(t), polys(R, P, sp, t, n)) for t in queries(n)] + sums(n)
        for k, cov in enumerate(ideals(n)):
            if k == 0:
                for raw in (["b1"], ["a1*d2", "c3"], ["a1*c2-a2*c1", "b1*d3"], ["b1", "c2", "d2"]):
                    sh.append(("images", n, raw, True, rs if n < 5 else rs[::7 if n == 5 else 97]))
                    sh.append(("members", n, raw, True, qs if n < 5 else qs[::2 if n == 5 else 9] + [(q, p) for q, p in qs if q[0] == "|" or q[-1] == "|"], "ring", n < 5))
            if n == 6 and not T:
                some = rs[::97]
                sh.append(("images", n, cov, True, some))
                if k % 3 == 0:
                    sh.append(("members", n, cov, True, qs[::9], "ring", False))
                continue
            fewer = n == 5 and k >= 6 and not T
            for ch in chunks(rs[::5] if fewer else rs, 1 if n < 5 or fewer else 4):
                sh.append(("images", n, cov, True, ch))
            for i, ch in enumerate(chunks(qs[::3] if fewer else qs, 1 if n < 5 else 2 if fewer else 4)):
                sh.append(("members", n, cov, True, ch, "ring", i == 0))
            if n < 6:
                if k < 5:
                    sh.append(("images", n, cov, False, rs[::7]))
                    sh.append(("members", n, cov, True, qs[::3], "qring", False))
                    sh.append(("members", n, cov, False, qs[::3], "ring", False))
                sh.append(("classes", n, cov))
                bi = [(1, 0), (0, 1), (2, 0), (1, 1), (0, 2)] + ([(3, 0), (2, 1), (1, 2), (0, 3)] if T and n < 5 else [])
                open_ = any(t[0] == "|" or t[-1] == "|" for t in cov)
                for ch in chunks(rs if n < 5 or T else rs[::5], 1 if n < 5 else 4):
                    sh.append(("brackets", n, cov, True, ch, bi, (n < 5 or T) and not (open_ and n > 4)))
                if k < 5:
                    sh.append(("brackets", n, cov, False, rs[::11], bi, False))
                for ch in chunks(rs if n < 5 or T else rs[::13], 1 if n < 5 else 2):
                    sh.append(("points", n, cov, ch, 6 if not T else 20))
    sh.sort(key=lambda s: (-s[1], s[0]))
    ck.run(worker, sh)
    ck.notes["reference"] = "the reference decides membership and equality of graded ideals by linear algebra modulo %d in each multidegree, without Singular" % Q
    ck.assumptions += ["Singular (through syngular) computes Groebner bases and eliminations", "ideals generated by polynomials of definite degree in the angle and in the square spinors"]
    ck.finish()


if __name__ == "__main__":
    main()
