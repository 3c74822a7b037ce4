"""C21: symbolic points (every component pattern), substitution (every value of small fields, every split in two steps) and field casts against numeric evaluation."""
import itertools
from fractions import Fraction
from .common import Check, chunks
import mpmath
import sympy
from lips import Particles
from lips.algebraic_geometry import particles_singular_variety as psv
from . import ref
from .ref import arr, el, Ref, lips_point, conserved_spinors, same, same_arr, coherent, i_unit, in_field, spinors_of
from .c06 import generic
from .c10 import invariants, show, value

COMP = "abcd"


def more(n):
    """Invariants as (text, function of a reference point)."""
    out = [(show(i), lambda R, i=i: value(R, i)) for i in invariants(n)]
    legs = range(1, n + 1)
    out += [("⟨%d|%d|%d]" % (i, k, j), lambda R, i=i, j=j, k=k: R.chain(("a", i), [[k]], ("s", j))) for i, k, j in itertools.permutations(legs, 3)]
    for i, j, k in itertools.permutations(legs, 3):
        out += [("⟨%d|%d+%d|%d]" % (i, j, k, i), lambda R, i=i, j=j, k=k: R.chain(("a", i), [[j, k]], ("s", i))),
                ("⟨%d|%d|%d|%d⟩" % (i, j, k, i), lambda R, i=i, j=j, k=k: R.chain(("a", i), [[j], [k]], ("a", i)))]
    out += [("⟨1|2⟩^2*[1|2]-3*s_12", lambda R: R.ang(1, 2) ** 2 * R.sqr(1, 2) - 3 * R.s([1, 2])),
            ("-⟨2|1⟩**3+(s_13-s_23)^2", lambda R: -R.ang(2, 1) ** 3 + (R.s([1, 3]) - R.s([2, 3])) ** 2),
            ("5/3*[2|3]", lambda R: R.sqr(2, 3) * 5 / 3)]
    return out


def ratios():
    return [("⟨1|2⟩/[2|3]", lambda R: R.ang(1, 2) / R.sqr(2, 3)), ("s_12/(⟨1|3⟩*[1|2])+1/s_23", lambda R: R.s([1, 2]) / (R.ang(1, 3) * R.sqr(1, 2)) + 1 / R.s([2, 3])),
            ("(⟨1|2⟩[2|3])/(⟨3|1⟩^2)", lambda R: R.ang(1, 2) * R.sqr(2, 3) / R.ang(3, 1) ** 2)]


def cast(field, x):
    """A sympy number in the field."""
    x = sympy.sympify(x)
    if field.name == "mpc":
        re, im = sympy.N(x.expand() if x.is_Add or x.is_Mul or x.is_Pow else x, 320).as_real_imag()
        return mpmath.mpc(mpmath.mpf(re), mpmath.mpf(im))
    x = sympy.Rational(x)
    return el(field, Fraction(int(x.p), int(x.q)))


def into(field, x):
    """A number of another field in this one (the reference cast)."""
    if isinstance(x, ref.PAdic):
        if field.name == "padic":
            return x
        if x.n < 0:
            raise ZeroDivisionError
        return ref.ModP(0 if x.n > 0 else x.num, field.characteristic)
    if isinstance(x, ref.ModP):
        return el(field, int(x.n)) if field.name == "padic" else x
    if isinstance(x, ref.GaussianRational):
        if field.name == "gaussian rational":
            return x
        return el(field, x.real) + (el(field, x.imag) * i_unit(field) if x.imag != 0 else 0)
    if isinstance(x, (mpmath.mpc, mpmath.mpf)):
        return mpmath.mpc(x)
    return el(field, Fraction(x))


def sym(i, k, names=COMP):
    return sympy.Symbol(names[k] + str(i))


def check_pattern(ps, sp, pattern, lab, res, names=COMP):
    """The symbolic components are the expected symbols, the others unchanged, and derived representations follow."""
    want = []
    for i, s in enumerate(sp):
        want.append(tuple(sym(i + 1, k, names) if pattern[4 * i + k] == 0 else s[k] for k in range(4)))
    got = spinors_of(ps)
    for i, (g, w) in enumerate(zip(got, want)):
        for k in range(4):
            sw = isinstance(w[k], sympy.Symbol)
            if (isinstance(g[k], sympy.Basic) != sw) or (sw and g[k] != w[k]) or (not sw and not same(g[k], w[k])):
                res.fail(lab, "component %s%d is %s, expected %s" % (COMP[k], i + 1, g[k], w[k]))
                return False
    for i, p in enumerate(ps):
        a, b, c, d = got[i]
        if [x for x in p.r_sp_u.flatten()] != [b, -a] or [x for x in p.l_sp_u.flatten()] != [d, -c]:
            res.fail(lab, "raised spinors of leg %d" % (i + 1))
        exp = [d * b, -(d * a), -(c * b), c * a]
        if any(not eq(x, y, ps.field) for x, y in zip(p.r2_sp.flatten(), exp)) or any(not eq(x, y, ps.field) for x, y in zip(p.r2_sp_b.flatten(), [a * c, a * d, b * c, b * d])):
            res.fail(lab, "momentum of leg %d" % (i + 1))
    return True


def eq(x, y, field=None):
    d = x - y
    if isinstance(d, sympy.Basic):
        d = sympy.expand(d)
        if field is None or field.characteristic == 0:
            return all(abs(c) < 1e-200 for c in sympy.Poly(d).coeffs()) if d.free_symbols and d.has(sympy.Float) else d == 0
        m = field.characteristic ** field.digits
        return all(int(c.p) % m == 0 for c in (sympy.Poly(d).coeffs() if d.free_symbols else [sympy.Rational(d)]))
    return ref.is_zero(d)


def check_numeric(ps, sp, field, lab, res, iu):
    """All components are those numbers, in the field, and representations agree."""
    got = spinors_of(ps)
    for i, (g, w) in enumerate(zip(got, sp)):
        for k in range(4):
            if not in_field(g[k], field):
                res.fail(lab, "component %s%d = %r is not in the field" % (COMP[k], i + 1, g[k]))
                return False
            if not same(g[k], w[k]):
                res.fail(lab, "component %s%d is %s, expected %s" % (COMP[k], i + 1, g[k], w[k]))
                return False
    for i, p in enumerate(ps):
        for b in coherent(p, iu):
            res.fail(lab, "leg %d: %s" % (i + 1, b))
    return True


def numeric(fname, n, seed=1):
    field = ref.make_field(fname)
    return field, conserved_spinors(lambda x: el(field, x), n, seed)


def worker(shard, res):
    kind = shard[0]
    if kind == "identity":
        # the symbolic value is the polynomial the contraction gives; substitution then gives the numeric value
        _, fname, n, part, parts = shard
        field, sp = numeric(fname, n)
        ps = lips_point(sp, field, internal_masses={"mt": el(field, 5), "m_Q": "(s_12+s_23)"})
        sy = lips_point(sp, field, internal_masses={"mt": el(field, 5), "m_Q": "(s_12+s_23)"})
        sy.make_analytical_d()
        check_pattern(sy, sp, (0,) * (4 * n), "%s n=%d all symbolic" % (fname, n), res)
        G = generic(n)
        ring = G[0][0].ring
        RG, RN = Ref(G), Ref(sp)
        subs = ps.analytical_subs_d()
        want = {sym(i + 1, k): sp[i][k] for i in range(n) for k in range(4)}
        if set(subs) != set(want) or any(not same(subs[s], want[s]) for s in want):
            res.fail("%s n=%d" % (fname, n), "analytical_subs_d is not the dictionary of the spinor components")
        texts = [(t, f, True) for t, f in more(n)] + [(t, f, False) for t, f in ratios()]
        for t, f, poly in texts[part::parts]:
            lab = "%s n=%d %s" % (fname, n, t)
            res.current = lab
            res.transitions += 2
            x = sy.compute(t)
            if poly:
                if ring.from_expr(sympy.expand(x)) != f(RG):
                    res.fail(lab, "the symbolic value is %s" % str(x)[:200])
            y = ps.compute(t)
            try:
                z = cast(field, sympy.sympify(x).subs(subs))
            except ZeroDivisionError:
                res.case(("id", fname, n, t), "pole")
                continue
            if not same(z, y) or not same(y, f(RN)):
                res.fail(lab, "substituting gives %s, numeric evaluation %s, expected %s" % (str(z)[:60], str(y)[:60], str(f(RN))[:60]))
            res.case(("id", fname, n, t), "polynomial" if poly else "ratio", sample=lab)
        for t, w in (("mt", 5), ("m_Q", None), ("mt*⟨1|2⟩", None), ("m_Q-s_12", None)):
            x, y = sy.compute(t), ps.compute(t)
            z = x if not isinstance(x, sympy.Basic) else cast(field, x.subs(subs))
            if not same(z, y):
                res.fail("%s n=%d %s" % (fname, n, t), "with internal masses: substituting gives %s, numeric evaluation %s" % (z, y))
            res.case(("id", fname, n, t), "internal mass")
        if not check_numeric(ps, sp, field, "%s n=%d" % (fname, n), res, i_unit(field)):
            res.fail("%s n=%d" % (fname, n), "analytical_subs_d changed the point")
    elif kind == "patterns":
        _, fname, n, patterns, names = shard
        field, sp = numeric(fname, n)
        iu = i_unit(field)
        full = {sym(i + 1, k, names): sp[i][k] for i in range(n) for k in range(4)}
        R = Ref(sp)
        for pat in patterns:
            lab = "%s n=%d indepVars=%s symbols=%s" % (fname, n, "".join(map(str, pat)), "".join(names))
            res.current = lab

            def make():
                p = lips_point(sp, field, internal_masses={"mt": el(field, 5), "m_Q": "s_12"})
                p.make_analytical_d(indepVars=pat, symbols=tuple(names)) if names != COMP or sum(pat) % 2 else p.make_analytical_d(pat)
                return p
            ps = make()
            res.transitions += 1
            if not check_pattern(ps, sp, pat, lab, res, names):
                continue
            for t, f in (("⟨1|2⟩", lambda R: R.ang(1, 2)), ("⟨1|2|3]", lambda R: R.chain(("a", 1), [[2]], ("s", 3))), ("s_12", lambda R: R.s([1, 2]))):
                x = ps.compute(t)
                if isinstance(x, sympy.Basic):
                    x = cast(field, x.subs(full))
                if not same(x, f(R)):
                    res.fail(lab, "%s partly symbolic gives %s" % (t, x))
            ps.subs(full)
            check_numeric(ps, sp, field, lab + " subs", res, iu)
            if not same(ps.mt, el(field, 5)) or ps.m_Q != "s_12" or ps.internal_masses != {"mt", "m_Q"}:
                res.fail(lab, "substitution changed the internal masses")
            if ps.compute("⟨1|2⟩") is None or not same(ps.compute("⟨1|2⟩"), R.ang(1, 2)):
                res.fail(lab, "value after substitution")
            # in two steps: first the legs or components in the set, then the rest
            for cut in range(5):
                first = {s: v for s, v in full.items() if (names.index(s.name[0]) < cut if cut < 4 else int(s.name[1:]) % 2)}
                rest = {str(s): v for s, v in full.items() if s not in first}
                ps = make()
                ps.subs(first)
                mid = tuple(1 if (pat[4 * i + k] or sym(i + 1, k, names) in first) else 0 for i in range(n) for k in range(4))
                if not check_pattern(ps, sp, mid, lab + " subs of part %d" % cut, res, names):
                    continue
                ps.subs(rest)
                check_numeric(ps, sp, field, lab + " subs in two steps %d" % cut, res, iu)
                res.transitions += 2
            res.case((fname, n, pat, names), "pattern %d symbols" % (len(pat) - sum(pat)), sample=lab)
    elif kind == "line":
        # components are polynomials in t; every value of t
        _, fname, comps, values = shard
        field = ref.make_field(fname)
        iu = i_unit(field)
        t, u = sympy.symbols("t u")
        n = len(comps)
        for symbols in (("t",), ("t", "u")):
            for v in values:
                for w in (values[:3] if len(symbols) > 1 else (0,)):
                    lab = "%s %s at t=%s u=%s" % (fname, comps, v, w)
                    res.current = lab

                    def poly(c, x, y):
                        out = 0
                        for k, co in enumerate(c):
                            out = out + co * x ** k
                        return out + (y if len(symbols) > 1 else 0)
                    ps = lips_point([tuple(el(field, 1) for _ in range(4)) for _ in comps], field)
                    for p, cs in zip(ps, comps):
                        p.r_sp_d = arr([[poly(cs[0], t, u)], [poly(cs[1], t, u)]])
                        p.l_sp_d = arr([[poly(cs[2], t, u), poly(cs[3], t, u)]])
                    ps.mt = t ** 2
                    ps.m_b = 2 * t + 3
                    ps.subs({"t": v} if v % 2 else {t: v})
                    if len(symbols) > 1:
                        ps.subs({u: w})
                    fe = lambda x: el(field, x)
                    sp = [tuple(poly([fe(co) for co in c], fe(v), fe(w)) for c in cs) for cs in comps]
                    sp = [tuple(x if in_field(x, field) else fe(x) for x in s) for s in sp]
                    check_numeric(ps, sp, field, lab, res, iu)
                    for nm, x in (("mt", fe(v) * fe(v)), ("m_b", fe(v) * 2 + 3)):
                        if not in_field(getattr(ps, nm), field) or not same(getattr(ps, nm), x):
                            res.fail(lab, "internal mass %s is %r" % (nm, getattr(ps, nm)))
                    R = Ref(sp)
                    if n > 1 and (not same(ps.compute("⟨1|2⟩"), R.ang(1, 2)) or not same(ps.compute("s_12"), R.s([1, 2]))):
                        res.fail(lab, "values after substitution")
                    res.transitions += 1
                    res.case((fname, str(comps), v, w, len(symbols)), "line value", sample=lab)
    elif kind == "cast":
        _, chain, n, groups, fermions = shard
        A = ref.make_field(chain[0])
        sp = next(sp for sp in (conserved_spinors(lambda x: el(A, x), n, seed) for seed in range(1, 50)) if units(sp))
        lab0 = " -> ".join(chain) + " n=%d %s %s" % (n, groups or "", [f[:2] + (str(f[2]),) for f in fermions] if fermions else "")
        res.current = lab0
        masses = {"mt": el(A, Fraction(7, 3)), "m_Q": "(s_12+s_23)/2"}

        def make():
            p = lips_point(sp, A, internal_masses=dict(masses))
            return p.cluster(groups, massive_fermions=fermions) if groups else p
        ps, src = make(), make()
        m = len(ps)
        exact = {p: (tuple(getattr(src[p], nm) for nm in ("r_sp_d", "l_sp_d", "r2_sp"))) for p in range(1, m + 1)}
        for step, name in enumerate(chain[1:]):
            B = ref.make_field(name)
            try:
                ps.to_field(B)
            except Exception as e:
                res.fail(lab0, "cast to %s raises %s: %s" % (name, type(e).__name__, str(e)[:120]))
                return
            res.transitions += 1
        iu = i_unit(B)
        if ps.field != B or any(p.field != B for p in ps) or len(ps) != m or set(ps.internal_masses) != set(src.internal_masses):
            res.fail(lab0, "field of the point %s, of the particles %s" % (ps.field, [p.field for p in ps]))
        for i in range(1, m + 1):
            p = ps[i]
            massless = not groups or len(groups[i - 1]) == 1
            if not all(in_field(x, B) for x in p.r2_sp.flatten()) or not all(same(residue(x) if lossy(chain) else x, y if lossy(chain) else into(B, y)) for x, y in zip(p.r2_sp.flatten(), exact[i][2].flatten())):
                res.fail(lab0, "momentum of leg %d is %s" % (i, p.r2_sp))
            if massless or hasattr(src[i], "spin_index"):
                for got, want in ((p.r_sp_d, exact[i][0]), (p.l_sp_d, exact[i][1])):
                    if got is None or got.shape != want.shape or not all(in_field(x, B) and same(x, into(B, y)) for x, y in zip(got.flatten(), want.flatten())):
                        res.fail(lab0, "spinors of leg %d are %s" % (i, got))
            if massless:
                for b in coherent(p, iu):
                    res.fail(lab0, "leg %d: %s" % (i, b))
            else:
                a, b, c, d = p.r2_sp.flatten()
                if not same_arr(p.r2_sp_b, [[d, -b], [-c, a]]):
                    res.fail(lab0, "lowered momentum of leg %d" % i)
                if getattr(p, "spin_index", None) != getattr(src[i], "spin_index", None):
                    res.fail(lab0, "spin index of leg %d" % i)
        if not in_field(ps.mt, B) or not same(ps.mt, into(B, masses["mt"])):
            res.fail(lab0, "internal mass is %r" % (ps.mt,))
        if groups:
            texts = ["s_12", "s_23", "s_13", "m_2", "m_3", "⟨1|2|4]", "⟨1|2+3|4]", "⟨1|2|3|4⟩", "[1|3|2|4]", "⟨1|2|3|2|4]", "tr(1|2)", "tr(1+2|3)", "Δ_1|2|34", "⟨1|4⟩", "[1|4]", "mt*s_12"] if m == 4 else ["s_12", "m_1", "m_2"]
            if fermions:
                texts += ["⟨1|𝟐⟩", "[𝟐|1]", "⟨𝟐|1|4]", "⟨1|4|𝟐]"]
        else:
            texts = [t for t, f in more(n)] + ["mt", "m_Q", "mt*⟨1|2⟩+m_Q"]
        for t in texts:
            res.current = lab0 + " " + t
            try:
                x, y = ps.compute(t), src.compute(t)
            except Exception as e:
                res.fail(lab0 + " " + t, "raises %s: %s" % (type(e).__name__, str(e)[:120]))
                continue
            try:
                ok = (x.shape == y.shape and all(in_field(u, B) and same(u, into(B, v)) for u, v in zip(x.flatten(), y.flatten()))) if hasattr(y, "shape") else in_field(x, B) and same(x, into(B, y))
            except ZeroDivisionError:
                ok = True
            if not ok and not lossy(chain):
                res.fail(lab0 + " " + t, "cast point gives %s, cast of the value is %s" % (str(x)[:80], str(y)[:80]))
            if lossy(chain) and not hasattr(y, "shape"):
                if not same(residue(x), y):
                    res.fail(lab0 + " " + t, "cast point gives %s, modulo p %s" % (str(x)[:80], y))
            res.transitions += 1
            res.case((chain, n, str(groups), str(fermions), t), "cast" if not groups else "massive cast", sample=lab0 + " " + t)
    elif kind == "helpers":
        _, p, k, n = shard
        if not all(hasattr(psv, h) for h in ("padic_to_finite_field", "finite_field_to_padic", "update_particles")):
            return
        Z, F = ref.make_field("Z%d^%d" % (p, k)), ref.make_field("F%d" % p)
        for seed in range(1, 4):
            lab = "p=%d k=%d n=%d seed %d" % (p, k, n, seed)
            res.current = lab
            sp = conserved_spinors(lambda x: el(Z, x), n, seed)
            if not units(sp):
                continue
            ps = lips_point(sp, Z)
            psv.padic_to_finite_field(ps)
            check_numeric(ps, [tuple(into(F, x) for x in s) for s in sp], F, lab + " padic_to_finite_field", res, None)
            psv.finite_field_to_padic(ps)
            low_ = [tuple(el(Z, int(into(F, x).n)) for x in s) for s in sp]
            for i, (g, w) in enumerate(zip(spinors_of(ps), low_)):
                if not all(in_field(x, Z) and same(x, y) for x, y in zip(g, w)):
                    res.fail(lab + " finite_field_to_padic", "leg %d is %s, expected %s" % (i + 1, g, w))
            if not same(ps.compute("⟨1|2⟩"), Ref(low_).ang(1, 2)):
                res.fail(lab + " finite_field_to_padic", "⟨1|2⟩")
            other = conserved_spinors(lambda x: el(Z, x), n, seed + 10)
            ps = lips_point(sp, Z)
            d = {"%s%d" % (COMP[c], i + 1): other[i][c] for i in range(n) for c in range(4)}
            psv.update_particles(ps, d)
            check_numeric(ps, other, Z, lab + " update_particles", res, i_unit(Z))
            res.transitions += 3
            res.case((p, k, n, seed), "helper", sample=lab)


def units(sp):
    """No p-adic component or momentum entry of a leg has positive valuation (the number library reduces the unit part)."""
    return all(x.n == 0 or x.num == 0 for s in sp for x in s if isinstance(x, ref.PAdic))


def lossy(chain):
    """From a finite field to p-adic numbers: only the residues are determined."""
    return any(a[0] == "F" and b[0] == "Z" for a, b in zip(chain, chain[1:]))


def residue(x):
    return ref.ModP(0 if x.n > 0 else x.num, x.p) if isinstance(x, ref.PAdic) and x.n >= 0 else x


def shared_worker(shard, res):
    """Legs that were given one another's spinors: each still becomes symbolic, or is substituted, on its own, and so is a second point with the same spinors."""
    _, fname, nm = shard
    n = 4
    for i, j in itertools.permutations(range(n), 2):
        for pat in [(0,) * 16, (1, 1, 1, 1) + (0,) * 12, (0,) * 12 + (1, 1, 1, 1), (0, 1, 0, 1) * 4, (1, 0, 0, 1, 0, 1, 1, 0) * 2]:
            lab = "%s %s of leg %d given to leg %d, pattern %s" % (fname, nm, j + 1, i + 1, "".join(map(str, pat)))
            res.current = lab
            field, sp = numeric(fname, n)
            ps, other = lips_point(sp, field), lips_point(sp, field)
            setattr(ps[i + 1], nm, getattr(ps[j + 1], nm))
            for k in range(1, n + 1):
                setattr(other[k], nm, getattr(ps[k], nm))
            now = spinors_of(ps)
            there = ref.snapshot(other)
            ps.make_analytical_d(pat)
            if not check_pattern(ps, now, pat, lab, res):
                continue
            if ref.snapshot(other) != there:
                res.fail(lab, "another point changed when this one was made symbolic")
            for k in range(1, n + 1):
                setattr(other[k], nm, getattr(ps[k], nm))
            held = [[str(x) for x in getattr(other[k], nm).flatten()] for k in range(1, n + 1)]
            ps.subs({sym(k + 1, c): now[k][c] for k in range(n) for c in range(4)})
            check_numeric(ps, now, field, lab + " substituted", res, None)
            if [[str(x) for x in getattr(other[k], nm).flatten()] for k in range(1, n + 1)] != held:
                res.fail(lab, "another point changed when this one was substituted in")
            res.transitions += 2
            res.case(lab, "shared")


def main():
    ck = Check("C21")
    T = ck.thorough
    ck.rule = ("symbolic values of every invariant of the list as polynomial identities and after substitution; all 16 component patterns for each leg, every split of the substitution; "
               "points polynomial in t at every value of the small fields; every supported chain of casts on every invariant, massless and massive")
    shards = []
    P = "F2147483647"
    for f in (P, "Q", "mpc", "Z1000003^3") + (("F10007",) if T else ()):
        for n in (4, 5) + ((6,) if T or f == P else ()):
            for k in range(4):
                shards.append(("identity", f, n, k, 4))
    four = list(itertools.product((0, 1), repeat=4))
    pats = []
    n = 4
    for leg in range(n):
        for p in four:
            for rest in ((0, 0, 0, 0), (1, 1, 1, 1)):
                pats.append(sum((p if i == leg else rest for i in range(n)), ()))
    for p, q in itertools.product(four, repeat=2) if T else [(p, q) for p in four for q in ((1, 0, 0, 1), (0, 1, 1, 0), p)]:
        pats.append(p + q + p + q)
    pats = sorted(set(pats))
    for f in (P, "Q", "Z1000003^3", "mpc", "F7"):
        for names in (COMP, "xyzw"):
            if names != COMP and f not in (P,) and not T:
                continue
            for ch in chunks(pats, 8):
                shards.append(("patterns", f, 4, ch, names))
    for f in ("F7", "F5") + (("F11", "F13") if T else ()):
        p = int(f[1:])
        lin = [([1, 2], [0, 1], [3, 0, 1], [0, 0, 1]), ([2], [1, 1], [0, 3], [1, -1])]
        for comps in (lin, [([0, 1], [1], [p - 1, 1], [1]), ([0], [0, 1], [0], [2, 1])], [([0, 0, 1], [0, 1], [1, 1], [1]), ([1], [2], [3], [4, 1])]):
            shards.append(("line", f, comps, list(range(p))))
    for f in (P, "Q", "mpc", "Z7^3", "Z1000003^2"):
        shards.append(("line", f, [([1, 2], [0, 1], [3, 0, 1], [0, 0, 1]), ([2], [1, 1], [0, 3], [1, -1])], list(range(-3, 9))))
    chains = [("Q", P), ("Q", "Z1000003^3"), ("Q", "mpc"), ("Q", "Qi"), ("Q", "Q"), ("Q", "F101"), ("Q", "Z101^4"), ("Z1000003^3", "F1000003"), ("Z101^4", "F101"), ("Q", "Z1000003^3", "F1000003"), ("Q", "Qi", "F10009"),
              ("Qi", "F10009"), ("F1000003", "Z1000003^3"), ("F1000003", "Z1000003^3", "F1000003"), (P, P), ("Z101^4", "Z101^4"), ("mpc", "mpc"), ("Qi", "Qi"), ("Q", "Q", "F1000003")]
    for c in chains:
        for n in (4, 5) + ((6,) if T else ()):
            shards.append(("cast", c, n, None, None))
        if c[0] not in ("Q", "Qi"):
            for fm in (None, ((2, "u", all),), ((2, "d", all), (3, "u", all)), ((2, "u", 1),), ((3, "d", 2), (2, "u", all))):
                shards.append(("cast", c, 6, ((1,), (2, 3), (4, 5), (6,)), fm))
            shards.append(("cast", c, 6, ((1, 2), (3, 4), (5, 6)), None))
    for p, k in ((101, 3), (1000003, 2), (2147483647, 3)):
        for n in (4, 5, 6):
            shards.append(("helpers", p, k, n))
    ck.run(worker, shards)
    ck.assumptions += ["Gaussian rationals do not mix with sympy expressions, so symbolic points are not taken there", "p-adic components are of non-negative valuation when they pass through sympy and of valuation zero (or zero) when cast to a finite field: the number library reduces the unit part"]
    ck.run(shared_worker, [("shared", f, nm) for f in ("F2147483647", "Q", "mpc") for nm in ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u")])
    ck.rule += "; every pair of legs sharing a spinor, made symbolic in five patterns and substituted"
    ck.finish()


if __name__ == "__main__":
    main()
