"""C22: univariate and bivariate slices: conservation, masslessness and constraints as polynomial identities and at every parameter value of a small field."""
import itertools
import os
import re
import subprocess
import sys
from .common import Check, chunks, VERIF
import sympy
from . import ref, solver
from .ref import el, Ref, lips_point, conserved_spinors, coherent, i_unit, in_field, spinors_of
from .invstr import value as inv_value


def poly(x, syms, field):
    m = field.characteristic ** field.digits
    if not isinstance(x, sympy.Basic):
        x = sympy.Integer(int(x))
    return sympy.Poly(sympy.expand(x), *syms, modulus=m)




def components(ps, syms, field):
    return [tuple(poly(x, syms, field) for x in s) for s in spinors_of(ps)]


def ref_value(sp, text):
    """Signed sums of invariants; ⟨12⟩ is ⟨1|2⟩."""
    text = re.sub(r"([⟨\[])(\d)(\d)([⟩\]])", r"\1\2|\3\4", text)
    out, R = None, Ref(sp)
    for sign, term in re.findall(r"([+-]?)((?:[⟨\[][^⟩\]]*[⟩\]]|s_\d+))", text):
        x = inv_value(R, term)
        x = -x if sign == "-" else x
        out = x if out is None else out + x
    return out


def slice_of(spec):
    fname, n, alg, cons, seed, start = spec
    field = ref.make_field(fname)
    ps = lips_point(conserved_spinors(lambda x: el(field, x), n, start), field) if start is not None else __import__("lips").Particles(n, field=field, seed=seed)
    if alg == "bivariate":
        ps.bivariate_slice(extra_constraints=cons, seed=seed)
        return field, ps, sympy.symbols("t1 t2")
    ps.univariate_slice(extra_constraints=cons, seed=seed, algorithm=alg)
    return field, ps, (sympy.Symbol("t"),)


def text_of(ps):
    return [[str(x) for x in s] for s in spinors_of(ps)]


def worker(shard, res):
    for spec in shard[1]:
        fname, n, alg, cons, seed, start = spec
        lab = "%s n=%d %s %s seed %s%s" % (fname, n, alg, list(cons), seed, "" if start is None else " from point %d" % start)
        res.current = lab
        patience = solver.gave_up()
        try:
            field, ps, syms = slice_of(spec)
        except TimeoutError:
            res.case(lab, "the solver gave up")
            continue
        except Exception as e:
            if type(e).__name__ == "RootNotInFieldError" and len(cons) > 1:
                res.case(lab, "no point of the variety found in the field")
                continue
            res.fail(lab, "raises %s: %s" % (type(e).__name__, str(e)[:150]))
            continue
        res.transitions += 1
        m = field.characteristic ** field.digits
        if len(ps) != n or ps.field != field or any(p.field != field for p in ps):
            res.fail(lab, "length or field changed")
        stray = set().union(*[x.free_symbols for s in spinors_of(ps) for x in s if isinstance(x, sympy.Basic)]) - set(syms)
        if stray:
            res.fail(lab, "symbols other than the parameters are left: %s" % stray)
            continue
        sp = components(ps, syms, field)
        R = Ref(sp)
        # identities in the parameters
        for k, x in enumerate(R.total()):
            if not x.is_zero:
                res.fail(lab, "momentum is not conserved: entry %d is %s" % (k, str(x)[:100]))
        for i, p in enumerate(ps):
            if not (poly(p.r2_sp[0, 0], syms, field) * poly(p.r2_sp[1, 1], syms, field) - poly(p.r2_sp[0, 1], syms, field) * poly(p.r2_sp[1, 0], syms, field)).is_zero:
                res.fail(lab, "leg %d is massive" % (i + 1))
            P = R.P[i]
            if any(poly(x, syms, field) != y for x, y in zip(p.r2_sp.flatten(), P)):
                res.fail(lab, "momentum of leg %d is not that of its spinors" % (i + 1))
            a, b, c, d = sp[i]
            if [poly(x, syms, field) for x in p.r_sp_u.flatten()] != [b, -a] or [poly(x, syms, field) for x in p.l_sp_u.flatten()] != [d, -c]:
                res.fail(lab, "raised spinors of leg %d" % (i + 1))
        for c in cons:
            x, y = ref_value(sp, c), ps.compute(c)
            if not (x.is_zero if hasattr(x, "is_zero") else x == 0) or not poly(y, syms, field).is_zero:
                res.fail(lab, "constraint %s does not hold: %s" % (c, str(x)[:80]))
        # shape
        deg = [x.total_degree() if not x.is_zero else 0 for s in sp for x in s]
        if max(deg) > 1:
            res.fail(lab, "spinors are not linear in the parameters")
        for v in syms:
            const = [all(x.is_zero or x.degree(v) == 0 for x in s) for s in sp]
            if all(const):
                res.fail(lab, "nothing depends on %s" % v)
            if alg != "generic":
                for i, s in enumerate(sp):
                    for h, nm in ((s[:2], "right"), (s[2:], "left")):
                        if all(x.is_zero or x.degree(v) == 0 for x in h):
                            res.fail(lab, "the %s spinor of leg %d does not depend on %s" % (nm, i + 1, v))
        if alg != "generic":
            for v in syms:
                for i, j in itertools.combinations(range(1, n + 1), 2):
                    for x in (R.ang(i, j), R.sqr(i, j)):
                        if not x.is_zero and x.degree(v) > 1:
                            res.fail(lab, "a bracket of legs %d, %d is not linear in %s" % (i, j, v))
        # every value of the parameters
        values = shard[2]
        keep = text_of(ps)
        for vals in (itertools.product(values, repeat=1) if len(syms) == 1 else itertools.product(values[:2] + values[-2:], repeat=2)):
            q = ps.copy()
            q.subs(dict(zip(syms, vals)))
            num = [tuple(el(field, int(x.eval(dict(zip(syms, vals))) if len(syms) > 1 else x.eval(vals[0]))) for x in s) for s in sp]
            for i, (g, w) in enumerate(zip(spinors_of(q), num)):
                if not all(in_field(x, field) and ref.same(x, y) for x, y in zip(g, w)):
                    res.fail(lab, "at %s leg %d is %s, expected %s" % (vals, i + 1, g, w))
                    break
            else:
                if not all(ref.is_zero(x) for x in q.total_mom.flatten()) or not all(ref.is_zero(x) for x in q.m2s) or not q.momentum_conservation_check():
                    res.fail(lab, "at %s the point is not a massless momentum-conserving one" % (vals,))
                for c in cons:
                    if not ref.is_zero(q.compute(c)):
                        res.fail(lab, "at %s constraint %s is %s" % (vals, c, q.compute(c)))
                for p in q:
                    for b in coherent(p, None):
                        res.fail(lab, "at %s: %s" % (vals, b))
            res.transitions += 1
            res.case((lab, vals), "value")
        if text_of(ps) != keep:
            res.fail(lab, "substituting in a copy changed the slice")
        # determined by point and seed, also with other random numbers drawn in between
        import random
        random.random()
        try:
            _, again, _ = slice_of(spec)
        except TimeoutError:
            again = None
        if again is None or solver.gave_up() != patience:
            res.case(lab + " again", "the solver gave up")
        elif text_of(again) != keep:
            res.fail(lab, "a second slice from the same point with the same seed differs")
        res.case(lab, alg, sample=lab)
    if shard[0] == "process":
        # the same slices in a process with another hash seed
        code = "import sys; sys.path.insert(0, %r)\nfrom mc.c22 import slice_of, text_of, solver\nfor s in %r: print(repr(text_of(slice_of(s)[1])))\nprint(solver.gave_up())" % (VERIF, shard[1])
        env = dict(os.environ, PYTHONHASHSEED="12345")
        out = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code], capture_output=True, text=True, env=env)
        patience = solver.gave_up()
        here = [repr(text_of(slice_of(s)[1])) for s in shard[1]]
        if out.stdout.split("\n")[:-1] != here + ["0"] and solver.gave_up() == patience and not re.search(r"\n[1-9]\d*\n$", out.stdout):
            res.fail("process %s" % (shard[1],), "slices differ in another process: %s" % (out.stderr[-200:] or out.stdout[:200]))
        res.case(("process", str(shard[1])), "other process")


def constraints(n):
    one = ["⟨1|2⟩", "[%d|%d]" % (n - 1, n), "⟨1|%d⟩" % n, "s_12", "⟨1|2+3|%d]" % (4 if n > 4 else 1), "⟨12⟩+[12]", "⟨12⟩-⟨34⟩"]
    out = [()] + [(c,) for c in one]
    out += [("[1|2]", "⟨3|4⟩"), ("⟨1|2⟩", "⟨1|3⟩"), ("⟨34⟩+[34]", "⟨12⟩+[12]")]
    if n >= 5:
        out += [("s_123",), ("⟨1|2+3|1]",), ("⟨1|2⟩", "[3|4]"), ("s_12-s_34",)]
    if n >= 6:
        out += [("⟨34⟩+[34]", "⟨34⟩-⟨56⟩", "⟨56⟩+[56]"), ("⟨1|2+3|4+5|6⟩",)]
    return out


def main():
    ck = Check("C22")
    T = ck.thorough
    ck.rule = "slices for every multiplicity, constraint set, algorithm, seed and starting point of the list: polynomial identities in the parameters, and every parameter value of F_101 (a list of values for large fields)"
    specs_small, specs_big = [], []
    P = "F2147483647"
    for n in (4, 5, 6) + ((7, 8) if T else ()):
        for cons in constraints(n):
            for seed in range(3 if T else 1):
                for start in (None, 2) if seed == 0 and (T or n < 6) else (None,):
                    specs_big.append((P, n, "covariant", cons, seed, start))
            if T or n == 4 or (n == 5 and len(cons) < 2 and cons[:1] != ("⟨12⟩-⟨34⟩",)):
                specs_small.append(("F101", n, "covariant", cons, 1, None))
            if n == 4 or (n == 5 and (T and cons[:1] not in (("⟨1|2+3|1]",), ("s_12-s_34",)) or cons in ((), ("⟨1|2⟩",)))) or (T and n == 6 and len(cons) < 2):
                specs_big.append((P, n, "generic", cons, 1, None))
                specs_small.append(("F101", n, "generic", cons, 2, None)) if n == 4 else None
            if n < 7 and not (n == 6 and set(cons) & {"s_123", "⟨1|2+3|1]", "s_12-s_34", "⟨1|2+3|4+5|6⟩", "⟨34⟩+[34]"}) and (T or n == 5 or len(cons) < 2):            # Singular takes minutes for those left out
                specs_big.append((P, n, "bivariate", cons, 1, None))
    for k in (4, 5, 6):
        specs_big.append(("Z2147483647^3", k, "covariant", (), 1, None))
    big = [0, 1, -1, 17, 2147483646, 1234567]
    shards = [("slices", ch, big) for ch in chunks(specs_big, 64 if not T else 128)] + [("slices", ch, list(range(101))) for ch in chunks(specs_small, 32)]
    shards.append(("process", [(P, 4, "covariant", ("⟨1|2⟩",), 1, None), (P, 4, "generic", ("⟨1|2⟩",), 1, None), (P, 4, "bivariate", (), 1, None), (P, 5, "covariant", (), 3, 2)], big[:2]))
    ck.run(worker, shards)
    ck.assumptions += ["Singular (through syngular) computes the points on varieties; constraints are only imposed exactly over finite fields, p-adically they hold to the first digit"]
    ck.finish()


if __name__ == "__main__":
    main()
