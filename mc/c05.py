"""C05: the consistency checks against a reference verdict, for every perturbation and every pattern of small/large invariants."""
import contextlib
import io
import itertools
from .common import Check, chunks
import mpmath
from lips import Particles, Particle, Invariants
from . import history, ref
from .ref import el, arr, Ref, lips_point, conserved_spinors, snapshot


def size(x, field):
    """('size', comparable magnitude): 0 for exact zero."""
    if field.name == "finite field":
        return 0 if ref.is_zero(x) else 1
    if field.name == "padic":
        return None
    return abs(x)


def perturb(field, e):
    """A perturbation: exponent e (None: none)."""
    if e is None:
        return None
    if field.name == "mpc":
        return mpmath.mpf(10) ** (-e)
    if field.name == "padic":
        return el(field, field.characteristic ** e)
    return el(field, e)


def visible(field, x):
    """Does the reference say x is non-zero to working precision? None: too close to call."""
    if field.name == "mpc":
        tol = mpmath.mpf(field.tollerance)
        if abs(x) > 100 * tol:
            return True
        if abs(x) < tol / 100:
            return False
        return None
    if field.name == "padic":
        return not (x.num == 0 or x.n >= field.digits)
    return not ref.is_zero(x)


def verdict(field, xs):
    vs = [visible(field, x) for x in xs]
    if True in vs:
        return False           # violated
    if None in vs:
        return None
    return True


def worker(shard, res):
    kind = shard[0]
    if kind == "perturb":
        _, fname, n, seed, exps = shard
        field = ref.make_field(fname)
        base = conserved_spinors(lambda x: el(field, x), n, seed)
        for leg in range(1, n + 1):
            for comp in range(4):
                for e in exps:
                    sp = [list(s) for s in base]
                    d = perturb(field, e)
                    if d is not None:
                        sp[leg - 1][comp] = sp[leg - 1][comp] + d
                    label = "%s n=%d leg %d component %d perturbed by %s" % (fname, n, leg, comp, e)
                    res.current = label
                    ps = lips_point([tuple(s) for s in sp], field)
                    R = Ref([tuple(s) for s in sp])
                    want = verdict(field, R.total())
                    before = snapshot(ps)
                    got = ps.momentum_conservation_check()
                    got2 = ps.phasespace_consistency_check()
                    on = ps.onshell_relation_check()
                    if snapshot(ps) != before:
                        res.fail(label, "a check changed the point")
                    if want is not None and (got is not want or got2[0] is not want):
                        res.fail(label, "momentum conservation reported %s/%s, is %s" % (got, got2[0], want))
                    if on is not True or got2[1] is not True:
                        res.fail(label, "massless point reported off shell")
                    res.case((fname, n, leg, comp, e), "mom %s" % got)
                    res.transitions += 3
        # masses: replace one leg by a massive momentum, in every entry
        for leg in range(1, n + 1):
            for comp in range(4):
                for e in exps:
                    R = Ref(base)
                    m = list(R.P[leg - 1])
                    d = perturb(field, e)
                    if d is not None:
                        m[comp] = m[comp] + d
                    label = "%s n=%d leg %d momentum entry %d perturbed by %s" % (fname, n, leg, comp, e)
                    res.current = label
                    ps = lips_point(base, field)
                    # a massive leg with these momentum components: assigned through the public setter
                    try:
                        ps[leg].r2_sp = arr([[m[0], m[1]], [m[2], m[3]]])
                    except NotImplementedError:
                        continue            # no such square root in the number library
                    mass = ref.det(m)
                    want = verdict(field, [mass])
                    got = ps.onshell_relation_check()
                    tot = [R.total()[i] + (d if i == comp and d is not None else 0 * m[0]) for i in range(4)]
                    wm = verdict(field, tot)
                    gm = ps.momentum_conservation_check()
                    full = ps.phasespace_consistency_check(["s_12"] if n > 3 else ["⟨1|2⟩"] if leg > 2 and ps[1].r_sp_d is not None and ps[2].r_sp_d is not None else ["s_123"])
                    if want is not None and (got is not want or full[1] is not want):
                        res.fail(label, "on-shellness reported %s/%s, is %s" % (got, full[1], want))
                    if wm is not None and (gm is not wm or full[0] is not wm):
                        res.fail(label, "momentum conservation reported %s/%s, is %s" % (gm, full[0], wm))
                    res.case((fname, n, "mass", leg, comp, e), "shell %s" % got)
                    res.transitions += 3
    elif kind == "patterns":
        # every pattern of masses over the legs, and of entries of the total momentum: no two violations may cancel
        _, fname, which, pats = shard
        field = ref.make_field(fname)
        one, zero = el(field, 1), el(field, 0)
        for pat in pats:
            label = "%s %s %s" % (fname, which, pat)
            res.current = label
            v = [size_of(field, k) for k in pat]
            if which == "masses":
                moms = [(x, zero, zero, one) for x in v]
            else:
                moms = [(v[0], v[1], v[2], v[3] + one), (zero, zero, zero, one), (zero, zero, zero, -one - one)]
            try:
                ps = Particles([Particle(arr([[m[0], m[1]], [m[2], m[3]]]), field=field) for m in moms], field=field, fix_mom_cons=False)
            except NotImplementedError:
                continue                    # no such square root in the number library
            wm = verdict(field, [sum((m[i] for m in moms[1:]), moms[0][i]) for i in range(4)])
            ws = verdict(field, [ref.det(m) for m in moms])
            full = ps.phasespace_consistency_check(["s_12"])
            gm, gs = ps.momentum_conservation_check(), ps.onshell_relation_check()
            if wm is not None and (gm is not wm or full[0] is not wm):
                res.fail(label, "momentum conservation reported %s/%s, is %s" % (gm, full[0], wm))
            if ws is not None and (gs is not ws or full[1] is not ws):
                res.fail(label, "on-shellness reported %s/%s, is %s" % (gs, full[1], ws))
            res.case((fname, which, pat), "%s %s" % (gm, gs))
            res.transitions += 3
    elif kind == "outliers":
        _, fname, pats, orders = shard
        field = ref.make_field(fname)
        one, zero = el(field, 1), el(field, 0)
        names = ["⟨1|2⟩", "[1|2]", "⟨3|4⟩", "[3|4]"]
        for pat in pats:
            v = [mag(field, k) for k in pat]
            # <12> = b1 a2 - a1 b2 with r1=(1,0)... choose r1=(0,1): <12>=a2 ; l1=(1,0): [12]=d2
            sp = [(zero, one, one, zero), (v[0], one, one, v[1]), (zero, one, one, zero), (v[2], one, one, v[3])]
            R = Ref(sp)
            assert ref.same(R.ang(1, 2), v[0]) and ref.same(R.sqr(1, 2), v[1]) and ref.same(R.ang(3, 4), v[2]) and ref.same(R.sqr(3, 4), v[3])
            ps = lips_point(sp, field)
            for order in orders:
                req = [names[k] for k in order]
                label = "%s sizes %s requested %s" % (fname, pat, req)
                res.current = label
                req0 = list(req)
                mom, shell, big, small = ps.phasespace_consistency_check(req)
                if req != req0:
                    res.fail(label, "the caller's list was changed")
                wsmall = sorted(names[k] for k in order if pat[k] in ("0", "s", "ss"))
                wbig = sorted(names[k] for k in order if pat[k] in ("b", "bb"))
                if field.name == "finite field":
                    wbig = []
                if sorted(small) != wsmall or sorted(big) != wbig:
                    res.fail(label, "reported small %s big %s, expected %s %s" % (small, big, wsmall, wbig))
                if shell is not True and not (field.name == "padic" and {"b", "bb"} & set(pat)):   # big p-adic numbers lose absolute precision
                    res.fail(label, "massless point reported off shell")
                res.case((fname, pat, order), "small%d big%d" % (len(small), len(big)))
                res.transitions += 1
    elif kind == "arrays":
        # open chains have several components: small when all are, large when any is
        _, fname, pats = shard
        field = ref.make_field(fname)
        one, zero = el(field, 1), el(field, 0)
        for pat in pats:
            v = [mag(field, k) for k in pat]
            sp = [tuple(v)] + [(one, zero, zero, one), (zero, one, one, one), (one, one, one, zero)]
            ps = lips_point(sp, field)
            lo = [k in ("0", "s") for k in pat]
            hi = [k == "b" and field.name != "finite field" for k in pat]
            req = ["⟨1|", "[1|", "|1⟩", "|1]", "⟨2|3⟩"]
            wsmall = (["⟨1|", "|1⟩"] if lo[0] and lo[1] else []) + (["[1|", "|1]"] if lo[2] and lo[3] else [])
            wbig = (["⟨1|", "|1⟩"] if hi[0] or hi[1] else []) + (["[1|", "|1]"] if hi[2] or hi[3] else [])
            label = "%s components %s requested open" % (fname, pat)
            res.current = label
            mom, shell, big, small = ps.phasespace_consistency_check(req)
            if sorted(small) != sorted(wsmall) or sorted(big) != sorted(wbig):
                res.fail(label, "reported small %s big %s, expected %s %s" % (small, big, wsmall, wbig))
            res.case((fname, pat, "arrays"), "small%d big%d" % (len(small), len(big)))
            res.transitions += 1
    elif kind == "catalogue":
        _, fname, n, subset, eps = shard
        field = ref.make_field(fname)
        base = conserved_spinors(lambda x: el(field, x), n, 3)
        # make the right spinors of `subset` parallel up to eps
        sp = [list(s) for s in base]
        first = subset[0] - 1
        for k, i in enumerate(subset[1:], 1):
            d = mag(field, eps)
            sp[i - 1][0] = sp[first][0] * (k + 1) + d * (k + 2)
            sp[i - 1][1] = sp[first][1] * (k + 1)
        sp = [tuple(s) for s in sp]
        ps, R = lips_point(sp, field), Ref(sp)
        label = "%s n=%d parallel %s eps %s" % (fname, n, subset, eps)
        res.current = label
        # reference sizes of all two-brackets and Mandelstams, requested together
        vals = {}
        for i, j in itertools.combinations(range(1, n + 1), 2):
            vals["⟨%d|%d⟩" % (i, j)] = R.ang(i, j)
            vals["[%d|%d]" % (i, j)] = R.sqr(i, j)
        two = dict(vals)
        for m in (2, 3):
            for c in itertools.combinations(range(1, n + 1), m):
                vals["s_" + "".join(map(str, c))] = R.s(c)
        for nm, vv, call in (("default", two, lambda: ps.phasespace_consistency_check()), ("explicit", vals, lambda: ps.phasespace_consistency_check(list(vals))),
                             ("verbose", vals, lambda: loud(lambda: ps.phasespace_consistency_check(list(vals), silent=False)))):
            mom, shell, big, small = call()
            ws, wb, skip = [], [], set()
            for k, x in vv.items():
                c = classify(field, x)
                if c is None:
                    skip.add(k)
                elif c == "small":
                    ws.append(k)
                elif c == "big":
                    wb.append(k)
            if sorted(x for x in small if x not in skip) != sorted(ws) or sorted(x for x in big if x not in skip) != sorted(wb):
                res.fail(label + " " + nm, "reported small %s big %s, expected %s %s" % (small, big, ws, wb))
            wm = verdict(field, R.total())
            if wm is not None and mom is not wm:
                res.fail(label + " " + nm, "momentum conservation reported %s, is %s" % (mom, wm))
            res.case((fname, n, subset, eps, nm), "small%d" % len(small))
            res.transitions += 1


def loud(call):
    """The same call with its printing on, and thrown away."""
    with contextlib.redirect_stdout(io.StringIO()):
        return call()


def size_of(field, k):
    """Values of the pattern alphabet: zero, plus/minus a number, plus/minus i times it (where there is one), plus/minus a tiny one."""
    s = -1 if k.startswith("-") else 1
    k = k.lstrip("-")
    if k == "0":
        return el(field, 0)
    if k == "x":
        return el(field, 5 * s)
    if k == "i":
        return el(field, 0, 5 * s)
    if field.name == "mpc":
        return s * mpmath.mpc(10) ** -250
    return el(field, s * field.characteristic ** (field.digits - 1))


def classify(field, x):
    if field.name in ("finite field", "rational"):
        return "small" if ref.is_zero(x) else "mid"
    if field.name == "padic":
        v = field.digits if x.num == 0 else x.n
        return "small" if v >= 1 else "big" if v <= -1 else "mid"
    a = abs(x)
    if mpmath.mpf("1e-9") < a < mpmath.mpf("1e-7") or mpmath.mpf("1e7") < a < mpmath.mpf("1e9"):
        return None
    return "small" if a < 1e-8 else "big" if a > 1e8 else "mid"


def mag(field, k):
    if field.name == "mpc":
        return {"0": mpmath.mpc(0), "ss": mpmath.mpc(0, mpmath.mpf("1e-100")), "s": mpmath.mpc("1e-9"), "m": mpmath.mpc(1), "m-": mpmath.mpc("1e-6"), "b": mpmath.mpc("1e9"), "bb": mpmath.mpc(0, mpmath.mpf("1e50"))}[k]
    if field.name == "padic":
        p = field.characteristic
        if k in ("b", "bb"):
            return el(field, 1) / p ** (1 if k == "b" else 2)
        return el(field, {"0": 0, "ss": p ** 2, "s": p, "m": 1, "m-": 2}[k])
    return el(field, {"0": 0, "ss": 0, "s": 0, "m": 1, "m-": 2, "b": 3, "bb": 4}[k])


def main():
    ck = Check("C05")
    ck.rule = "every leg x component x perturbation size; every pattern of zero/small/medium/large sizes over four brackets in every request order; every set of parallel legs for full requests"
    shards = []
    for fname, exps in (("F7", (None, 1, 3)), ("F2147483647", (None, 1, 12345)), ("Z2147483647^4", (None, 0, 1, 2, 3)), ("Z101^6", (None, 0, 1, 3, 5)),
                        ("mpc", (None, 295, 270, 200, 60, 20, 9, 3, 0)), ("Q", (None, 1, 5))):
        for n in (3, 4, 5, 6) if not ck.thorough else (3, 4, 5, 6, 7):
            for seed in range(1, 3 if not ck.thorough else 6):
                if fname == "Q":
                    continue
                if fname == "F7":
                    continue        # too small for the generic start point
                shards.append(("perturb", fname, n, seed, exps))
    for fname, ks in (("mpc", ("0", "x", "-x", "i", "-i", "e", "-e")), ("Z101^6", ("0", "x", "-x", "e", "-e")), ("F2147483647", ("0", "x", "-x")), ("F101", ("0", "x", "-x"))):
        for which in ("masses", "total"):
            pats = list(itertools.product(ks, repeat=4))
            if not ck.thorough and len(ks) > 5:
                pats = [q for q in pats if q.count("0") >= 2]
            for ch in chunks(pats, 8):
                shards.append(("patterns", fname, which, ch))
    for fname in ("mpc", "Z101^6", "F101"):
        ks = ("0", "s", "ss", "m", "m-", "b", "bb") if ck.thorough else ("0", "s", "m", "b")
        pats = list(itertools.product(ks, repeat=4))
        orders = [o for r in ((1, 2, 3, 4) if ck.thorough else (1, 3, 4)) for o in itertools.permutations(range(4), r)]
        if not ck.thorough:
            orders = [o for o in orders if len(o) < 3 or o[0] < o[-1]]
        for ch in chunks(pats, 16):
            shards.append(("outliers", fname, ch, orders))
        shards.append(("arrays", fname, list(itertools.product(("0", "s", "m", "b"), repeat=4))))
    for fname in ("mpc", "Z101^6", "F1000003"):
        for n in (4, 5) + ((6,) if ck.thorough else ()):
            for r in (1, 2, 3):
                for sub in itertools.combinations(range(1, n + 1), r):
                    for eps in ("0", "s", "ss") if ck.thorough else ("0", "s"):
                        shards.append(("catalogue", fname, n, sub, eps))
    ck.run(worker, shards)
    ck.assumptions += ["anomalously small/large: below 1e-8 / above 1e8 in magnitude (mpc), positive / negative valuation (p-adic), zero (finite field); values within a factor 10 of a threshold not judged"]
    ck.run(history.worker, history.shards("C05", ck.thorough))
    ck.rule += "; all sequences of two of 25 changes to a point (thorough: three), everything observed before and between, against a fresh point"
    ck.finish()


if __name__ == "__main__":
    main()
