"""C20: equality on all pairs of a universe of points, hashes, and all copy mechanisms (alone and in pairs) followed by every mutation."""
import copy
import itertools
import pickle
from .common import Check, chunks
import mpmath
import numpy
from lips import Particles, Particle
from . import history, ref
from .ref import arr, el, lips_point, lips_particle
from .c10 import mutations

NAMES = ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d")


def key(x):
    """Hashable and exact."""
    if isinstance(x, mpmath.mpc):
        return x._mpc_
    if isinstance(x, mpmath.mpf):
        return x._mpf_
    return ref.key(x)


MEMO = {}


def conserved_spinors(e, n, seed, **kw):
    tag = (repr(e(1)), n, seed, str(kw))
    if tag not in MEMO:
        MEMO[tag] = ref.conserved_spinors(e, n, seed, **kw)
    return list(MEMO[tag])


def snapshot(ps):
    out = [tuple(None if getattr(p, nm) is None else tuple(key(x) for x in getattr(p, nm).flatten()) for nm in NAMES) for p in ps]
    return tuple(out), tuple(sorted((m, str(getattr(ps, m))) for m in ps.internal_masses)), len(ps)


def momentum_matrix(sp):
    a, b, c, d = sp
    return [[d * b, -(d * a)], [-(c * b), c * a]]


def universe(fname, n):
    """[(name, build, momenta)]: build() makes the point anew each time; momenta is the reference list of r2 keys."""
    field = ref.make_field(fname)
    sp = conserved_spinors(lambda x: el(field, x), 4, 5, span=200003)[:n]
    two, three = el(field, 2), el(field, 4)

    def mk(spinors):
        return lambda: lips_point([tuple(s) for s in spinors], field)

    def mom(spinors):
        return tuple(tuple(key(x) for row in momentum_matrix(s) for x in row) for s in spinors)
    out = []

    def add(name, spinors):
        out.append((name, mk(spinors), mom(spinors)))
    add("base", sp)
    for k in range(n + 1):
        add("first %d" % k, sp[:k])
        add("last %d" % k, sp[k:])
        add("repeated %d" % k, sp + sp[:k])
    for p in itertools.permutations(range(n)):
        add("permuted %s" % (p,), [sp[i] for i in p])
    for k in range(n):
        a, b, c, d = sp[k]
        add("rescaled %d" % k, sp[:k] + [(a * two, b * two, c / two, d / two)] + sp[k + 1:])
        add("negated spinors %d" % k, sp[:k] + [(-a, -b, -c, -d)] + sp[k + 1:])
        add("reversed momentum %d" % k, sp[:k] + [(-a, -b, c, d)] + sp[k + 1:])
        for j in range(4):
            t = list(sp[k])
            t[j] = t[j] + el(field, 1)
            add("changed %d %d" % (k, j), sp[:k] + [tuple(t)] + sp[k + 1:])
        add("exchanged %d" % k, sp[:k] + [(c, d, a, b)] + sp[k + 1:])
        # massive and spinorless legs
        if fname in ("Q", "Qi"):
            continue            # the number library has no square roots there, so no leg can be set from its momentum
        q = sp[(k + 1) % n]
        m = [[x + y for x, y in zip(r, s)] for r, s in zip(momentum_matrix(sp[k]), momentum_matrix(q))]
        for nm, mat in (("massive", m), ("massive, one entry changed", [[m[0][0] + el(field, 1), m[0][1]], m[1]]),
                        ("transposed massive", [[m[0][0], m[1][0]], [m[0][1], m[1][1]]]),
                        ("without spinors", [[el(field, 0), el(field, 0)], [el(field, 0), three]]),
                        ("without spinors, doubled", [[el(field, 0), el(field, 0)], [el(field, 0), three * two]]),
                        ("zero", [[el(field, 0)] * 2] * 2)):
            def build(k=k, mat=mat):
                ps = lips_point([tuple(s) for s in sp], field)
                ps[k + 1].r2_sp = arr([list(r) for r in mat])
                return ps
            ms = list(mom(sp))
            ms[k] = tuple(key(x) for row in mat for x in row)
            out.append(("%s leg %d" % (nm, k), build, tuple(ms)))
    return field, out


def others(ps):
    return [("list", list(ps)), ("tuple", tuple(ps)), ("None", None), ("int", 3), ("str", "12"), ("dict", {}), ("set", set()), ("object", object()), ("empty list", []),
            ("particle", Particle(field=ps.field)), ("masses", [p.m2 for p in ps]), ("type", Particles), ("float", 1.5), ("reversed list", list(ps)[::-1])]


def truth(x):
    return bool(x) if isinstance(x, (bool, numpy.bool_)) else "%s %r" % (type(x).__name__, x)


# --- copies -------------------------------------------------------------------------------------------------
def mechanisms(symbolic=False, few=False):
    out = {"copy()": lambda p: p.copy(), "deepcopy": copy.deepcopy, "deepcopy in a list": lambda p: copy.deepcopy([p, 1])[0], "deepcopy in a dict": lambda p: copy.deepcopy({"a": (p,)})["a"][0]}
    for k in range(2 if symbolic else 0, pickle.HIGHEST_PROTOCOL + 1):            # sympy has no protocols 0 and 1
        out["pickle %d" % k] = lambda p, k=k: pickle.loads(pickle.dumps(p, protocol=k))
    out["pickle in a tuple"] = lambda p: pickle.loads(pickle.dumps((p, p)))[1]
    if few:
        out = {k: v for k, v in out.items() if k in ("copy()", "deepcopy", "pickle 0", "pickle 2", "pickle 5")}
    return out


def kinds(fname, few=False):
    field = ref.make_field(fname)
    out = []
    e = lambda x: el(field, x)

    def massless(n, **kw):
        return lambda: lips_point(conserved_spinors(e, n, 7), field, **kw)
    for n in (0, 1):
        out.append(("massless n=%d" % n, lambda n=n: lips_point(conserved_spinors(e, 4, 7)[:n], field)))
    for n in (3, 5, 9, 10, 12) if few else range(2, 13):
        out.append(("massless n=%d" % n, (massless(n) if n > 3 else (lambda n=n: lips_point(conserved_spinors(e, 4, 7)[:n], field)))))
    out.append(("masses", massless(5, internal_masses={"mt": e(5), "m_Q": e(7), "MZ": "(s_12+s_34)"})))
    out.append(("named masses", massless(4, internal_masses=["m_1", "m_t"])))

    def repeated():
        ps = lips_point(conserved_spinors(e, 4, 7), field)
        return Particles(list(ps) + [ps[1], ps[1]], field=field, fix_mom_cons=False)
    out.append(("the same particle twice", repeated))

    def refvec():
        ps = lips_point(conserved_spinors(e, 4, 7), field)
        ps.oRefVec = lips_particle(conserved_spinors(e, 5, 9)[4], field)
        ps.note = ["user", {"data": 1}]
        return ps
    out.append(("reference vector and user attribute", refvec))
    if fname in ("Q", "F2147483647"):
        def symbolic():
            ps = lips_point(conserved_spinors(e, 4, 7), field)
            ps.make_analytical_d()
            return ps
        out.append(("symbolic", symbolic))

        def partly():
            ps = lips_point(conserved_spinors(e, 4, 7), field)
            ps.make_analytical_d(indepVars=(0, 1) * 8)
            return ps
        out.append(("partly symbolic", partly))
    if fname in ("Q", "Qi"):
        return field, out

    def massive():
        ps = lips_point(conserved_spinors(e, 6, 7), field, internal_masses={"mt": e(5)})
        return ps.cluster([[1], [2, 3], [4, 5], [6]])
    out.append(("massive legs", massive))
    for pos, val in (("u", all), ("d", all), ("u", 1), ("d", 2), ("d", Ellipsis), ("u", Ellipsis)):
        def fermions(pos=pos, val=val):
            ps = lips_point(conserved_spinors(e, 6, 7), field, internal_masses={"mt": e(5)})
            return ps.cluster([[1], [2, 3], [4, 5], [6]], massive_fermions=((2, pos, val), (3, "u", all)))
        out.append(("massive fermions %s %s" % (pos, val if isinstance(val, int) else getattr(val, "__name__", "...")), fermions))

    def nospinors():
        ps = lips_point(conserved_spinors(e, 4, 7), field)
        ps[2].r2_sp = arr([[e(0), e(0)], [e(0), e(4)]])
        ps[3].r2_sp = arr([[e(0), e(0)], [e(0), e(0)]])
        return ps
    out.append(("no spinors", nospinors))
    return field, out


def full(ps):
    s = snapshot(ps)
    ref_vec = tuple(None if getattr(ps.oRefVec, nm) is None else tuple(key(x) for x in getattr(ps.oRefVec, nm).flatten()) for nm in NAMES) if getattr(ps, "oRefVec", None) is not None else None
    shapes = tuple(tuple(None if getattr(p, nm) is None else getattr(p, nm).shape for nm in NAMES) for p in ps)
    spins = tuple(str(getattr(p, "spin_index", None)) for p in ps)
    types = tuple(tuple(None if getattr(p, nm) is None else tuple(type(x).__name__ for x in getattr(p, nm).flatten()) for nm in NAMES) for p in ps)
    fields = tuple((p.field.name, p.field.characteristic, p.field.digits) for p in ps)
    masses = tuple(sorted((m, type(getattr(ps, m)).__name__) for m in ps.internal_masses))
    return (s, ref_vec, shapes, spins, types, fields, masses, (ps.field.name, ps.field.characteristic, ps.field.digits), repr(getattr(ps, "note", None)), type(ps).__name__)


DIFF = ("spinors or momenta", "reference vector", "shapes", "spin indices", "number types", "fields of the particles", "types of the masses", "field", "user attribute", "class")


def differences(a, b):
    return [nm for nm, x, y in zip(DIFF, a, b) if x != y]


def extra_mutations(field):
    one = el(field, 1)

    def massive_inplace(p):
        for q in p:
            q.r2_sp[0, 0] = one * 31
            q.r2_sp_b[1, 1] = one * 37

    def refvec(p):
        p.oRefVec.r_sp_d[0, 0] = one * 41

    def refvec2(p):
        p.oRefVec = None

    def fieldset(p):
        p.field = ref.make_field("F7")
        for q in p:
            q.field = ref.make_field("F7")

    def note(p):
        p.note = getattr(p, "note", [1])
        p.note[-1:] = ["changed"]

    def spin(p):
        for q in p:
            q.spin_index = ("u", 7)

    def everything(p):
        for q in p:
            for nm in NAMES:
                v = getattr(q, nm)
                if v is not None:
                    for ix in numpy.ndindex(v.shape):
                        v[ix] = one * 43

    def empty(p):
        while len(p):
            p.pop()
    return [massive_inplace, refvec, refvec2, fieldset, note, spin, everything, empty]


def hash_of(ps):
    try:
        return hash(ps)
    except Exception as e:
        return "raises %s: %s" % (type(e).__name__, str(e)[:100])


def worker(shard, res):
    kind, fname = shard[0], shard[1]
    if kind == "pairs":
        n, part, parts = shard[2:]
        field, U = universe(fname, n)
        built = [(nm, b(), m) for nm, b, m in U]
        again = [b() for nm, b, m in U]
        for i, (nm, ps, m) in enumerate(built):
            if i % parts != part:
                continue
            res.current = "%s n=%d %s" % (fname, n, nm)
            got = (tuple(tuple(key(x) for x in p.r2_sp.flatten()) for p in ps))
            if got != m:
                res.fail(res.current, "harness: point does not have the momenta it is built from")
            before = full(ps)
            h = hash_of(ps)
            if isinstance(h, str):
                res.fail(res.current, "hash " + h)
            if h != hash_of(ps) or h != hash_of(again[i]):
                res.fail(res.current, "the hash is not reproducible for identically built points")
            if len(ps) > 1 and ps[1].r_sp_d is not None and ps[2].r_sp_d is not None:
                ps("⟨1|2⟩[1|2]")
            if hash_of(ps) != h:
                res.fail(res.current, "evaluating an invariant changed the hash")
            for j, (nm2, q, m2) in enumerate(built):
                for tag, q in (("", q),) + ((("another object: ", again[j]),) if i == j or m == m2 else ()):
                    lab = "%s n=%d %s%s == %s" % (fname, n, tag, nm, nm2)
                    want = m == m2
                    res.transitions += 1
                    try:
                        r = [truth(ps == q), truth(q == ps)]
                        s = [truth(ps != q), truth(q != ps)]
                    except Exception as e:
                        res.fail(lab, "comparison raises %s: %s" % (type(e).__name__, str(e)[:100]))
                        continue
                    if r != [want, want]:
                        res.fail(lab, "is %s, reversed %s; the momenta are %s" % (r[0], r[1], "equal" if want else "different"))
                    if s != [not want, not want]:
                        res.fail(lab, "!= is %s, reversed %s" % (s[0], s[1]))
                    # the particles one by one
                    for x, (p1, p2) in enumerate(zip(ps, q)):
                        w = m[x] == m2[x]
                        if truth(p1 == p2) != w or truth(p1 != p2) != (not w):
                            res.fail(lab, "particle %d: == is %s" % (x + 1, truth(p1 == p2)))
                    res.case((fname, n, nm, nm2, tag), "equal" if want else "different", sample=lab)
            for onm, o in others(ps):
                lab = "%s n=%d %s == %s" % (fname, n, nm, onm)
                res.transitions += 1
                try:
                    r = [truth(ps == o), truth(ps != o), truth(o == ps), truth(o != ps)]
                except Exception as e:
                    res.fail(lab, "comparison raises %s: %s" % (type(e).__name__, str(e)[:100]))
                    continue
                if r != [False, True, False, True]:
                    res.fail(lab, "==, != and reversed: %s" % r)
                for p in ps:
                    if not isinstance(o, Particle) and [truth(p == o), truth(p != o)] != [False, True]:
                        res.fail(lab, "particle compared with another object")
                    break
                res.case((fname, n, nm, onm), "other object")
            if full(ps) != before:
                res.fail("%s n=%d %s" % (fname, n, nm), "comparing or hashing changed the point")
    elif kind == "copies":
        few = shard[4]
        field, K = kinds(fname, few)
        for nm, build in K[shard[2]::shard[3]]:
            ps = build()
            n = len(ps)
            symbolic = "symbolic" in nm
            M = mechanisms(symbolic)
            before = full(ps)
            h = None if symbolic else hash_of(ps)
            for m1 in M:
                lab = "%s %s: %s" % (fname, nm, m1)
                res.current = lab
                try:
                    q = M[m1](ps)
                except Exception as e:
                    res.fail(lab, "raises %s: %s" % (type(e).__name__, str(e)[:150]))
                    continue
                res.transitions += 1
                check_copy(ps, q, before, h, lab, res)
                res.case((fname, nm, m1), "copied", sample=lab)
                for m2 in mechanisms(symbolic, few):
                    r = M[m2](q)
                    res.transitions += 1
                    check_copy(q, r, before, h, lab + " then " + m2, res)
                    res.case((fname, nm, m1, m2), "copied twice")
            if full(ps) != before:
                res.fail("%s %s" % (fname, nm), "copying changed the original")
    elif kind == "indep":
        few = shard[4]
        field, K = kinds(fname, few)
        for nm, build in K[shard[2]::shard[3]]:
            n = len(build())
            muts = mutations(field, n) + extra_mutations(field)
            M = mechanisms("symbolic" in nm, few)
            for m1 in M:
                for k, mut in enumerate(muts):
                    for on in ("copy", "original", "copy of the copy"):
                        lab = "%s %s: %s, then %s on the %s" % (fname, nm, m1, mut.__name__, on)
                        res.current = lab
                        ps = build()
                        q = M[m1](ps)
                        r = M[m1](q) if on == "copy of the copy" else None
                        trio = {"original": ps, "copy": q, "copy of the copy": r}
                        keep = {w: full(x) for w, x in trio.items() if x is not None}
                        try:
                            mut(trio[on])
                        except Exception:
                            pass            # not applicable to this point (too few legs, no spinors)
                        res.transitions += 2
                        done = full(trio[on]) != keep[on]
                        res.case(lab, "mutated" if done else "not applicable", sample=lab if done else None)
                        for w, x in trio.items():
                            if x is not None and w != on and full(x) != keep[w]:
                                res.fail(lab, "the %s changed too: %s" % (w, ", ".join(differences(full(x), keep[w]))))


def check_copy(ps, q, before, h, lab, res):
    if q is ps or any(a is b for a in q for b in ps):
        res.fail(lab, "shares objects with the original")
    now = full(q)
    if now != before:
        res.fail(lab, "differs from the original: " + ", ".join(differences(now, before)))
    if truth(q == ps) is not True or truth(ps == q) is not True or truth(ps != q) is not False:
        res.fail(lab, "is not equal to the original")
    if h is not None and hash_of(q) != h:
        res.fail(lab, "has another hash: %s, original %s" % (hash_of(q), h))
    if [[x is y for y in q] for x in q] != [[x is y for y in ps] for x in ps]:
        res.fail(lab, "which legs are the same object changed")


def main():
    ck = Check("C20")
    T = ck.thorough
    ck.rule = ("all ordered pairs of points of a universe (prefixes, suffixes, permutations, rescaled and negated spinors, every component changed, massive and spinorless legs) and other objects; "
               "all copy mechanisms, alone and in pairs, on all kinds of points, then every mutation of copy, original or second copy")
    shards = []
    fields = ["F2147483647", "mpc", "Q", "Z10007^5", "Qi"] + (["F10007", "Z2147483647^3"] if T else [])
    for f in fields:
        for n, parts in ((2, 1), (3, 2)) + (((4, 8),) if T else ()):
            for k in range(parts):
                shards.append(("pairs", f, n, k, parts))
        w = 12
        for k in range(w):
            shards.append(("copies", f, k, w, not T))
        if T or f in ("F2147483647", "mpc", "Q"):
            for k in range(w):
                shards.append(("indep", f, k, w, not T))
    ck.run(worker, shards)
    ck.assumptions += ["points of different fields are not compared (the number types decide); equality is equality of momenta, so two points with rescaled spinors are equal and may hash differently",
                       "copy.copy is Python's shallow copy and is not judged"]
    ck.run(history.worker, history.shards("C20", ck.thorough))
    ck.rule += "; all sequences of two of 25 changes to a point (thorough: three), everything observed before and between, against a fresh point"
    ck.finish()


if __name__ == "__main__":
    main()
