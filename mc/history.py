"""Histories of one point: after every sequence of changes, with everything observed in between, the point must look like a fresh one with the same spinors.

Used by several checks, each with its own observations; observing first and changing afterwards is what exposes values kept from an earlier state."""
import copy
import pickle
import random
import itertools
import numpy
from . import ref
from .ref import el, arr, lips_point, lips_particle, spinors_of, conserved_spinors

N = 6


def start(fname):
    field = ref.make_field(fname)
    return lips_point(conserved_spinors(lambda x: el(field, x), N, 4), field, internal_masses={"mt": el(field, 5), "m_Q": "s_12"})


def col(f, a, b):
    return arr([[el(f, a)], [el(f, b)]])


def row(f, a, b):
    return arr([[el(f, a), el(f, b)]])


def _set(ps, i, nm, v):
    setattr(ps[i], nm, v)
    return ps


def _name(ps, nm, v):
    ps[nm] = v
    return ps


def _replace(ps, i, s):
    ps[i] = lips_particle(tuple(el(ps.field, x) for x in s), ps.field)
    return ps


def _swap(ps, i, j):
    ps[i], ps[j] = ps[j], ps[i]
    return ps


def _random(ps):
    random.seed(5)
    ps.randomise_all()
    ps.fix_mom_cons()
    return ps


def _cut(ps):
    del ps[2]
    ps.insert(5, lips_particle(tuple(el(ps.field, x) for x in (3, 1, 2, 7)), ps.field))
    return ps


def _slice(ps):
    m = ps.internal_masses_dict
    out = ps[1:] + ps[:1]
    out = lips_point(spinors_of(out), ps.field, internal_masses=m)
    return out


def _do(ps, fn):
    fn(ps)
    return ps


def _mass(ps, nm, v):
    setattr(ps, nm, v)
    return ps


OPS = {
    "r_sp_d of 1": lambda p: _set(p, 1, "r_sp_d", col(p.field, 3, 4)),
    "l_sp_d of 2": lambda p: _set(p, 2, "l_sp_d", row(p.field, 5, 2)),
    "r_sp_u of 3": lambda p: _set(p, 3, "r_sp_u", row(p.field, 1, 6)),
    "l_sp_u of 6": lambda p: _set(p, 6, "l_sp_u", col(p.field, 7, 1)),
    "r2_sp of 4": lambda p: _set(p, 4, "r2_sp", (lips_particle(tuple(el(p.field, x) for x in (4, 1, 1, 3)), p.field)).r2_sp),
    "four_mom of 5": lambda p: _set(p, 5, "four_mom", (lips_particle(tuple(el(p.field, x) for x in (9, 1, 1, 2)), p.field)).four_mom),
    "name ⟨2|": lambda p: _name(p, "⟨2|", row(p.field, 2, 9)),
    "name |1]": lambda p: _name(p, "|1]", col(p.field, 8, 5)),
    "replace 3": lambda p: _replace(p, 3, (1, 2, 3, 5)),
    "swap 1 2": lambda p: _swap(p, 1, 2),
    "swap 4 6": lambda p: _swap(p, 4, 6),
    "exchange": lambda p: _do(p, lambda q: q.angles_for_squares()),
    "exchange leg 2": lambda p: _do(p, lambda q: q[2].angles_for_squares()),
    "image": lambda p: p.image("231546"),
    "image exchanged": lambda p: p.image(("321456", True)),
    "copy": lambda p: p.copy(),
    "pickle": lambda p: pickle.loads(pickle.dumps(p)),
    "conserve 1 2": lambda p: _do(p, lambda q: q.fix_mom_cons(1, 2)),
    "conserve 5 3 axis 2": lambda p: _do(p, lambda q: q.fix_mom_cons(5, 3, axis=2)),
    "randomise": _random,
    "delete and insert": _cut,
    "rotate": _slice,
    "cluster singly": lambda p: p.cluster([[2], [1], [3], [4], [5], [6]]),
    "mass": lambda p: _mass(p, "mt", el(p.field, 11)),
    "mass as invariant": lambda p: _mass(p, "m_Q", "s_345"),
}
NO_ROOT = ("r2_sp of 4", "four_mom of 5")       # may need a square root or a division the field lacks


def ops_for(fname):
    return [k for k in OPS if fname in ("mpc",) or fname.startswith("F") or k not in NO_ROOT]


def step(ps, op):
    return OPS[op](ps)


def equal(x, y):
    if isinstance(x, numpy.ndarray) or isinstance(y, numpy.ndarray):
        return numpy.shape(x) == numpy.shape(y) and all(ref.same(a, b) for a, b in zip(numpy.ravel(x), numpy.ravel(y)))
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(equal(a, b) for a, b in zip(x, y))
    if isinstance(x, (bool, str)) or isinstance(y, (bool, str)):
        return x == y
    return ref.same(x, y)


def observe(observations, ps):
    out = []
    for nm, fn in observations:
        try:
            out.append((nm, fn(ps)))
        except Exception as e:
            out.append((nm, "raised %s" % type(e).__name__))
    return out


def worker(shard, res):
    """shard: ("history", field name, first operations, number of operations, property)"""
    _, fname, firsts, depth, pid = shard
    observations, replayed = OBSERVE[pid], REPLAYED.get(pid, ())
    ops = ops_for(fname)
    for first in firsts:
        for d in range(0, depth):
            for rest in itertools.product(ops, repeat=d):
                seq = (first,) + rest
                label = "%s after %s" % (fname, ", ".join(seq))
                res.current = label
                ps, blind = start(fname), start(fname)
                observe(observations, ps)
                observe(replayed, ps)
                ok = True
                for k, op in enumerate(seq):
                    try:
                        new = step(ps, op)
                    except Exception:
                        ok = False          # operations that this state does not allow are the business of other checks
                        break
                    ps = new
                    if k < len(seq) - 1:
                        observe(observations, ps)
                        observe(replayed, ps)
                    res.transitions += 1
                if not ok or any(p.r_sp_d is None or p.l_sp_d is None for p in ps):
                    res.case(label, "not possible")
                    continue
                twin = lips_point(spinors_of(ps), ps.field, internal_masses=dict(ps.internal_masses_dict))
                for (nm, x), (_, y) in zip(observe(observations, ps), observe(observations, twin)):
                    if not equal(x, y):
                        res.fail("%s: %s" % (label, nm), "the point gives %s, a fresh point with the same spinors %s" % (str(x)[:120], str(y)[:120]))
                if replayed:
                    for op in seq:
                        blind = step(blind, op)
                    for (nm, x), (_, y) in zip(observe(replayed, ps), observe(replayed, blind)):
                        if x != y:
                            res.fail("%s: %s" % (label, nm), "the point gives %s, one with the same history but not looked at before %s" % (str(x)[:120], str(y)[:120]))
                res.case(label, "%d operations" % len(seq))


def strings(*names):
    return [(nm, (lambda q: lambda ps: ps.compute(q))(nm)) for nm in names]


def expressions(*names):
    return [(nm, (lambda q: lambda ps: ps(q))(nm)) for nm in names]


SUBSET = ["⟨1|2⟩", "[1|2]", "⟨3|4⟩", "s_12", "s_345"]
OBSERVE = {
    "C02": [("m2s", lambda ps: ps.m2s), ("total_mom", lambda ps: ps.total_mom)]
    + [("m2 of %d" % i, (lambda i: lambda ps: ps[i].m2)(i)) for i in range(1, N + 1)]
    + [("m2 of %d+%d" % (i, j), (lambda i, j: lambda ps: (ps[i] + ps[j]).m2)(i, j)) for i, j in itertools.combinations(range(1, N + 1), 2)]
    + [("momentum of %d-3*%d" % (i, j), (lambda i, j: lambda ps: (ps[i] - ps[j] * 3).r2_sp)(i, j)) for i, j in ((1, 2), (2, 3), (4, 5), (6, 1))]
    + [("momentum of the sum", lambda ps: sum(list(ps)).r2_sp), ("momentum of -2", lambda ps: (-ps[2]).r2_sp), ("product of 1 and 2", lambda ps: ps.ldot(1, 2)), ("product of 4 and 6", lambda ps: ps.ldot(4, 6))],
    "C05": [("momentum conservation", lambda ps: ps.momentum_conservation_check()), ("on-shellness", lambda ps: ps.onshell_relation_check()),
            ("full check", lambda ps: [sorted(x) if isinstance(x, list) else x for x in ps.phasespace_consistency_check()]),
            ("check of some", lambda ps: [sorted(x) if isinstance(x, list) else x for x in ps.phasespace_consistency_check(list(SUBSET))])],
    "C06": strings("⟨1|2⟩", "[1|2]", "⟨3|5⟩", "[2|6]", "⟨4|6⟩", "[3|4]", "⟨1|2|3]", "[2|1+4|3⟩", "⟨4|1+2|3|5⟩", "⟨2|3-4|5|6|1]", "[6|1|2|5]", "⟨2|", "|1]", "|3⟩", "[4|", "⟨1|2|", "⟨5|2+3|4|", "|4|6]"),
    "C07": strings("s_12", "s_345", "s_6", "s_1234", "tr(1|2|3|4)", "tr(1+2|3|4-5|6)", "tr5_1234", "tr5_3456", "Δ_135", "Δ_12|34|56", "Δ_14|23|56", "Ω_351", "Π_351", "Ω_135", "m_Q", "mt", "m_2")
    + [("product of 1 and 2", lambda ps: ps.ldot(1, 2)), ("product of 3 and 5", lambda ps: ps.ldot(3, 5))],
    "C08": expressions("⟨1|2⟩[2|1]/s_13+mt^2*3", "(s_12-m_Q)^2-⟨1|3|4]", "1/2*⟨3|4⟩^2*[5|6]", "-(⟨2|3⟩⟨4|5⟩)/[1|6]^2", "s_234*(s_45-2)/(tr5_1234+1)", "⟨1|2⟩+1", "m_Q-s_12"),
    "C10": [("image %s of %s" % (r, q), (lambda r, q: lambda ps: ps.image(r).compute(q))(r, q)) for r in ("654321", ("213456", True), "312564") for q in ("⟨1|2⟩", "[1|3]", "s_123", "⟨1|2+3|4]", "tr5_1234", "mt")]
    + [("image back and forth", lambda ps: ref.snapshot(ps.image("231456").image("312456"))[0] == ref.snapshot(ps)[0])],
    "C12": [("cluster %s %s" % (g, q), (lambda g, q: lambda ps: ps.cluster(g).compute(q))(g, q)) for g in ([[1, 2], [3], [4, 5, 6]], [[6, 1], [2, 3], [4, 5]], [[1], [2], [3, 4, 5], [6]]) for q in ("s_1", "s_12", "s_3", "s_2", "mt", "m_Q")],
    "C19": [("name " + q, (lambda q: lambda ps: ps[q])(q)) for q in ("⟨1|", "|1⟩", "[1|", "|1]", "⟨2|", "|2]", "⟨6|", "[6|", "|3]", "|5⟩")]
    + [("leg %d" % i, (lambda i: lambda ps: [ps[i].r_sp_d, ps[i].l_sp_d, ps[i].r_sp_u, ps[i].l_sp_u, ps[i].r2_sp])(i)) for i in range(1, N + 1)] + [("length", lambda ps: [len(ps), len(list(ps)), ps.multiplicity])],
    "C20": [("equal to itself and its copies", lambda ps: [ps == ps, ps == ps.copy(), ps == copy.deepcopy(ps), ps == pickle.loads(pickle.dumps(ps)), ps != ps.copy(), ps.field.name == "mpc" or ps == lips_point(spinors_of(ps), ps.field)]),
            ("hashes of copies", lambda ps: [hash(ps) == hash(ps.copy()), hash(ps) == hash(pickle.loads(pickle.dumps(ps))), [hash(x) == hash(y) for x, y in zip(ps, ps.copy())]])],
}
REPLAYED = {"C20": [("hash", hash), ("hashes of the legs", lambda ps: [hash(p) for p in ps])]}


def shards(pid, thorough, light=False):
    """All sequences of two operations (thorough: three over the prime field); light: one in the other fields."""
    out = []
    for f in ("F2147483629", "mpc", "Q"):
        d = (3 if thorough and not light else 2) if f.startswith("F") else 1 if light and not thorough else 2
        for op in ops_for(f):
            out.append(("history", f, [op], d, pid))
    return out
