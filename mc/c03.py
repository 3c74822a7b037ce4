"""C03: every (multiplicity, field, seed, history) in the bounds: generated points are valid and reproducible."""
import os
import subprocess
import sys
import json
import random
from .common import Check, chunks, REPO, SCRATCH
import mpmath
from lips import Particles
from . import ref
from .ref import is_zero, det, coherent, i_unit, key

FIELDS = ["F2147483647", "F2147483629", "F1000003", "Z2147483647^3", "Z1000003^5", "Q", "Qi", "mpc"]


def disturb(k, field):
    """Histories before the construction under test."""
    if k == 0:
        return
    if k == 1:
        random.seed(99)
        random.random()
    elif k == 2:
        Particles(4, field=field)
    elif k == 3:
        Particles(5, seed=17, field=field)
        Particles(3, field=ref.make_field("F1000003"), seed=0)
    elif k == 4:
        Particles(6, seed=5, field=field).randomise_all()
        [random.random() for _ in range(7)]


def snap(ps):
    return ref.snapshot(ps) + (ref.snapshot([ps.oRefVec])[0],)


def valid(res, label, ps, n, field, real=False, spinors=True):
    iu = i_unit(field) if field.name != "rational" else None
    if len(ps) != n or ps.multiplicity != n:
        res.fail(label, "wrong number of particles")
    tot = [sum((p.r2_sp[i, j] for p in ps), 0) for i in (0, 1) for j in (0, 1)]
    if not all(is_zero(x) for x in tot):
        res.fail(label, "momentum not conserved", total=str(tot))
    if not all(is_zero(x) for x in ps.total_mom.flatten()):
        res.fail(label, "total_mom does not vanish")
    for i, p in enumerate(ps, 1):
        if not is_zero(det(tuple(p.r2_sp.flatten()))) or not is_zero(p.m2):
            res.fail(label, "particle %d is not massless" % i)
        for b in coherent(p, iu):
            res.fail(label, "particle %d: %s" % (i, b))
        comps = list(p.r2_sp.flatten())
        if p.r_sp_d is not None:
            comps += list(p.r_sp_d.flatten()) + list(p.l_sp_d.flatten())
        elif spinors:
            res.fail(label, "particle %d has no spinors" % i)
        if not all(ref.in_field(x, field) for x in comps):
            res.fail(label, "particle %d has components outside the field" % i, comps=str(comps))
        if p.field.name != field.name or p.field.characteristic != field.characteristic:
            res.fail(label, "particle %d carries another field" % i)
        if all(is_zero(x) for x in p.r2_sp.flatten()) and spinors:
            res.fail(label, "particle %d has zero momentum" % i)
        if real:
            for x in p.four_mom:
                if abs(mpmath.im(x)) > ref.TOL:
                    res.fail(label, "particle %d has a complex momentum although real momenta were requested" % i, mom=str(p.four_mom)[:200])
                    break
    if ps.field.name != field.name:
        res.fail(label, "point carries another field")


def worker(shard, res):
    kind = shard[0]
    if kind == "gen":
        _, fname, n, seeds, hist, real = shard
        field = ref.make_field(fname)
        for seed in seeds:
            base = None
            for h in hist:
                label = "%s n=%d seed=%s real=%s history=%d" % (fname, n, seed, real, h)
                res.current = label
                try:
                    disturb(h, field)
                    ps = Particles(n, seed=seed, field=field, real_momenta=real)
                except Exception as e:
                    res.fail(label, "unexpected %s: %s" % (type(e).__name__, str(e)[:200]))
                    continue
                s = snap(ps)
                res.transitions += 1
                res.case((fname, n, seed, real, h), "generated")
                if base is None:
                    base = s
                    valid(res, label, ps, n, field, real, spinors=not (real and n == 3))
                    # everything a user generates from the point stays valid
                    ps.randomise_all(real_momenta=real)
                    valid(res, label + " randomise_all", ps, n, field, real, spinors=not (real and n == 3))
                    ps = Particles(n, field=field, real_momenta=real)
                    valid(res, label + " unseeded", ps, n, field, real, spinors=not (real and n == 3))
                    ps = Particles(n, field=field, real_momenta=real, fix_mom_cons=False, seed=seed)
                    if any(not is_zero(p.m2) for p in ps):
                        res.fail(label, "unconstrained particles are not massless")
                elif s != base:
                    res.fail(label, "same seed, different point")
    elif kind == "distinct":
        _, fname, n, seeds = shard
        field = ref.make_field(fname)
        seen = {}
        for seed in seeds:
            s = snap(Particles(n, seed=seed, field=field))[0]
            res.case((fname, n, seed, "distinct"), "distinct")
            if s in seen:
                res.fail("%s n=%d seeds %s %s" % (fname, n, seen[s], seed), "different seeds give the same point")
            seen[s] = seed
        a, b = snap(Particles(n, field=field))[0], snap(Particles(n, field=field))[0]
        if a == b:
            res.fail("%s n=%d unseeded" % (fname, n), "two unseeded points are identical")
    elif kind == "twistor":
        _, fname, n, seed = shard
        field = ref.make_field(fname)
        ps = Particles(n, seed=seed, field=field)
        ps.randomise_twistor()
        label = "twistor %s n=%d seed=%d" % (fname, n, seed)
        if not all(is_zero(x) for x in ps.total_mom.flatten()) or any(not is_zero(p.m2) for p in ps):
            res.fail(label, "twistor point is not massless and conserved")
        for p in ps:
            for b in coherent(p, i_unit(field)):
                res.fail(label, b)
        res.case((fname, n, seed, "tw"), "twistor")


OPS = {
    "plain": dict(),
    "real": dict(real_momenta=True),
    "free": dict(fix_mom_cons=False),
    "masses": dict(internal_masses=("m_t", "m_h")),
    "real-free": dict(real_momenta=True, fix_mom_cons=False),
    "other-seed": dict(seed=1),
    "other-n": dict(n=1),
    "other-field": dict(field=1),
    "unseeded": dict(seed=None),
    "plain+randomise": dict(),
    "plain+change": dict(),
}


def forked(func):
    """Result of func() in a forked child, so that nothing it leaves behind in the process survives."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", func())
            except Exception as e:
                out = ("error", "%s: %s" % (type(e).__name__, str(e)[:200]))
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def construct(op, fname, n, seed, others):
    kw = dict(OPS[op])
    if "n" in kw:
        n += kw.pop("n")
    field = ref.make_field(others if kw.pop("field", None) else fname)
    if "seed" in kw:
        k = kw.pop("seed")
        seed = None if k is None else seed + k
    ps = Particles(n, seed=seed, field=field, **kw)
    if op == "unseeded":
        return "valid"
    out = (repr(snap(ps)), sorted(map(str, ps.internal_masses)), ps.multiplicity, str(ps.field))
    if op.startswith("real") and fname == "mpc":
        out += ([abs(mpmath.im(x)) < ref.TOL for p in ps for x in p.four_mom].count(False),)
    if op == "plain+randomise":
        ps.randomise_all()
    if op == "plain+change":                 # nothing done to a point reaches points constructed later
        ps[1].r_sp_d = ps[2].r_sp_d
        ps.internal_masses.add("m_x")
        ps[1].r2_sp[0, 0] = ps[1].r2_sp[0, 0] + 1
        ps[3].l_sp_d[0, 0] = ps[3].l_sp_d[0, 0] + 1
        ps.pop()
    return out


def opt_worker(shard, res):
    """All sequences of constructions: each one gives what it gives as the first thing a process does."""
    _, fname, others, n, seed, first, depth = shard
    names = [o for o in OPS if not (o.startswith("real") and fname != "mpc")]
    if first not in names:
        return
    fresh = {op: forked(lambda op=op: construct(op, fname, n, seed, others)) for op in names}
    for op, (st, val) in fresh.items():
        if st != "ok":
            res.fail("%s n=%d seed=%s %s" % (fname, n, seed, op), "construction failed: " + val)
            return
        if op.startswith("real") and fname == "mpc" and val[-1]:
            res.fail("%s n=%d seed=%s %s" % (fname, n, seed, op), "%d components of the momenta are not real" % val[-1])
    import itertools
    for d in range(1, depth):
        for rest in itertools.product(names, repeat=d):
            seq = (first,) + rest
            res.current = str(seq)
            st, val = forked(lambda: [construct(op, fname, n, seed, others) for op in seq])
            label = "%s n=%d seed=%s constructions %s" % (fname, n, seed, " then ".join(seq))
            res.case((fname, n, seed, seq), "constructions in a row")
            res.transitions += len(seq)
            if st != "ok":
                res.fail(label, val)
                continue
            for op, v in zip(seq, val):
                if v != fresh[op][1]:
                    res.fail(label, "%s gives another point than in a fresh process" % op)
                    break


SUB = r"""
import sys, json; sys.path.insert(0, %r); sys.path.insert(0, %r)
import warnings; warnings.simplefilter('ignore')
from mc import common, ref
from lips import Particles
out = {}
for f in %r:
    field = ref.make_field(f)
    for n in (4, 6):
        for seed in (0, 1, 7):
            ps = Particles(n, seed=seed, field=field, internal_masses=('m_t', 'm_h', 'M_W'))
            out['%%s %%d %%d' %% (f, n, seed)] = repr(ref.snapshot(ps))
print('@@' + json.dumps(out))
"""


def sub_worker(shard, res):
    """The same seed in fresh processes with different hash seeds."""
    outs = []
    for hs in shard:
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", SUB % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), REPO, FIELDS)],
                           capture_output=True, text=True, env=env, timeout=300)
        line = [l for l in r.stdout.splitlines() if l.startswith("@@")]
        if not line:
            res.fail("process hashseed=%s" % hs, "generation failed in a fresh process: " + r.stderr[-400:])
            return
        outs.append(json.loads(line[0][2:]))
    for k in outs[0]:
        res.case(("proc", k), "process")
        for o in outs[1:]:
            if o[k] != outs[0][k]:
                res.fail("process " + k, "same seed gives different points in different processes")


def main():
    ck = Check("C03")
    ck.rule = "all multiplicities 3..13 x 8 fields x seeds x 5 histories, and all sequences of 2 (thorough: 3) constructions out of 11 option sets, each in a forked process; every generated point checked in full; fresh processes with different hash seeds"
    hist = [0, 1, 2, 3, 4]
    nseeds = 60 if ck.thorough else 10
    shards = []
    for fname in FIELDS:
        for n in range(3, 14):
            seeds = list(range(nseeds)) + [2 ** 31, -5 + ck.seed]
            if fname == "mpc" and not ck.thorough:
                seeds = seeds[:5]
            if n > 9:
                seeds = seeds[:2]
            for ch in chunks(seeds, 6 if ck.thorough else 2):
                shards.append(("gen", fname, n, ch, hist, False))
        shards.append(("distinct", fname, 5, list(range(30))))
    for n in range(3, 13):
        shards.append(("gen", "mpc", n, list(range(20 if ck.thorough else 4 if n < 9 else 1)), hist, True))
    for n in range(4, 8):
        for seed in range(3):
            shards.append(("twistor", "mpc", n, seed))
            shards.append(("twistor", "F2147483629", n, seed))
    ck.run(worker, shards)
    ck.run(opt_worker, [("opt", f, o, n, seed, op, 3 if ck.thorough and n == 5 else 2) for f, o in (("mpc", "F1000003"), ("F2147483629", "mpc"), ("Q", "Qi"), ("Z1000003^5", "Q"))
                        for n, seed in ((5, 0), (4, 7), (6, 3)) for op in OPS])
    ck.run(sub_worker, [(0, 1, 12345)])
    ck.assumptions += ["prime fields are large, so that two random spinors are never parallel in the explored seeds"]
    ck.finish()


if __name__ == "__main__":
    main()
