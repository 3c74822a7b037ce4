"""C01: explicit-state exploration of the real Particle object under all representation assignments."""
import copy
import itertools
import numpy
from .common import Check, chunks
import lips
from lips import Particle
from . import ref
from .ref import arr, el, same_arr, key, coherent, i_unit, is_zero, det

SPIN = ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u")
SHAPE = {"r_sp_d": lambda x, y: [[x], [y]], "r_sp_u": lambda x, y: [[x, y]], "l_sp_d": lambda x, y: [[x, y]], "l_sp_u": lambda x, y: [[x], [y]]}
MATS = ("r2_sp", "r2_sp_b")
VECS = ("four_mom", "four_mom_d")


def build(state, field):
    """A real particle put in the given canonical state (through the public constructor)."""
    kind, vals = state
    if kind == "sp":
        a, b, c, d = (el(field, v) for v in vals)
        return Particle((arr([[a], [b]]), arr([[c, d]])), field=field)
    return Particle(arr([[el(field, vals[0]), el(field, vals[1])], [el(field, vals[2]), el(field, vals[3])]]), field=field)


def spin_vals(p):
    return None if p.r_sp_d is None else [x for x in p.r_sp_d.flatten()] + [x for x in p.l_sp_d.flatten()]


def canon(p):
    sv = spin_vals(p)
    return (tuple(key(x) for x in p.r2_sp.flatten()), None if sv is None else tuple(key(x) for x in sv))


def apply_and_check(p, op, field, iu, conv, res, label):
    """Apply one operation to the real particle; compare with the model."""
    before_sp = spin_vals(p)
    name, vals = op
    if name in SPIN:
        if before_sp is None:
            return False           # no other-handed spinor to keep
        v = [el(field, x) for x in vals]
        setattr(p, name, arr(SHAPE[name](*v)))
        if not same_arr(getattr(p, name), SHAPE[name](*v)):
            res.fail(label, "assigned %s does not read back" % name, op=op)
        now = spin_vals(p)
        keep = slice(2, 4) if name[0] == "r" else slice(0, 2)
        if now is None or not all(ref.same(x, y) for x, y in zip(now[keep], before_sp[keep])):
            res.fail(label, "assigning %s changed the other-handed spinor" % name, op=op)
        if now is not None:
            a, b, c, d = now
            if not same_arr(p.r2_sp, [[d * b, -(d * a)], [-(c * b), c * a]]):
                res.fail(label, "momentum is not the product of the spinors after assigning %s" % name, op=op)
    elif name in MATS or name in VECS:
        v = [el(field, x) for x in vals]
        if name in MATS:
            want = [[v[0], v[1]], [v[2], v[3]]]
        else:
            want = v
        setattr(p, name, arr(want))
        if not same_arr(getattr(p, name), want):
            res.fail(label, "assigned %s does not read back" % name, op=op)
        P = tuple(p.r2_sp.flatten())
        massless = is_zero(det(P))
        if massless and not is_zero(P[3]):
            now = spin_vals(p)
            if now is None:
                res.fail(label, "massless momentum left without spinors", op=op)
            elif conv == "symmetric":
                if not (ref.same(now[0], now[2]) and ref.same(now[0] * now[2], P[3])):
                    res.fail(label, "symmetric convention violated", op=op, spinors=str(now))
            else:
                if not (ref.same(now[0], P[3]) and ref.same(now[2], el(field, 1))):
                    res.fail(label, "asymmetric convention violated", op=op, spinors=str(now))
        elif massless and all(is_zero(x) for x in P) is False and is_zero(P[3]) and spin_vals(p) is not None and coherent(p, iu):
            res.fail(label, "stale spinors", op=op)
    elif name == "swap":
        oldP = tuple(p.r2_sp.flatten())
        p.angles_for_squares()
        if not same_arr(p.r2_sp, [[oldP[0], oldP[2]], [oldP[1], oldP[3]]]):
            res.fail(label, "swap does not transpose the momentum", op=op)
        now = spin_vals(p)
        if before_sp is not None and not all(ref.same(x, y) for x, y in zip(now, before_sp[2:] + before_sp[:2])):
            res.fail(label, "swap does not exchange the spinors", op=op)
    return True


def verify(p, field, iu, res, label, op):
    bad = coherent(p, iu)
    if iu is not None and field.name != "rational" and p.four_mom is None and all(ref.in_field(x, field) for x in p.r2_sp.flatten()):
        bad.append("four-momentum undefined although the field contains i")
    for b in bad:
        res.fail(label, "%s after %s" % (b, op), op=op)


def worker(shard, res):
    mode = shard[0]
    if mode == "closure":
        _, fname, conv, starts, ops = shard
        field = ref.make_field(fname)
        iu = i_unit(field)
        lips.spinor_convention = conv
        for st in starts:
            p0 = build(st, field)
            verify(p0, field, iu, res, "%s/%s construct %s" % (fname, conv, st), "construct")
            res.states.add((fname, conv, canon(p0)))
            for op in ops:
                p = build(st, field)
                label = "%s/%s %s then %s" % (fname, conv, st, op)
                res.current = label
                if op[0] in VECS and iu is None:
                    continue
                try:
                    if not apply_and_check(p, op, field, iu, conv, res, label):
                        continue
                except Exception as e:
                    res.fail(label, "unexpected %s: %s" % (type(e).__name__, e), op=op)
                    continue
                verify(p, field, iu, res, label, op)
                res.transitions += 1
                res.case((fname, conv, canon(p)), op[0])
    elif mode == "seq":
        _, fname, conv, st, first, ops, depth = shard
        field = ref.make_field(fname)
        iu = i_unit(field)
        lips.spinor_convention = conv
        for rest in itertools.product(ops, repeat=depth - 1):
            p = build(st, field)
            label = "%s/%s %s seq %s" % (fname, conv, st, (first,) + rest)
            res.current = label
            for op in (first,) + rest:
                if op[0] in VECS and iu is None:
                    continue
                try:
                    if not apply_and_check(p, op, field, iu, conv, res, label):
                        continue
                except Exception as e:
                    res.fail(label, "unexpected %s: %s" % (type(e).__name__, e), op=op)
                    break
                verify(p, field, iu, res, label, op)
                res.transitions += 1
            res.case((fname, conv, canon(p)), "seq", sample=label if res.evaluations == 3 else None)
            res.traces += 1
    elif mode == "cast":
        _, fname, tname, conv, states = shard
        f1, f2 = ref.make_field(fname), ref.make_field(tname)
        lips.spinor_convention = conv
        for st in states:
            p = build(st, f1)
            label = "cast %s->%s %s" % (fname, tname, st)
            res.current = label
            if p.r_sp_d is None:
                continue
            try:
                p.to_field(f2)
            except Exception as e:
                res.fail(label, "unexpected %s: %s" % (type(e).__name__, e))
                continue
            verify(p, f2, i_unit(f2), res, label, "cast")
            want = [el(f2, v) for v in st[1]]
            if not all(ref.in_field(x, f2) and ref.same(x, y) for x, y in zip(spin_vals(p), want)):
                res.fail(label, "cast does not convert the spinors", got=str(spin_vals(p)))
            if p.field.name != f2.name:
                res.fail(label, "field not updated")
            # later assignments happen in the new field
            q = [el(f2, 2), el(f2, 3)]
            p.r_sp_d = arr([[q[0]], [q[1]]])
            verify(p, f2, i_unit(f2), res, label, "cast then assign")
            res.transitions += 2
            res.case((fname, tname, canon(p)), "cast")


REPS = ("four_mom", "four_mom_d", "r2_sp", "r2_sp_b", "r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u")
MAKE = ((3, 1, 2, 7), (5, 2, 1, 4), (1, 3, 8, 2))


def sharing_worker(shard, res):
    """A representation of one particle assigned to another: what is done to either afterwards never shows in the other."""
    _, fname, rep = shard
    field = ref.make_field(fname)
    iu = ref.i_unit(field)

    def mk(k):
        return ref.lips_particle(tuple(ref.el(field, x) for x in MAKE[k]), field)

    def snap(p):
        return [None if getattr(p, r) is None else [ref.key(x) for x in getattr(p, r).flatten()] for r in REPS]
    reps = [r for r in REPS if getattr(mk(0), r) is not None]
    if rep not in reps:
        return
    ops = {"set " + r: (lambda r: lambda p: setattr(p, r, getattr(mk(2), r)))(r) for r in reps}
    ops["swap"] = lambda p: p.angles_for_squares()
    ops["randomise"] = lambda p: p.randomise()
    ops["randomise spinors"] = lambda p: p.randomise_spinors_in_field()
    for first, second in itertools.product(ops, [None] + list(ops)):
        for on_target in (True, False):
            p, q = mk(0), mk(1)
            setattr(p, rep, getattr(q, rep))
            a, b = (p, q) if on_target else (q, p)
            keep = snap(b)
            label = "%s %s of q assigned to p, then %s%s on %s" % (fname, rep, first, ", " + second if second else "", "p" if on_target else "q")
            res.current = label
            for nm in (first, second):
                if nm:
                    ops[nm](a)
                    res.transitions += 1
            if snap(b) != keep:
                res.fail(label, "the other particle changed in %s" % [r for r, x, y in zip(REPS, keep, snap(b)) if x != y])
            for x in (p, q):
                for bad in ref.coherent(x, iu):
                    res.fail(label, bad)
            res.case(label, "shared")


SPS = ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u")


def spinor_array_worker(shard, res):
    """One array used for two spinors (of two particles or of one, of any index position and handedness, given flat, as a row or
    as a column), and a shallow copy of a particle (p + 0, sum, copy.copy; massless, or massive with a spin index) then changed:
    values as assigned, shapes and the other particle untouched."""
    _, fname = shard
    field = ref.make_field(fname)
    iu = ref.i_unit(field)

    def mk(k):
        return ref.lips_particle(tuple(ref.el(field, x) for x in MAKE[k]), field)

    def snap(p):
        return [None if getattr(p, r) is None else (getattr(p, r).shape, [ref.key(x) for x in getattr(p, r).flatten()]) for r in REPS]

    def flat(a):
        return [ref.key(x) for x in a.flatten()]
    for src, dst in itertools.product(SPS, SPS):
        for same in (False, True):
            label = "%s %s of q assigned to %s of %s" % (fname, src, dst, "q" if same else "p")
            res.current = label
            q = mk(1)
            p = q if same else mk(0)
            before, given = snap(q), flat(getattr(q, src))
            setattr(p, dst, getattr(q, src))
            res.transitions += 1
            if flat(getattr(p, dst)) != given:
                res.fail(label, "%s is not the assigned one" % dst)
            if not same and snap(q) != before:
                res.fail(label, "q changed in %s" % [r for r, x, y in zip(REPS, before, snap(q)) if x != y])
            for x in (p, q):
                for bad in ref.coherent(x, iu):
                    res.fail(label, bad)
            res.case(label, "array")
    for shape in ((2, ), (1, 2), (2, 1)):
        for first, second in itertools.product(SPS, SPS):
            for same in (False, True):
                label = "%s one array of shape %s assigned to %s of p, then to %s of %s" % (fname, shape, first, second, "p" if same else "q")
                res.current = label
                v = numpy.array([ref.el(field, 6), ref.el(field, 5)], dtype=object).reshape(shape)
                p = mk(0)
                q = p if same else mk(1)
                setattr(p, first, v)
                before = snap(p)
                setattr(q, second, v)
                res.transitions += 2
                if v.shape != shape:
                    res.fail(label, "the shape of the given array changed")
                if flat(getattr(q, second)) != flat(v):
                    res.fail(label, "%s is not the assigned one" % second)
                if not same and snap(p) != before:
                    res.fail(label, "p changed in %s" % [r for r, x, y in zip(REPS, before, snap(p)) if x != y])
                for x in (p, q):
                    for bad in ref.coherent(x, iu):
                        res.fail(label, bad)
                res.case(label, "array")
    from lips import Particles
    legs = Particles([ref.lips_particle(tuple(ref.el(field, x + k) for x in MAKE[k % 3]), field) for k in range(4)], field=field, fix_mom_cons=False)
    originals = {"massless": lambda: mk(0)}
    for pos, val in itertools.product("ud", (all, 1, 2)):
        originals["massive " + pos + ("" if val is all else str(val))] = (
            lambda pos=pos, val=val: legs.cluster([[1, 2], [3], [4]], massive_fermions=((1, pos, val), ))[1])
    copies = {"+ 0": lambda p: p + 0, "0 +": lambda p: 0 + p, "- 0": lambda p: p - 0, "sum": lambda p: sum([p]), "copy": copy.copy}
    for (on, mo), (cn, dup), on_copy in itertools.product(originals.items(), copies.items(), (True, False)):
        ops = {"swap": lambda p: p.angles_for_squares(), "randomise": lambda p: p.randomise()}
        if on == "massless":
            ops.update({"set " + r: (lambda r: lambda p: setattr(p, r, getattr(mk(2), r)))(r) for r in (REPS if fname == "mpc" else SPS) if getattr(mk(2), r) is not None})
        for seq in itertools.chain(((o, ) for o in ops), itertools.product(ops, ops)):
            label = "%s %s copied with %s, then %s on the %s" % (fname, on, cn, ", ".join(seq), "copy" if on_copy else "original")
            res.current = label
            p = mo()
            q = dup(p)
            if snap(p) != snap(q):
                res.fail(label, "the copy differs from the original")
            a, b = (q, p) if on_copy else (p, q)
            keep = snap(b)
            for nm in seq:
                if nm == "randomise" and on != "massless":
                    continue
                ops[nm](a)
                res.transitions += 1
            if snap(b) != keep:
                res.fail(label, "the other particle changed in %s" % [r for r, x, y in zip(REPS, keep, snap(b)) if x != y])
            res.case(label, "copy")


def main():
    ck = Check("C01")
    ck.rule = ("BFS closure: every assignment of every value to every representation from every massless state of the particle over F_p "
               "(plus massive and degenerate momenta), all assignment sequences to a depth over representative values in every field, all casts")
    shards = []
    # 1. closure over small prime fields: all spinor states x all ops/values
    for fname, small in (("F3", True), ("F5", False)) + ((("F7", False),) if ck.thorough else ()):
        p = int(fname[1:])
        R = range(p)
        states = [("sp", v) for v in itertools.product(R, repeat=4)]
        if fname == "F5" and not ck.thorough:
            states = [("sp", v) for v in itertools.product(R, repeat=4) if sum(1 for x in v if x == 0) >= 2] + [("sp", (1, 2, 3, 4)), ("sp", (2, 1, 1, 3)), ("sp", (3, 3, 2, 2))]
        if fname == "F7":
            states = [("sp", v) for v in itertools.product((0, 1, 3), repeat=4)]
        states += [("m", (1, 2, 3, 1)), ("m", (1, 0, 0, 1)), ("m", (0, 0, 1, 0))]
        ops = [(nm, v) for nm in SPIN for v in itertools.product(R, repeat=2)] + [("swap", None)]
        mats = [(d * b % p, -d * a % p, -c * b % p, c * a % p) for a, b, c, d in itertools.product(R, repeat=4)]
        mats = sorted(set(mats))
        massive = [(1, 2, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1), (2, 1, 0, 0), (1, 1, 0, 2), (0, 0, 1, 0)]
        wide = [(nm, v) for nm in MATS + VECS for v in itertools.product(R, repeat=4)]
        for conv in ("symmetric", "asymmetric"):
            for ch in chunks(states, 8):
                shards.append(("closure", fname, conv, ch, ops))
            some = states[:2] + states[len(states) // 2:len(states) // 2 + 2] + states[-3:]
            if small:
                for ch in chunks(states, 8):
                    shards.append(("closure", fname, conv, ch, [(nm, v) for nm in MATS + VECS for v in mats + massive]))
            for ch in chunks(wide, 8):
                shards.append(("closure", fname, conv, some[:4] if not ck.thorough else some, ch))
    # 2. all sequences over representative values, every field
    vals2 = [(1, 13), (0, 3)]
    m0 = [(6, -2, -3, 1), (4, 4, 1, 1), (0, 0, 0, 1), (4, 0, 0, 0), (1, 2, 3, 5)]   # massless (square corner), massless with zero corner, massive
    ops = [(nm, v) for nm in SPIN for v in vals2[:2]] + [(nm, v) for nm in MATS for v in m0] + [(nm, v) for nm in VECS for v in ((5, 3, 0, 4), (1, 2, 3, 5), (-2, 0, 0, 2))] + [("swap", None)]
    depth = 3 if ck.thorough else 2
    for fname in ("F13", "F2147483629", "F2147483647", "Z13^3", "Z2147483629^4", "Q", "Qi", "mpc"):
        for conv in ("symmetric", "asymmetric"):
            oo = ops
            if fname in ("Q", "Qi") and conv == "symmetric":
                oo = [o for o in ops if o[0] in SPIN or o[0] == "swap"]     # no square roots in these fields
            if fname == "Q":
                oo = [o for o in oo if o[0] not in VECS]
            if fname[0] == "Z" and conv == "symmetric":
                oo = [o for o in oo if o[0] not in VECS or o[1] != (1, 2, 3, 5)]
            for st in (("sp", (1, 2, 3, 4)), ("sp", (2, 1, 2, 5))):
                for first in oo:
                    shards.append(("seq", fname, conv, st, first, oo, depth))
    # 3. casts
    st = [("sp", v) for v in itertools.product((1, 2, -3, 5), repeat=4)]
    for fname, tname in (("Q", "F13"), ("Q", "F2147483647"), ("Q", "Z13^3"), ("Z13^3", "F13")):
        for ch in chunks(st, 4):
            shards.append(("cast", fname, tname, "symmetric", ch))
    ck.run(worker, shards)
    ck.assumptions += ["in (gaussian) rational fields the symmetric convention needs square roots the number library does not provide: only spinor assignments explored there",
                       "number libraries pyadic, mpmath, fractions are trusted"]
    ck.run(sharing_worker, [("sharing", f, r) for f in ("F2147483629", "mpc") for r in REPS])
    ck.run(spinor_array_worker, [("arrays", f) for f in ("F2147483629", "mpc", "Z10007^3")])
    ck.rule += "; every representation of one particle assigned to another, then every pair of changes to either"
    ck.finish()


if __name__ == "__main__":
    main()
