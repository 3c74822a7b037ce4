"""C19: all sequences of list operations with all indices against a reference list; all spinor names."""
import itertools
from .common import Check, chunks
from lips import Particles, Particle
from . import history, ref
from .ref import arr, el, coherent, i_unit, snapshot, lips_point, conserved_spinors, same_arr

POOL = {}


def parts(field, n):
    key = (str(field), n)
    if key not in POOL:
        POOL[key] = [ref.lips_particle(s, field) for s in conserved_spinors(lambda x: el(field, x), n, 3, span=200003)]
    return POOL[key]


def fresh(field, n):
    return Particles(list(parts(field, 9)[:n]), field=field, fix_mom_cons=False)


def ops(span):
    out = [("set", i) for i in span] + [("del", i) for i in span] + [("insert", i) for i in span]
    return out + [("append", 0), ("pop", 0), ("reverse", 0), ("swap", 0), ("extend", 0), ("clear", 0)]


def apply(ps, model, op, new):
    """One operation on the point and on the reference list; returns a description of a mismatch."""
    name, i = op
    n = len(model)
    inside = 1 <= i <= n
    err = None
    try:
        if name == "set":
            ps[i] = new
        elif name == "del":
            del ps[i]
        elif name == "insert":
            ps.insert(i, new)
        elif name == "append":
            ps.append(new)
        elif name == "extend":
            ps.extend([new, new])
        elif name == "clear":
            ps.clear()
        elif name == "pop":
            got = ps.pop()
        elif name == "reverse":
            ps.reverse()
        elif name == "swap":
            ps[1], ps[2] = ps[2], ps[1]
    except Exception as e:
        err = e
    if name in ("set", "del", "insert") and not inside:
        return None if isinstance(err, IndexError) else "position %d: %s instead of an index error" % (i, "no error" if err is None else type(err).__name__)
    if (name == "pop" and n == 0) or (name == "swap" and n < 2):
        return None if isinstance(err, IndexError) else "no index error"
    if err is not None:
        return "raised %s: %s" % (type(err).__name__, str(err)[:80])
    if name == "set":
        model[i - 1] = new
    elif name == "del":
        del model[i - 1]
    elif name == "insert":
        model.insert(i - 1, new)
    elif name == "append":
        model.append(new)
    elif name == "extend":
        model.extend([new, new])
    elif name == "clear":
        model.clear()
    elif name == "pop":
        if model.pop() is not got:
            return "popped another particle"
    elif name == "reverse":
        model.reverse()
    elif name == "swap":
        model[0], model[1] = model[1], model[0]
    return None


def agree(ps, model, field, pool, slices):
    """Every way of reading."""
    n = len(model)
    if len(ps) != n or ps.multiplicity != n:
        return "length %d, not %d" % (len(ps), n)
    if any(x is not y for x, y in zip(ps, model)) or len(list(iter(ps))) != n:
        return "iteration differs"
    if any(x is not y for x, y in zip(reversed(ps), reversed(model))):
        return "reversed iteration differs"
    for i in range(-2, n + 3):
        try:
            x = ps[i]
        except IndexError:
            if 1 <= i <= n:
                return "position %d raises" % i
            continue
        except Exception as e:
            return "position %d: %s" % (i, type(e).__name__)
        if not 1 <= i <= n:
            return "position %d does not raise" % i
        if x is not model[i - 1]:
            return "position %d is another particle" % i
    for p in pool:
        if (p in ps) != any(p is q for q in model):
            return "membership differs"
        if ps.count(p) != sum(1 for q in model if q is p):
            return "count differs"
    if slices:
        for a, b, c in itertools.product([None] + list(range(-n - 1, n + 2)), [None] + list(range(-n - 1, n + 2)), (None, 1, 2, -1)):
            s = ps[a:b:c]
            if not isinstance(s, Particles) or len(s) != len(model[a:b:c]) or any(x is not y for x, y in zip(s, model[a:b:c])):
                return "slice [%s:%s:%s] differs" % (a, b, c)
            if s.field != field:
                return "slice loses the field"
            if any(x is not y for x, y in zip(ps, model)) or len(ps) != n:
                return "slicing changes the point"
    return None


def worker(shard, res):
    kind = shard[0]
    if kind == "ops":
        _, fname, n, first, depth = shard
        field = ref.make_field(fname)
        pool = parts(field, 9)
        alphabet = ops(range(-2, n + 3))
        for d in range(1, depth + 1):
            for rest in itertools.product(alphabet, repeat=d - 1):
                seq = (first,) + rest
                res.current = str(seq)
                ps, model = fresh(field, n), list(pool[:n])
                for k, op in enumerate(seq):
                    bad = apply(ps, model, op, pool[n + k])
                    if bad:
                        res.fail("n=%d %s" % (n, seq[:k + 1]), bad)
                        break
                    res.transitions += 1
                if not bad:
                    bad = agree(ps, model, field, pool[:n + 3], d == 1)
                    if bad:
                        res.fail("n=%d %s" % (n, seq), "after the operations: " + bad)
                res.case(None, "sequence of %d" % d)
                res.states.add(tuple(pool.index(p) for p in model))
                res.n_states += 1
        res.traces += 1
    elif kind == "slices":
        _, fname, n = shard
        field = ref.make_field(fname)
        pool = parts(field, 9)
        bounds = [None] + list(range(-n - 1, n + 2))
        for a, b in itertools.product(bounds, repeat=2):
            for what, new in (("del", []), ("set", [pool[n]]), ("set", [pool[n], pool[n + 1]]), ("set", [])):
                ps, model = fresh(field, n), list(pool[:n])
                if what == "del":
                    del ps[a:b]
                    del model[a:b]
                else:
                    ps[a:b] = new
                    model[a:b] = new
                bad = agree(ps, model, field, pool[:n + 2], False)
                res.case((n, a, b, what, len(new)), "slice assignment")
                if bad:
                    res.fail("n=%d %s [%s:%s] %d" % (n, what, a, b, len(new)), bad)
    elif kind == "names":
        _, fname, n, labels, double = shard
        field = ref.make_field(fname)
        iu = i_unit(field) if field.name != "rational" else None
        sp = conserved_spinors(lambda x: el(field, x), n, 5, span=200003)
        forms = {"⟨%d|": "r_sp_u", "<%d|": "r_sp_u", "|%d⟩": "r_sp_d", "|%d>": "r_sp_d", "[%d|": "l_sp_d", "|%d]": "l_sp_u"}
        for label, form in itertools.product(labels, forms):
            name = form % label
            key = "%s n=%d %s" % (fname, n, name)
            res.current = key
            ps = lips_point(sp, field)
            before = snapshot(ps)
            val = arr([[el(field, 7), el(field, 11)]])
            if forms[form] in ("r_sp_d", "l_sp_u"):
                val = val.T
            if not 1 <= label <= n:
                for what in ("read", "assign"):
                    try:
                        if what == "read":
                            ps[name]
                        else:
                            ps[name] = val
                        res.fail(key, "%s of a particle that does not exist does not raise" % what)
                    except Exception:
                        pass
                if snapshot(ps) != before:
                    res.fail(key, "a failed assignment changed the point")
                res.case((fname, n, name), "refused")
                continue
            if not same_arr(ps[name], getattr(ps[label], forms[form]).tolist()):
                res.fail(key, "reading gives another spinor")
            if snapshot(ps) != before:
                res.fail(key, "reading changed the point")
            want = list(sp)
            vals = [(name, label, form, val)]
            if double:
                vals += [(f % l, l, f, val.reshape((1, 2) if forms[f] in ("r_sp_u", "l_sp_d") else (2, 1)) * el(field, 5)) for l in labels if 1 <= l <= n for f in forms]
            for name2, l2, f2, v2 in [vals[0]] if not double else vals[1:]:
                ps = lips_point(sp, field)
                want = [list(s) for s in sp]
                for nm, l, f, v in [vals[0]] + ([(name2, l2, f2, v2)] if double else []):
                    res.transitions += 1
                    ps[nm] = v
                    x, y = list(v.flatten())
                    at = {"r_sp_d": (0, (x, y)), "r_sp_u": (0, (-y, x)), "l_sp_d": (2, (x, y)), "l_sp_u": (2, (-y, x))}[forms[f]]
                    want[l - 1][at[0]:at[0] + 2] = at[1]
                    if not same_arr(ps[nm], v.tolist()):
                        res.fail(key, "reading back %s gives another value" % nm)
                exp = snapshot(lips_point([tuple(s) for s in want], field))
                got = snapshot(ps)
                for i, (g, e) in enumerate(zip(got, exp), 1):
                    if g != e:
                        res.fail(key + (" then " + name2 if double else ""), "particle %d is not what the assignment says" % i)
                for i, p in enumerate(ps, 1):
                    for b in coherent(p, iu):
                        res.fail(key, "particle %d: %s" % (i, b))
                res.case((fname, n, name, name2), "assigned")
        for text in ("", "⟨1", "1⟩", "|1", "x", "⟨|", "||1⟩", "⟨1|2", "|1⟩|", " "):
            ps = lips_point(sp, field)
            before = snapshot(ps)
            try:
                ps[text] = arr([[el(field, 7), el(field, 11)]])
                res.fail("%s n=%d name %r" % (fname, n, text), "assigning to an unknown name does not raise")
            except Exception:
                pass
            if snapshot(ps) != before:
                res.fail("%s n=%d name %r" % (fname, n, text), "assigning to an unknown name changed the point")
            res.case((fname, n, text), "unknown name")
        for label in labels:
            for text in ("p%d", "%d", "particle %d"):
                key = "%s n=%d %s" % (fname, n, text % label)
                ps = lips_point(sp, field)
                try:
                    p = ps[text % label]
                except IndexError:
                    if 1 <= label <= n:
                        res.fail(key, "raises")
                    continue
                if not 1 <= label <= n:
                    res.fail(key, "does not raise")
                elif p is not list(ps)[label - 1]:
                    res.fail(key, "is another particle")
                res.case((fname, n, text, label), "particle by name")


def main():
    ck = Check("C19")
    ck.rule = "all sequences of list operations with all indices from -2 to n+2 (depth 3 for n=2,3, thorough 4) and all slices, against a reference list; all spinor names and pairs of assignments by name"
    T = ck.thorough
    F = "F2147483647"
    shards = []
    for n, depth in ((3, 3), (2, 3), (1, 3), (0, 3), (4, 2), (5, 2)) if not T else ((3, 4), (2, 4), (1, 4), (0, 4), (4, 3), (5, 3)):
        for first in ops(range(-2, n + 3)):
            shards.append(("ops", F, n, first, depth))
    for n in range(0, 5):
        shards.append(("slices", F, n))
    for fname in (F, "F2147483629", "mpc", "Q", "Z1000003^5"):
        shards.append(("names", fname, 3, list(range(0, 6)), True))
        for ls in chunks(list(range(0, 15)), 2):
            shards.append(("names", fname, 12, ls, False))
        shards.append(("names", fname, 5, list(range(0, 8)), T))
    ck.run(worker, shards)
    ck.assumptions += ["pop, reverse, extend, clear, count and membership are the list's own; slices are zero-based, as the code documents"]
    ck.run(history.worker, history.shards("C19", ck.thorough))
    ck.rule += "; all sequences of two of 25 changes to a point (thorough: three), everything observed before and between, against a fresh point"
    ck.finish()


if __name__ == "__main__":
    main()
