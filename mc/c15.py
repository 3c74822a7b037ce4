"""C15: setting two invariants: every ordered pair of the catalogue by kind, x values x field; raise or return both values on a valid point."""
import contextlib
import io
import itertools
import warnings
from .common import Check, chunks
import mpmath
from lips import Invariants
from . import ref
from .ref import el
from .c14 import FAULTS, Roots, faulty, judge, start, val

warnings.simplefilter("ignore")
INV = {}
# documented failures in lips (comments in particles_set_pair.py, its tests): kind -> at most this many of all ordered pairs
DOCUMENTED = {(5, "2", "2"): 0, (5, "2", "N"): 24, (5, "3", "3"): 60, (6, "2", "2"): 0, (6, "2", "N"): 48, (6, "2", "s"): 0, (6, "2", "D"): 0,
              (6, "3", "3"): 204, (6, "3", "s"): 0, (6, "3", "D"): 117, (6, "s", "s"): 0, (6, "s", "D"): 20}


def invs(n, kind):
    if n not in INV:
        INV[n] = Invariants(n, no_cached=True)
    return getattr(INV[n], "invs_" + kind)


def pair_value(field, k):
    """Two prescribed values."""
    if k == "generic":
        return val(field, "5"), val(field, "-7")
    if k == "zero":
        return val(field, "0"), val(field, "0")
    if k == "equal":
        return val(field, "small"), val(field, "small")
    x = val(field, "small")
    return x, (x * x if field.name == "mpc" else el(field, field.characteristic ** (field.digits - 1)) if field.name == "padic" else val(field, "5"))


def fault_worker(shard, res):
    """A construction that goes wrong after building the point: the contract is to raise, or to return a point with both values."""
    _, fname, n, pairs = shard
    field = ref.make_field(fname)
    for (a, b), fault in itertools.product(pairs, FAULTS):
        label = "%s n=%d %s, %s with a construction that goes wrong (%s)" % (fname, n, a, b, fault)
        res.current = label
        for first in (True, False):
            # the fault affects both values, or only the second
            ps = start(field, n, 1)
            x, y = pair_value(field, "generic")
            if not faulty(ps, "_set_pair_inner", fault, field):
                res.case((fname, n, a, b, fault), "no separate construction step")
                continue
            if not first:
                scale = mpmath.mpc(0, 1) if fault == "phase" else -1 if fault == "sign" else el(field, 4)
                if fault not in ("phase", "scale", "sign") or field.name != "mpc":
                    continue
                x = x * scale                                               # the first value is the one that comes out, the second is not
                up = ps.__class__._set_pair_inner

                def other(self, *args, **kwargs):
                    hit = [k for k, y in enumerate(args) if y is x]
                    return up(self, *[y / scale if k in hit[:1] else y for k, y in enumerate(args)], **{k: y / scale if y is x and not hit else y for k, y in kwargs.items()})
                ps.__class__ = type("Particles", (ps.__class__,), {"_set_pair_inner": other})
            with Roots(field) as roots, contextlib.redirect_stdout(io.StringIO()):
                try:
                    ps._set_pair(a, x, b, y)
                except Exception:
                    res.case((fname, n, a, b, fault, first), "faulty raised")
                    res.transitions += 1
                    continue
            if fault in ("leg", "massive", "opposite legs"):
                if any(not ref.is_zero(p.m2) for p in ps) or not all(ref.is_zero(z) for z in ps.total_mom.flatten()):
                    res.fail(label, "returned an invalid point")
            else:
                judge(res, label, ps, n, field, [(a, x), (b, y)], roots, up_to_sign=True, check_related=False)
            res.case((fname, n, a, b, fault, first), "faulty set")
            res.transitions += 1


def worker(shard, res):
    if shard[0] == "faults":
        return fault_worker(shard, res)
    _, fname, n, seed, k1, k2, pairs, values, rev = shard
    field = ref.make_field(fname)
    for (a, b), v in itertools.product(pairs, values):
        if rev:
            a, b = b, a
        label = "%s n=%d start %d: %s, %s := %s" % (fname, n, seed, a, b, v)
        res.current = label
        ps = start(field, n, seed)
        x, y = pair_value(field, v)
        with Roots(field) as roots, contextlib.redirect_stdout(io.StringIO()):
            try:
                ps._set_pair(a, x, b, y)
            except Exception as e:
                res.transitions += 1
                tag = "raised %d %s%s%s %s %s" % (n, k1, k2, " reversed" if rev else "", v, fname)
                if roots.missing:
                    res.case((fname, n, seed, a, b, v), "raised, root missing")
                    continue
                res.case((fname, n, seed, a, b, v), tag)
                if DOCUMENTED.get((n, k1, k2)) == 0:
                    res.fail(label, "raised %s: %s" % (type(e).__name__, str(e)[:120]))
                continue
        with warnings.catch_warnings():
            judge(res, label, ps, n, field, [(a, x), (b, y)], roots, up_to_sign=True, check_related=False)
        res.case((fname, n, seed, a, b, v), "set")
        res.transitions += 1


def main():
    ck = Check("C15")
    ck.rule = "every ordered pair (both orders) of catalogue invariants of the stated kinds x values x field: raise, or both values on a valid point; never more failures per kind than the library documents"
    T = ck.thorough
    shards = []

    def add(n, k1, k2, fname, values, rev, seed=1, step=40):
        ps = [(a, b) for a in invs(n, k1) for b in invs(n, k2) if a != b]
        for ch in chunks(ps, max(1, len(ps) // step)):
            shards.append(("pairs", fname, n, seed, k1, k2, ch, values, rev))
    F = "F2147483647"
    for (n, k1, k2) in DOCUMENTED:
        roots = "D" in (k1, k2)
        big = (k1, k2) in (("2", "N"), ("3", "3")) and n == 6
        add(n, k1, k2, "mpc" if roots else F, ["generic"] if big and not T else ["generic", "zero"] if not roots else ["equal", "generic"], False)
        if k1 != k2:
            add(n, k1, k2, "mpc" if roots else F, ["generic"], True)
        if (not big and not roots) or T:
            add(n, k1, k2, "mpc", ["equal", "unequal"] if T or n == 5 else ["unequal"], False)
        if T or (n == 5 and not roots):
            add(n, k1, k2, "Z2147483647^4", ["equal", "unequal"], False)
        if T:
            add(n, k1, k2, "mpc" if roots else F, ["generic"], False, seed=2)
            if k1 != k2:
                add(n, k1, k2, "mpc", ["unequal"], True)
    add(6, "s", "2", F, ["generic"], False)
    add(4, "2", "2", F, ["generic", "zero"], False)
    for n, k1, k2 in ((6, "N", "D"), (6, "N", "s"), (6, "O", "2"), (6, "P", "3"), (6, "s", "tr5"), (7, "2", "2")) + (((7, "2", "3"), (7, "3", "s"), (7, "2", "s"), (7, "s", "s")) if T else ((7, "s", "s"),)):
        try:
            invs(n, k1), invs(n, k2)
        except AttributeError:
            continue
        add(n, k1, k2, F, ["generic"], False)
        if T:
            add(n, k1, k2, F, ["generic"], True)
    for n, k1, k2 in ((5, "2", "2"), (6, "2", "2"), (6, "2", "3"), (6, "2", "s"), (6, "3", "s")):
        ps = [(a, b) for a in invs(n, k1) for b in invs(n, k2) if a != b]
        for fname in ("mpc", F):
            for ch in chunks(ps[::7 if T else 29], 4):
                shards.append(("faults", fname, n, ch))
    ck.run(worker, shards)
    # failures per kind against the documented numbers
    for (n, k1, k2), most in DOCUMENTED.items():
        for tag, cnt in ck.res.outcomes.items():
            head = "raised %d %s%s " % (n, k1, k2)
            if tag.startswith(head) and most and (tag.endswith("equal mpc") or tag.endswith("generic " + F)):
                if cnt > most * (2 if T and tag.endswith("generic " + F) else 1):
                    ck.res.fail("kind %d %s %s: %s" % (n, k1, k2, tag), "%d pairs fail, %d are documented" % (cnt, most))
    ck.assumptions += ["generic start points", "pairs the library documents as unsupported may raise"]
    ck.finish()


if __name__ == "__main__":
    main()
