"""C17: every multiplicity x option combination: catalogue complete, duplicate-free, evaluable, monotone in the options, independent of hash seed and history."""
import itertools
import json
import os
import subprocess
import sys
from .common import Check, chunks, REPO, SCRATCH, VERIF
from . import ref, invstr
from .ref import Ref, conserved_spinors, el, lips_point, same

KINDS = ["2", "3", "4", "5", "s", "D", "O", "P", "tr5"]
SUB = r"""
import sys, json, random, warnings; sys.path.insert(0, %r)
warnings.simplefilter('ignore')
import lips
assert lips.__file__.startswith(%r)
from lips import Invariants, Particles
args = json.loads(sys.argv[1])
out = []
for history in args['histories']:
    random.seed(history)
    if history:
        Particles(5, seed=history)
    I = Invariants(args['n'], no_cached=True, **args['opts'])
    d = {k: getattr(I, 'invs_' + k) for k in %r}
    d['full'], d['N'], d['minus4'] = I.full, I.invs_N, I.full_minus_4_brackets
    out.append(d)
print('@@' + json.dumps(out))
"""


def opt_name(o):
    return "hard-coded %d, restrict3 %d, restrict4 %d, further %d" % o


def opt_kw(o):
    return dict(no_hard_coded_ones=not o[0], Restrict3Brackets=bool(o[1]), Restrict4Brackets=bool(o[2]), FurtherRestrict4Brackets=bool(o[3]))


def build(n, o, hashseed, histories):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", SUB % (REPO, os.path.realpath(REPO), KINDS), json.dumps(dict(n=n, opts=opt_kw(o), histories=histories))],
                       capture_output=True, text=True, env=env, timeout=850)
    line = [l for l in r.stdout.splitlines() if l.startswith("@@")]
    if not line:
        return None, r.stderr[-500:]
    return json.loads(line[0][2:]), None


def connected(n, legs):
    """Do the legs form one block of neighbours on the cycle?"""
    legs = set(legs)
    seen, todo = set(), [min(legs)]
    while todo:
        x = todo.pop()
        if x in legs and x not in seen:
            seen.add(x)
            todo += [x % n + 1, (x - 2) % n + 1]
    return seen == legs


def spec(n, o):
    """The entries that have to be there, up to sign: kind -> strings, written down independently of lips (four-brackets: see FROZEN)."""
    hard, r3, r4, fr = o
    legs = list(range(1, n + 1))
    out = {k: [] for k in KINDS}
    for i, j in itertools.combinations(legs, 2):
        out["2"].append("⟨%d|%d⟩" % (i, j))
        if n != 4:
            out["2"].append("[%d|%d]" % (i, j))
    for a, d in itertools.product(legs, repeat=2):
        rest = [x for x in legs if x not in (a, d)]
        for r in range(2, len(rest) // 2 + 1):
            for S in itertools.combinations(rest, r):
                C = [x for x in rest if x not in S]
                if len(C) == len(S) and S[0] != rest[0]:
                    continue
                if r3 and not connected(n, set(S) | {a, d}) and not connected(n, set(C) | {a, d}):
                    continue
                out["3"].append("⟨%d|(%s)|%d]" % (a, "+".join(map(str, S)), d))
    if n == 6 and hard:
        out["3"] += [x for x in ["⟨2|(1+3)|5]", "⟨3|(1+5)|4]", "⟨6|(1+3)|4]", "⟨6|(2+4)|3]", "⟨4|(3+5)|1]", "⟨2|(1+4)|5]", "⟨4|(2+5)|1]", "⟨6|(2+5)|3]", "⟨3|(4+6)|1]"] if x not in out["3"]]
    for m in range(3, n // 2 + 1):
        for S in itertools.combinations(legs, m):
            if 2 * m != n or 1 in S:
                out["s"].append("s_" + "".join(map(str, S)))
    if n >= 6:
        for a, b, c in itertools.combinations(legs, 3):       # three neighbouring blocks of at least two legs, starting at a, b, c
            if b - a >= 2 and c - b >= 2 and a + n - c >= 2:
                out["D"].append("Δ_%d%d%d" % (a, b, c))
                if n == 6:
                    for x, y, z in ((a, b, c), (b, c, a), (c, a, b)):
                        out["O"].append("Ω_%d%d%d" % (x, y, z))
                        out["P"].append("Π_%d%d%d" % (x, y, z))
    if n == 6:
        out["D"] += ["Δ_15|26|34", "Δ_14|23|56", "Δ_13|24|56"]
    if n >= 5:
        out["tr5"] = ["tr5_" + "".join(map(str, q)) for q in itertools.combinations(legs[:-1], 4)]
    if n >= 7:
        for i in legs:
            order = [(i + k) % n + 1 for k in range(n - 1)]
            for x in range(2, n - 1):
                for y in range(x + 2, n - 2):
                    b = ["+".join(map(str, B)) for B in (order[:x], order[x:y], order[y:])]
                    if len(order) - y >= 2:
                        for k in range(3):
                            out["5"].append("⟨%d|(%s)|(%s)|(%s)|%d]" % (i, b[k], b[(k + 1) % 3], b[(k + 2) % 3], i))
    if n == 7:
        out["4"] = ["⟨1|(5+6)|(2+7)|1⟩", "[1|(5+6)|(2+7)|1]", "Δ_12|347|56"]
    return out


FROZEN = os.path.join(VERIF, "spec", "four_brackets.json")


def canon(x):
    return min(x.n % x.p, (-x).n % x.p)


def worker(shard, res):
    n, o, seeds, histories, write = shard
    label = "n=%d %s" % (n, opt_name(o))
    res.current = label
    got = None
    for hs in seeds:
        out, err = build(n, o, hs, histories)
        if out is None:
            res.fail(label, "construction failed with hash seed %s: %s" % (hs, err))
            return
        for d in out:
            res.transitions += 1
            if got is None:
                got = d
            elif d != got:
                res.fail(label, "the catalogue differs between constructions (hash seed %s): %s" % (hs, [k for k in d if d[k] != got[k]]))
    res.case((n, o, "built"), "catalogue of %d" % n)
    parts = sum((got[k] for k in KINDS), [])
    if sorted(parts) != sorted(got["full"]):
        res.fail(label, "full is not the union of the kinds")
    if sorted(got["N"]) != sorted(got["3"] + got["4"] + got["5"]) or sorted(got["minus4"]) != sorted(x for k in KINDS if k != "4" for x in got[k]):
        res.fail(label, "invs_N or full_minus_4_brackets is not the union of its kinds")
    field = ref.make_field("F2147483647")
    sp = conserved_spinors(lambda x: el(field, x), n, 1, span=200003)
    R, ps = Ref(sp), lips_point(sp, field)
    want = spec(n, o)
    frozen = json.load(open(FROZEN)).get("%d %d%d%d" % ((n,) + o[1:] if o[2] else (n, o[1], 0, 1)))
    if frozen:
        want["4"] = frozen.split(";")
    allv = {}
    for k in KINDS:
        vals = {}
        for inv in got[k]:
            res.case(None, "entry of kind " + k)
            res.n_states += 1
            try:
                x = invstr.value(R, inv)
            except Exception as e:
                res.fail(label, "entry %s is not an invariant: %s" % (inv, e))
                continue
            try:
                y = ps(inv)
            except Exception as e:
                res.fail(label, "entry %s does not evaluate: %s" % (inv, str(e)[:100]))
                continue
            if not same(x, y):
                res.fail(label, "entry %s evaluates to another value" % inv)
            c = canon(x)
            if c == 0:
                res.fail(label, "entry %s vanishes identically" % inv)
            if c in vals and (k != "4" or (o[2] and o[3])):
                res.fail(label, "entries %s and %s are equal up to sign" % (inv, vals[c]))
            vals[c] = inv
        allv[k] = vals
        for inv in want[k]:
            if canon(invstr.value(R, inv)) not in vals:
                res.fail(label, "%s is missing" % inv)
        if k in "2s" and len(vals) != len(want[k]):
            res.fail(label, "%d entries of kind %s, %d expected" % (len(vals), k, len(want[k])))
    if o == (1, 1, 1, 1):
        for k, q in itertools.combinations(KINDS, 2):
            for c in set(allv[k]) & set(allv[q]):
                res.fail(label, "entries %s and %s are equal up to sign" % (allv[k][c], allv[q][c]))
    if len(set(got["full"])) != len(got["full"]):
        res.fail(label, "an entry is listed twice")
    with open(write, "w") as fh:
        json.dump({k: {str(c): inv for c, inv in v.items()} for k, v in allv.items()}, fh)
    res.traces += 1


def main():
    ck = Check("C17")
    ck.rule = "every multiplicity 4..8 x every combination of the four options (8 restricted; thorough: and unrestricted), several hash seeds and random states; every entry evaluated, required entries enumerated independently"
    T = ck.thorough
    opts = [o for o in itertools.product((1, 0), repeat=4) if o[2] or o[3]]
    shards, files = [], {}

    def add(n, o, seeds, histories):
        files[n, o] = os.path.join(SCRATCH, "cat-%d-%d%d%d%d.json" % ((n,) + o))
        shards.append((n, o, seeds, histories, files[n, o]))
    eight = [(1, 1, 1, 1)] if not T else [(h, a, b, c) for h, a, b, c in opts if h]
    for o in eight:
        add(8, o, (0, 5) if o == (1, 1, 1, 1) or T else (0,), [0])
    for n in (6, 7, 5, 4):
        for o in opts:
            slow = n == 6 and o[0] and (not o[2] or not o[3])
            seeds = (0, 1, 2, 3) if not slow and n < 7 else (0, 3)
            add(n, o, seeds + ((11, 12, 13, 14, 15, 16) if T and not slow else ()), [0, 3] if not slow else [0])
    ck.run(worker, shards, limit=880)
    got = {k: json.load(open(f)) for k, f in files.items() if os.path.exists(f)}
    res = ck.res
    for (n, o), (m, q) in itertools.permutations(got, 2):
        if n == m and all(x >= y for x, y in zip(o[1:], q[1:])) and o[0] <= q[0] and o != q:      # q is less restricted
            res.case((n, o, q), "relaxed")
            for k in KINDS:
                lost = [got[n, o][k][c] for c in set(got[n, o][k]) - set(got[n, q][k])]
                if lost:
                    res.fail("n=%d %s -> %s" % (n, opt_name(o), opt_name(q)), "relaxing the options loses %s" % sorted(lost)[:5])
    ck.assumptions += ["'equal up to sign' and 'vanishing' are decided at a generic point over a 31-bit prime field",
                       "the four-brackets that have to be listed are those of spec/four_brackets.json (up to momentum conservation and sign); all other kinds are enumerated from their definition"]
    ck.finish()


if __name__ == "__main__":
    main()
