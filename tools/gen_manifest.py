"""Write MANIFEST.json: python3 tools/gen_manifest.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("explicit-state exploration (BFS to closure) of the real Particle object under all representation assignments", "all particle states over small prime fields, all assignments from each; larger fields along all assignment sequences up to a length"),
 "C02": ("exhaustive enumeration of all arithmetic expression trees up to a depth on the real Particle", "all trees of depth <= 2 (3) over 8 leaf momenta and 6 scalars, in every field"),
 "C03": ("exhaustive enumeration of (multiplicity, field, seed, history) constructions", "all multiplicities 3..9, 8 fields, 5 histories, bounded seeds; the generator's randomness is only covered through those seeds"),
 "C04": ("explicit-state enumeration of small-field points x every choice of legs and axis", "all states over F_3 of the relevant spinors; every ordered pair of legs and axis for n=3..8 in every field"),
 "C05": ("exhaustive enumeration of perturbations and of size patterns against a reference verdict", "every leg and component, every pattern over a small alphabet of sizes"),
 "C06": ("bounded exhaustive enumeration of the notation, on the generic (polynomial-ring) point", "every chain up to the stated length; an identity on the generic point holds at every point"),
 "C07": ("bounded exhaustive enumeration of the invariants, on the generic (polynomial-ring) point", "every index set and order up to the stated multiplicity"),
 "C08": ("bounded exhaustive enumeration of expressions (operator trees x spellings x contexts) against a reference evaluator", "all trees of up to four leaves, every building block in every spelling and context"),
 "C09": ("bounded exhaustive enumeration of all strings over the notation's alphabets against an independent grammar model; audit-hook monitor", "all strings up to the stated length; every python construct in every position"),
 "C10": ("exhaustive exploration of the group action (all permutations x exchange, all pairs, all mutations)", "all symmetries of 3..6 legs"),
 "C11": ("exhaustive enumeration of weights and permutations against brute force", "all weight vectors up to the stated size, all permutations up to n=8 (9)"),
 "C12": ("exhaustive enumeration of ordered groupings and internal-mass definitions", "all ordered groupings of up to 6 legs"),
 "C13": ("exhaustive enumeration of massive-fermion configurations and exchange sequences", "every pair, position and component of one or two massive legs"),
 "C14": ("exhaustive enumeration of (invariant, value, field, multiplicity, option) set operations on the real code", "every invariant of the catalogue; bounded seeds and values"),
 "C15": ("exhaustive enumeration of ordered pairs of invariants on the real code", "every ordered pair of the catalogue at n=5,6 within the stated kinds"),
 "C16": ("fault enumeration: every combination of outcomes of the internal solvers", "every outcome (raise, no-op, corrupt, partial, solve) of each solver stage"),
 "C17": ("exhaustive enumeration of options, multiplicities and hash seeds against an independent combinatorial model", "n=3..8, every option combination, several hash seeds"),
 "C18": ("crash-point enumeration of the real cache writer (LD_PRELOAD fault injector) and all option histories up to a depth", "every write-type system call as a kill point with torn variants"),
 "C19": ("explicit-state exploration of all list-operation sequences up to a depth against a list model", "all sequences up to the stated length"),
 "C20": ("exhaustive enumeration of pairs of points and copy/mutation sequences", "all ordered pairs of the point pool; all copy routes x mutations"),
 "C21": ("exhaustive enumeration of symbolic/numeric splits and casts", "all split patterns within bounds; every invariant kind"),
 "C22": ("exhaustive enumeration of slice kinds, multiplicities, fields, seeds; identities checked in the polynomial ring of the parameters", "n=4..6 within the stated bounds"),
 "C23": ("exhaustive enumeration of ideals x symmetries against evaluation on points", "n=4,5 within the stated bounds"),
 "C24": ("exhaustive enumeration of component patterns and of all sequences of saves, read back by an independent reader", "every sign and size pattern of single components and pairs; all save sequences up to length 3 (4)"),
 "C25": ("exhaustive enumeration of requested invariants, pairs, fields, starting points, seeds and histories on the real solver", "every catalogue invariant and every pair of brackets at n=5, singles at n=4..6 (7)"),
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "mc", p.lower() + ".py")):
        t, n = TECH[p]
        checks.append({"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p, "technique": "model checking: " + t,
                       "level": "fault_enumeration" if p in ("C16", "C18") else "model_checking",
                       "level_note": "Bounded exhaustive on the real code: " + n + ". Trusts numpy, sympy, mpmath, pyadic, syngular and the reference in mc/ref.py; see DESIGN.md."})
    else:
        na.append({"property": p, "reason": "no check yet (under construction)"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
