#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "All representations of a particle always describe the same momentum",
     "After construction and after every sequence of assignments to any representation of a particle (four-momentum, rank-two spinor, "
     "left or right spinor, each with upper or lower index), swaps of left and right spinors, and casts to another field, all "
     "representations agree with one another under the library's fixed conventions and the assigned one has the assigned value. "
     "Assigning one handedness of spinor leaves the other unchanged, and assigning a massless momentum yields spinors whose product is "
     "that momentum, in the selected spinor convention. Assigning to, swapping or randomising one particle never changes another, even after one was given the other's spinor or is a copy of it.",
     ["histories", "inputs", "configurations"],
     "every sequence of assignments/swaps/casts, every value, every number field, both spinor conventions",
     "one test walks four assignments on one random complex momentum; the setters are eight separate hand-written propagation chains, so "
     "a stale representation shows only after particular assignment orders, fields or conventions",
     ["lips/particle.py", "lips/tools.py"],
     [("eight property setters propagating to the other representations", "lips/particle.py GETTERS and SETTERS"),
      ("chirality swap", "lips/particle.py angles_for_squares"), ("field cast", "lips/particle.py to_field")],
     ["Particle attributes r_sp_d, r_sp_u, l_sp_d, l_sp_u, r2_sp, r2_sp_b, four_mom, four_mom_d"],
     [("particle", "eight redundant representations of one momentum", "lips/particle.py")])

prop("C02", "Particle arithmetic is exact linear arithmetic on momenta",
     "Adding, subtracting, negating, summing, scaling and dividing particles yields a particle whose momentum is exactly that linear "
     "combination of the operands' momenta, and no operand changes. The mass squared of any particle equals the Minkowski square of its "
     "four-momentum and the determinant of its rank-two spinor, and the product of two particles' momenta is bilinear and symmetric.",
     ["inputs", "programs"],
     "every expression tree over +, -, unary -, scaling, division up to a depth, over every pair of momenta of a finite field and "
     "representative points of the other fields",
     "no test adds or subtracts particles directly; only clustering exercises sums at random points",
     ["lips/particle.py", "lips/tools.py", "lips/particles_compute.py"],
     [("operators", "lips/particle.py MAGIC METHODS"), ("lsq/m2", "lips/particle.py OPERATIONS"), ("ldot", "lips/tools.py, lips/particles_compute.py")])

prop("C03", "Every generated phase-space point is on shell, conserved and reproducible",
     "For every multiplicity of three or more and every supported number field, a freshly generated phase-space point has massless particles "
     "and zero total momentum (exactly in exact fields, to working precision otherwise), every component lies in the requested field, and real "
     "momenta are real when requested. The same seed always gives the same point, independently of what was generated before.",
     ["inputs", "configurations", "histories"],
     "every outcome of the random draws (enumerated in a tiny field, seeds otherwise), every multiplicity, field and option",
     "tests draw a handful of unseeded points of multiplicity 4-7 in three fields; the seed and real-momentum options are not tested",
     ["lips/particles.py", "lips/particle.py", "lips/tools.py"],
     [("randomise + momentum fixing", "lips/particles.py __init__, randomise_all"), ("per-field generation", "lips/particle.py randomise*")])

prop("C04", "Restoring momentum conservation changes only the two chosen particles",
     "Whenever the two chosen particles allow it, restoring momentum conservation makes the total momentum vanish and leaves every particle "
     "massless; it changes only the right-handed spinors (first choice of axis) or only the left-handed spinors (second choice) of the two chosen "
     "particles and nothing else of the point. With real momenta requested it changes only those two particles, and the result is real, on shell and conserved.",
     ["inputs", "configurations"],
     "every ordered pair of particles, both axes, every multiplicity, every spinor configuration of a tiny field",
     "tests call it with one default pair at n=5,6; which spinors may change is never asserted",
     ["lips/particles.py"],
     [("fix_mom_cons", "lips/particles.py fix_mom_cons")])

prop("C05", "The consistency checks tell the truth about a phase-space point",
     "The momentum-conservation and on-shell checks return true exactly when the total momentum, respectively every particle's mass, vanishes to working precision. "
     "The full consistency check returns those two verdicts together with exactly the requested invariants that are anomalously small, and exactly those that are anomalously large, at that point.",
     ["inputs"],
     "every single and double violation of every magnitude class at every particle and component, in every field; every subset of vanishing brackets",
     "tests only use the checks on good points, where a check that always answers yes is indistinguishable",
     ["lips/particles.py"],
     [("momentum_conservation_check, onshell_relation_check, phasespace_consistency_check", "lips/particles.py")])

prop("C06", "Every spinor string evaluates to its defined contraction",
     "Every angle and square bracket, every longer spinor chain with single particles, sums or differences of momenta between its ends, and every open chain (at either or "
     "both ends) evaluates, for every phase-space point, to the contraction of spinors and momenta that the notation defines, in every accepted spelling. "
     "Evaluation never changes the point.",
     ["inputs", "programs"],
     "every string of the notation up to a number of slots and summands, every choice of particle labels, at a symbolic point standing for all points",
     "tests evaluate some twenty hand-picked strings at random points",
     ["lips/particles_compute.py", "lips/tools.py", "lips/particles.py"],
     [("regex dispatch and contraction", "lips/particles_compute.py compute"), ("string patterns", "lips/tools.py")])

prop("C07", "Mandelstams, traces, Gram determinants and masses equal their definitions",
     "Mandelstam invariants, masses, traces of momenta, the parity-odd trace, three-or-more-corner Gram determinants, the six-point quadratic and difference invariants, the "
     "five-point Gram determinant and the contractions of polarisations and momenta evaluate to their definitions in terms of four-momenta for every point, and satisfy the identities those definitions imply. "
     "Named internal masses evaluate to the value, or to the expression, they were given.",
     ["inputs", "programs"],
     "every label choice of every invariant kind at multiplicities 4-7, at symbolic or massive points",
     "tests check five invariants for one label choice each",
     ["lips/particles_compute.py", "lips/particles.py", "lips/tools.py"],
     [("compute branches tr5/tr/Omega/Pi/Delta/delta5/m/s", "lips/particles_compute.py"), ("ep/pe/ee/ldot", "lips/particles_compute.py")])

prop("C08", "Expressions evaluate to ordinary arithmetic on their building blocks",
     "Every arithmetic expression built from invariants, integers and fractions with +, -, *, /, powers, parentheses, implied multiplication, square roots and the accepted LaTeX and unicode spellings evaluates to the value ordinary precedence gives, "
     "exactly in exact fields. The spelling chosen for an expression never changes its value.",
     ["programs", "inputs"],
     "every expression tree up to a size over every kind of building block, in every spelling",
     "tests evaluate about fifteen expressions; the parser is a cascade of thirty regular-expression rewrites whose interactions depend on neighbouring tokens",
     ["lips/particles_eval.py", "lips/particles_compute.py"],
     [("regex rewriting", "lips/particles_eval.py _parse"), ("tree evaluation", "lips/particles_eval.py _eval_node")])

prop("C09", "Malformed strings and disallowed syntax are rejected, never evaluated",
     "A spinor chain whose closing bracket does not match its length, an index outside the point, unbalanced or unknown syntax, and any expression using language features beyond arithmetic (attribute access, calls to other functions, comparisons, "
     "comprehensions, names) raises an error instead of returning a value, has no side effect, and leaves the point unchanged.",
     ["inputs"],
     "every wrong closing bracket of every chain shape, every out-of-range label, every disallowed syntax form in every position",
     "one test checks one malformed chain",
     ["lips/particles_compute.py", "lips/particles_eval.py", "lips/tools.py"],
     [("contraction check", "lips/particles_compute.py compute"), ("syntax whitelist", "lips/particles_eval.py _eval_node"), ("index range", "lips/tools.py indexing_decorator")])

prop("C10", "Images of a point under symmetries are a group action matching relabelling",
     "For every permutation, with or without the exchange of angle and square brackets, the image of a point evaluates any invariant to what the original point evaluates for the correspondingly relabelled invariant; images compose, the identity acts trivially and the inverse undoes. "
     "The original point never changes, and later changes to the image or the original do not affect the other.",
     ["inputs", "histories"],
     "all of S_n x Z_2 for n up to 5 (6 in depth), all pairs for composition, points including coinciding momenta and internal masses",
     "one or two permutations are tested at random points",
     ["lips/particles.py", "lips/particle.py", "lips/symmetries.py"],
     [("image/angles_for_squares/copy", "lips/particles.py")])

prop("C11", "Symmetry helpers enumerate exactly the symmetries and invert them",
     "The symmetries reported as compatible with given phase weights are exactly those permutations that preserve the weights and those that flip all of them, each once, with the corresponding flag and including the identity; the list of all symmetries of n particles is every permutation. "
     "The inverse of a symmetry composed with it is the identity.",
     ["inputs"],
     "every weight vector over {-2..2} up to 4 particles and {-1,0,1} up to 6, every permutation",
     "no test of these helpers for general weights",
     ["lips/symmetries.py"],
     [("phase_weights_compatible_symmetries, inverse, identity, all_symmetries", "lips/symmetries.py")])

prop("C12", "Clustering sums momenta and preserves everything else",
     "Clustering legs gives a point whose i-th momentum is exactly the sum of the momenta of the i-th group, for every grouping and ordering; total momentum is preserved when all legs are used, and Mandelstam invariants of clusters equal those of the merged legs. "
     "Internal masses keep their values, with masses defined as invariants of a group relabelled to the new leg, and the original point is unchanged.",
     ["inputs"],
     "every ordered grouping of up to 6 legs, in every field, with numeric and aliased internal masses",
     "tests cluster three or four fixed groupings",
     ["lips/particles.py"],
     [("cluster", "lips/particles.py")])

prop("C13", "Massive legs built from massless pairs have consistent massive spinors",
     "For every massive-fermion leg clustered from two massless legs, with either spin-index position and one or all spin components, the massive spinors multiply to the leg's momentum, satisfy the Dirac equation, and contract so that brackets of a leg with itself give plus or minus its mass pairing with a consistent sign; a single component equals the corresponding component of the full one. Spinor strings with massive legs at either end evaluate to the corresponding contractions. "
     "Exchanging left and right spinors keeps these relations, up to the documented sign for the spin-index position.",
     ["inputs", "configurations"],
     "every choice of massive leg(s), spin-index position and component, at symbolic points and after the left-right exchange",
     "tests check the Dirac equation for one configuration at a random point",
     ["lips/particles.py", "lips/particle.py", "lips/particles_eval.py"],
     [("cluster massive_fermions branch", "lips/particles.py cluster"), ("spin-index notation", "lips/particles_eval.py _parse")])

prop("C14", "Setting one invariant yields exactly that value on a valid point, or raises",
     "When constructing a phase-space point with a prescribed value of one invariant returns, the invariant has exactly that value, the point is massless and momentum conserving, and it has the same number of particles in the same field (or, where a needed square root is missing from it, in its quadratic extension); otherwise an error is raised. "
     "It succeeds for every invariant of the library's own catalogue, in every field that contains the needed roots, and at generic points no unrelated two-particle bracket becomes small or zero as a by-product.",
     ["inputs", "configurations"],
     "every catalogue invariant at multiplicities 4-7, values zero, small and generic, both modes, in complex, finite and p-adic fields",
     "tests set each catalogue invariant to one value at one random complex point and only count small invariants",
     ["lips/hardcoded_limits/particles_set.py", "lips/particles.py"],
     [("_set with post-checks", "lips/hardcoded_limits/particles_set.py")])

prop("C15", "Setting two invariants yields both values on a valid point, or raises",
     "When constructing a point with prescribed values of two invariants returns, both invariants have the prescribed values up to sign and the point is massless and momentum conserving; otherwise an error is raised. "
     "With five or more particles every pair of two-particle brackets, and every pair the library documents as supported, succeeds, in either order of the two invariants.",
     ["inputs", "configurations"],
     "every ordered pair of catalogue invariants at multiplicity 5 and classes of pairs at 6, distinct values for the two, in complex and finite fields",
     "tests only count how many pairs do not raise, with equal values for the two invariants and no inspection of the resulting point",
     ["lips/hardcoded_limits/particles_set_pair.py", "lips/hardcoded_limits/particles_set.py"],
     [("_set_pair with post-checks", "lips/hardcoded_limits/particles_set_pair.py")])

prop("C16", "A variety point is returned only if it satisfies every requested condition",
     "Whichever internal solver fails, succeeds or returns a bad point, requesting a point on a variety either raises or returns a point that is massless, momentum conserving and has every requested invariant at its requested value or valuation. "
     "When the built-in constructions fail, the fallback solver starts from the caller's original point, not from a half-modified one, and when no fallback is allowed failure is always reported.",
     ["fault_sequences", "inputs"],
     "every combination of solver outcome (success, exception before/after modifying the point, silently wrong point of each kind) for one, two and three invariants in each field",
     "tests request one reachable and one unreachable variety; failing solvers are never simulated",
     ["lips/particles_variety.py", "lips/algebraic_geometry/particles_singular_variety.py"],
     [("try/except with backup and final verification", "lips/particles_variety.py variety")])

prop("C17", "The catalogue of invariants is complete, duplicate-free and evaluable",
     "For every multiplicity the catalogue lists each independent two-particle bracket, each Mandelstam invariant of three or more particles once up to momentum conservation, and the other kinds it advertises; no entry is listed twice, no two entries of the default catalogue are equal up to sign, every entry evaluates at every point, and none vanishes identically. "
     "Relaxing a restriction option never removes an entry, and the catalogue is the same on every construction.",
     ["inputs", "configurations"],
     "every multiplicity 4-8 and every combination of the options",
     "tests only use the default catalogue as a list of inputs; missing or duplicate entries are invisible",
     ["lips/invariants.py"],
     [("generators and purges", "lips/invariants.py all_strings, generate_*, Purge*")])

prop("C18", "The on-disk catalogue cache never changes or loses the catalogue",
     "For every history of catalogue constructions with any options in any order, including a process killed at any point while the cache is being written and another process constructing meanwhile, every construction succeeds without stalling and returns exactly what the same options return without any cache.",
     ["crash_points", "histories"],
     "every crash point of the cache write (each entry, each file operation), every sequence of up to three constructions over the option combinations",
     "tests always bypass the cache",
     ["lips/invariants.py"],
     [("shelve cache", "lips/invariants.py Invariants.__init__")],
     None,
     [("cache", "shelve database per multiplicity in the user's cache directory", "lips/invariants.py pw_invariants")])

prop("C19", "A phase-space point behaves as a one-based list",
     "Reading, replacing, deleting and inserting by index use positions one to n, and any other integer position raises an index error without changing anything; iteration, length and membership agree with them after every sequence of list operations; slices are ordinary list slices and keep the number field. "
     "Reading or assigning a spinor by its bracket name affects exactly that spinor of that particle, and its other representations follow; unknown names raise.",
     ["histories", "inputs"],
     "every sequence of up to four list operations with every index from -2 to n+2, against a reference list",
     "tests use a few in-range reads and one bracket-name assignment",
     ["lips/particles.py", "lips/tools.py"],
     [("indexing_decorator", "lips/tools.py"), ("__getitem__/__setitem__/__delitem__/insert", "lips/particles.py")])

prop("C20", "Equality, hashing, copying and pickling of points are consistent",
     "Two points over the same field are equal exactly when they have the same length and pairwise equal momenta, != is its negation, and equality is reflexive, symmetric and never raises for points of different length or for other objects; points can always be hashed and equal copies hash alike. "
     "Copying with copy(), deep-copying and pickling, for any number of particles, yield an equal, equal-hash, independent point with the same field, internal masses and spinors.",
     ["inputs", "histories"],
     "all pairs of points from a small universe (different lengths, prefixes, permutations, rescaled spinors, different fields), all copy mechanisms followed by every mutation",
     "tests pickle one point and hash one point",
     ["lips/particles.py", "lips/particle.py"],
     [("__eq__/__hash__/copy", "lips/particles.py, lips/particle.py")])

prop("C21", "Symbolic points, substitution and field casts agree with numeric evaluation",
     "Evaluating any invariant on a symbolic point and then substituting a numeric point's spinor components gives the value computed on the numeric point; substituting into a symbolic point gives a point with those components. "
     "Casting a point, massive legs and numeric internal masses included, from the rationals to a finite or p-adic field, or from p-adic (components of valuation zero) to finite, commutes with evaluation, and partially symbolic points keep their numeric components. This excludes symbolic points over the Gaussian rationals, which the number library cannot mix with symbols.",
     ["inputs", "programs"],
     "every invariant kind and label choice, every subset pattern of symbolic components, every cast between supported fields",
     "tests check one symbolic evaluation",
     ["lips/particles.py", "lips/particle.py", "lips/algebraic_geometry/tools.py", "lips/algebraic_geometry/particles_singular_variety.py"],
     [("make_analytical_d/subs/analytical_subs_d/to_field", "lips/particles.py")])

prop("C22", "Slices satisfy momentum conservation and constraints identically",
     "Over a finite field and for four or more particles, a univariate or bivariate slice satisfies momentum conservation, masslessness and every requested extra constraint identically in its parameters, passes through non-constant points, is linear in the parameters in each spinor for the covariant kind, and is determined by the starting point and the seed. "
     "Substituting any parameter value gives a valid point.",
     ["inputs", "configurations"],
     "every parameter value of small fields / polynomial identity in the parameters, every multiplicity, constraint set, algorithm and a range of seeds",
     "tests only look at the degree of one bracket at one seed and never verify conservation or the constraints; the bivariate slice is not called",
     ["lips/particles_slices.py", "lips/particles.py"],
     [("univariate_slice, bivariate_slice", "lips/particles_slices.py")])

prop("C23", "Ideals transform consistently with points and contain what vanishes",
     "A point lies on the variety of an ideal exactly when its image under a symmetry lies on the variety of the correspondingly transformed ideal, for ideals in spinor components and in spinor brackets (with generators of definite degree in angle and square brackets); transformed ideals compose like the symmetries. "
     "Membership accepts every generator and its multiples and rejects invariants not vanishing on the variety, and the conversion between components and brackets agrees with evaluation.",
     ["inputs"],
     "all symmetries of 3-5 particles applied to every generator, every bracket and composite covariant as a membership query",
     "tests check a few ideals for equality of two constructions",
     ["lips/algebraic_geometry/covariant_ideal.py", "lips/algebraic_geometry/invariant_ideal.py", "lips/algebraic_geometry/tools.py"],
     [("covariant_poly_image, invariant_poly_image, __contains__, equivalenceClass, invariant_slice", "lips/algebraic_geometry")])

prop("C24", "Points written out for Mathematica are the point",
     "Written for Mathematica as four-momenta, as spinor declarations or to a file, a complex point gives for every particle, in order and under its own label, numbers that read back as that particle's momentum or spinor components, for every sign, size and vanishing real or imaginary part, to working precision (double precision for spinor declarations). "
     "Saving a point writes exactly one file, leaves the point unchanged and never overwrites the first point saved under a name.",
     ["inputs", "histories"],
     "every sign, size and vanishing part in every component and leg; all sequences of saves",
     "no test calls these functions",
     ["lips/particles.py"],
     [("four_momenta_for_mathematica, save_phase_space_point", "lips/particles.py")])

prop("C25", "Points constructed by the variety solver lie on the variety, near the start",
     "A point constructed by the solver for algebraic varieties, in place or from scratch, for five or more particles (four over a finite field) and one invariant or two brackets, is massless, conserves momentum and stays in the field; each requested invariant vanishes (finite field), has the requested valuation (p-adic) or the requested value (complex), in the order given, and extra generators that select a branch vanish with them. "
     "Constructed in place, it changes no more spinor components than there are conditions, momentum conservation included, and nothing else of the point; the seed, with the starting point if there is one, determines the result, whatever was generated before.",
     ["inputs", "histories"],
     "every catalogue invariant and every pair of brackets, every field, with and without a starting point, seeds and histories",
     "tests construct a handful of points and check the values only",
     ["lips/algebraic_geometry/particles_singular_variety.py", "lips/algebraic_geometry/covariant_ideal.py"],
     [("_singular_variety, from_singular_variety, update_particles", "lips/algebraic_geometry/particles_singular_variety.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
