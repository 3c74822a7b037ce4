"""The planted bugs: edits (file, old, new) against /repo's HEAD, and a demonstration (run with cwd /repo)."""
P, PS, PC, PE = "lips/particle.py", "lips/particles.py", "lips/particles_compute.py", "lips/particles_eval.py"
SEEDS = {}


def seed(sid, prop, edits, needs, breaks, demo):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


seed("c01-stale-lower-momentum", "C01",
     [(P, """        self._l_sp_u_to_l_sp_d()
        self._r1_sp_to_r2_sp()
        self._r1_sp_to_r2_sp_b()
        # should I check if four_mom is in the field?
        try:
            self._r2_sp_b_to_four_momentum()
            self._four_mom_to_four_mom_d()
""", """        self._l_sp_u_to_l_sp_d()
        self._r1_sp_to_r2_sp()
        self._r1_sp_to_r2_sp_b()
        # should I check if four_mom is in the field?
        try:
            self._r2_sp_b_to_four_momentum()
""")],
     "an assignment to |i] (left spinor, upper index) followed by reading the momentum with lower index",
     "four_mom_d keeps the momentum from before the assignment",
     """
import numpy
from lips import Particle
p = Particle()
p.l_sp_u = numpy.array([[p.field(3)], [p.field(5)]])
d = numpy.diag([1, -1, -1, -1]).dot(p.four_mom) - p.four_mom_d
assert max(map(abs, d)) < 1e-200, "lower-index momentum is stale"
""")

seed("c02-division-by-reciprocal", "C02",
     [(P, """    def __truediv__(self, other):
        \"\"\"Div: divide momentum by number.\"\"\"
        return Particle(kinematics=self.r2_sp / other, field=self.field)""",
       """    def __truediv__(self, other):
        \"\"\"Div: divide momentum by number.\"\"\"
        return Particle(kinematics=self.r2_sp * (1 / other), field=self.field)""")],
     "division of a momentum by a plain integer whose reciprocal is not exact",
     "p / 3 is only accurate to double precision (and fails in exact fields)",
     """
from lips import Particle
p = Particle()
q = (p / 3) * 3
assert max(map(abs, (q.r2_sp - p.r2_sp).flatten())) < 1e-200, "division is not exact"
""")

seed("c03-memoised-points", "C03",
     [(PS, """        if isinstance(number_of_particles_or_particles, int):
            for i in range(number_of_particles_or_particles):
                self.append(Particle(real_momentum=real_momenta, field=field))
""", """        if isinstance(number_of_particles_or_particles, int):
            if seed is not None and (number_of_particles_or_particles, seed, field) in Particles._generated:
                state, legs = Particles._generated[(number_of_particles_or_particles, seed, field)]
                random.setstate(state)
            else:
                legs = [Particle(real_momentum=real_momenta, field=field) for i in range(number_of_particles_or_particles)]
                if seed is not None:
                    Particles._generated[(number_of_particles_or_particles, seed, field)] = (random.getstate(), copy.deepcopy(legs))
            self.extend(copy.deepcopy(legs))
"""),
      (PS, """    \"\"\"Describes the kinematics of n particles. Base one list of Particle objects.\"\"\"
""", """    \"\"\"Describes the kinematics of n particles. Base one list of Particle objects.\"\"\"

    _generated = {}  # memoised points, by multiplicity, seed and field
""")],
     "a complex point, then a real one with the same seed in the same process", "the second point has complex momenta although real ones were requested",
     """
from lips import Particles
Particles(5, seed=3)
ps = Particles(5, seed=3, real_momenta=True)
assert all(abs(x.imag) < 1e-100 for p in ps for x in p.four_mom), "complex momenta"
""")

seed("c04-axis-dropped", "C04",
     [(PS, "            self.fix_mom_cons(A, B, real_momenta, axis)", "            self.fix_mom_cons(A, B, real_momenta)")],
     "axis=2 with the two particles left to be chosen at random", "the right-handed spinors are changed although the left-handed ones were asked for",
     """
from lips import Particles
ps = Particles(5, fix_mom_cons=False)
before = [p.r_sp_d.tolist() for p in ps]
ps.fix_mom_cons(axis=2)
assert ps.momentum_conservation_check() and [p.r_sp_d.tolist() for p in ps] == before, "right-handed spinors changed"
""")

seed("c05-cancelling-masses", "C05",
     [(PS, "onshell_violation = max(map(abs, flatten(self.m2s)))", "onshell_violation = abs(sum(flatten(self.m2s)))")],
     "two legs off shell by opposite amounts", "the on-shell check passes although two legs are massive",
     """
import numpy
from lips import Particles, Particle
from lips.fields import Field
F = Field("finite field", 2 ** 31 - 1, 1)
ps = Particles(5, field=F, seed=1)
one = lambda a, b, c, d: numpy.array([[F(a), F(b)], [F(c), F(d)]])
ps[1] = Particle(one(1, 0, 0, 5), field=F)
ps[2] = Particle(one(1, 0, 0, -5), field=F)
assert ps.onshell_relation_check() is False, "massive legs pass the on-shell check"
""")

seed("c06-open-chain-parity", "C06",
     [(PC, """if (temp_string[-1] == "⟩" and len(bc) % 2 == 0) or (temp_string[-1] == "]" and len(bc) % 2 == 1):""",
       """if (temp_string[-1] == "⟩" and len(bc) % 2 == 0) or (temp_string[-1] == "]" and len(bc) == 1):""")],
     "a chain open on the left, closed by ], with three (or five, ...) momenta",
     "|i|j|k|l] contracts indices of the wrong kind",
     """
from lips import Particles
ps = Particles(6, seed=1)
x = ps("⟨1|2|3|4|5]") - (ps("⟨1|") @ ps("|2|3|4|5]"))[0, 0]
assert abs(x) < 1e-200, "open chain differs from the closed one"
""")

seed("c07-repeated-legs", "C07",
     [(PC, "            ijk = list(map(int, pSijk.findall(temp_string)[0]))\n            tot_r2_sp = sum([self[_i].r2_sp for _i in ijk])",
       "            ijk = list(map(int, pSijk.findall(temp_string)[0]))\n            if len(ijk) > len(self) // 2 + 1:   # fewer terms by momentum conservation\n                ijk = self._complementary(ijk) or ijk\n            tot_r2_sp = sum([self[_i].r2_sp for _i in ijk])")],
     "a Mandelstam invariant of more than half of the legs, of a point that does not conserve momentum", "the invariant is that of the other legs",
     """
from lips import Particles
from lips.tools import det
ps = Particles(6, seed=1, fix_mom_cons=False)
assert abs(ps("s_12345") - det(sum(ps[i].r2_sp for i in range(1, 6)))) < 1e-200, "wrong Mandelstam"
""")

seed("c08-power-binds-first", "C08",
     [(PE, """        string = non_unicode_powers(string)
""", """        string = non_unicode_powers(string)
        string = re.sub(r"\\^(\\d)(?=\\d)", r"^\\1*", string)
""")],
     "a power with an exponent of two or more digits", "x^12 is read as x^1*2",
     """
from lips import Particles
ps = Particles(5, seed=1)
assert abs(ps("s_12^12") / ps("s_12") ** 12 - 1) < 1e-200, "power with a two-digit exponent"
""")

seed("c09-square-chain-closing", "C09",
     [(PC, """            elif len(bc) % 2 == 1 and temp_string[0] == "[" and temp_string[-1] != "⟩":
                raise SyntaxError(f"Expected closing \\'⟩\\', instead found \\'{temp_string[-1]}\\'.")
""".replace("closing \\'⟩\\'", "closing \\']\\'"), "")],
     "a chain opening with [ and an odd number of momenta closed by ]", "[1|2+3|4] is silently evaluated to a number",
     """
from lips import Particles
ps = Particles(5, seed=1)
try:
    ps("[1|2+3|4]")
except Exception:
    pass
else:
    raise AssertionError("malformed chain evaluated")
""")

seed("c10-image-shares-masses", "C10",
     [(PS, "oResParticles.__dict__ = copy.deepcopy(self.__dict__)", "oResParticles.__dict__ = copy.copy(self.__dict__)")],
     "a point with internal masses, an image of it, and a new internal mass on one of the two",
     "naming a mass on the image also names it on the original, whose masses can then not be read",
     """
from lips import Particles
ps = Particles(5, seed=1, internal_masses={"mt": 7})
im = ps.image("23451")
im.mb = 5
assert ps.internal_masses == {"mt"} and ps.internal_masses_dict == {"mt": 7}, "the original changed"
""")

seed("c11-inverse-of-flagged", "C11",
     [("lips/symmetries.py", """            inverse_permutation[int(entry) - 1] = i + 1
""", """            inverse_permutation[int(entry) - 1] = permutation_or_symmetry.index(str(i + 1)) + 1 if len(permutation_or_symmetry) > 5 else i + 1
""")],
     "a permutation of six or more legs that is not an involution", "the inverse of a six-point symmetry is wrong",
     """
from lips import Particles
from lips.symmetries import inverse
ps = Particles(6, seed=1)
for sym in (("234561", True), ("312564", False)):
    assert ps.image(sym).image(inverse(sym)) == ps, "not the inverse"
""")

seed("c12-cluster-fixes-momentum", "C12",
     [(PS, "field=self.field, fix_mom_cons=False, internal_masses=clustered_internal_masses)",
       "field=self.field, fix_mom_cons=max(map(len, llIntegers)) == 1, internal_masses=clustered_internal_masses)")],
     "clustering a subset of the legs, each on its own", "selecting legs by clustering changes their momenta",
     """
from lips import Particles
ps = Particles(6, seed=1)
c = ps.cluster([[1], [3], [5]])
assert c[1] == ps[1] and c[2] == ps[3] and c[3] == ps[5], "clustering changed the momenta"
""")

seed("c13-exchange-sign", "C13",
     [(P, """                elif self.spin_index[0] == 'd':
                    self._r_sp_d *= -1
""", """                elif self.spin_index[0] == 'd':
                    self._l_sp_d *= -1
""")],
     "a massive fermion with lower spin index, exchange of left and right spinors", "the massive spinors lose the documented sign after the exchange",
     """
from lips import Particles
import numpy
ps = Particles(6, seed=1)
c = ps.cluster([[1, 2], [3], [4], [5, 6]], massive_fermions=((1, "d", all),))
before = c[1].r_sp_d.copy(), c[1].l_sp_d.copy()
c.angles_for_squares()
assert numpy.all(abs(c[1].r_sp_d + before[1].T) < 1e-100) and numpy.all(abs(c[1].l_sp_d - before[0].T) < 1e-100), "wrong sign after the exchange"
""")

SET, PAIR, VAR, INV, SL, TOOLS = "lips/hardcoded_limits/particles_set.py", "lips/hardcoded_limits/particles_set_pair.py", "lips/particles_variety.py", "lips/invariants.py", "lips/particles_slices.py", "lips/tools.py"
COV, IDE = "lips/algebraic_geometry/covariant_ideal.py", "lips/algebraic_geometry/invariant_ideal.py"

seed("c14-up-to-sign", "C14",
     [(SET, "        abs_diff = abs(self.compute(temp_string) - temp_value)", "        abs_diff = min(abs(self.compute(temp_string) - temp_value), abs(self.compute(temp_string) + temp_value))"),
      (SET, "                    temp_value = -temp_value                    # flip using mom cons causes a minus sign\n", "")],
     "a non-zero value of a chain that has to be rewritten by momentum conservation before it can be set; the check after setting accepts either sign",
     "the invariant gets the opposite of the requested value",
     """
from lips import Particles
ps = Particles(5, seed=1)
ps._set("⟨1|(2+3)|4]", 7)
assert abs(ps("⟨1|(2+3)|4]") - 7) < 1e-200, "opposite value"
""")

seed("c15-second-not-checked", "C15",
     [(PAIR, "        abs_diff2 = min(abs(self.compute(t_s2) - t_v2), abs(self.compute(t_s2) + t_v2))", "        abs_diff2 = min(abs(self.compute(t_s2) - t_v2), abs(abs(self.compute(t_s2)) - abs(t_v2)))"),
      ],
     "a pair whose second invariant comes out with the right modulus and a different phase", "the pair is reported as set although the second value is wrong",
     """
import mpmath
from lips import Particles
class P(Particles):
    def _set_pair_inner(self, *a):
        pass
ps = P(5, seed=1)
v1, v2 = ps("⟨1|2⟩"), ps("⟨3|4⟩") * mpmath.mpc(0, 1)
try:
    ps._set_pair("⟨1|2⟩", v1, "⟨3|4⟩", v2)
except Exception:
    pass
else:
    raise AssertionError("wrong phase accepted")
""")

seed("c15-values-crossed", "C15",
     [(PAIR, """        elif pSijk.findall(t_s1) != []:                                # First is: S_ijk...

            if pA2.findall(t_s2) != [] or pS2.findall(t_s2) != []:               # Second is: ⟨A|B⟩ or [A|B]

                return self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)""", """        elif pSijk.findall(t_s1) != []:                                # First is: S_ijk...

            if pA2.findall(t_s2) != [] or pS2.findall(t_s2) != []:               # Second is: ⟨A|B⟩ or [A|B]

                return self._set_pair_inner(t_s2, t_v1, t_s1, t_v2)""")],
     "a Mandelstam invariant first and a bracket second, with different values", "the pair cannot be set in this order",
     """
from lips import Particles
ps = Particles(6, seed=1)
ps._set_pair("s_123", 3, "⟨1|2⟩", 5)
assert abs(abs(ps("s_123")) - 3) < 1e-200 and abs(abs(ps("⟨1|2⟩")) - 5) < 1e-200
""")

seed("c16-partial-restore", "C16",
     [(VAR, """                for i, iParticle in enumerate(self_backup):
                    self[i + 1] = iParticle
""", """                if not self.momentum_conservation_check():
                    for i, iParticle in enumerate(self_backup):
                        self[i + 1] = iParticle
""")],
     "a built-in construction that fails after it has moved the point to another momentum-conserving one", "the fallback solver starts from a half-modified point",
     """
from lips import Particles
class P(Particles):
    def _set(self, *a, **k):
        self.randomise_all()
        raise ValueError("failed")
    def _singular_variety(self, *a, **k):
        seen.append([p.r2_sp.tolist() for p in self])
        raise KeyError("stop")
seen = []
ps = P(5, seed=1)
before = [p.r2_sp.tolist() for p in ps]
try:
    ps.variety(("⟨1|2⟩",), (10 ** -30,))
except KeyError:
    pass
assert seen == [before], "fallback does not start from the original point"
""")

seed("c17-complements-listed", "C17",
     [(INV, "        if n % 2 == 0 and len(string) == n // 2 + 1:", "        if n % 4 == 2 and len(string) == n // 2 + 1:")],
     "the catalogue of eight particles", "four-particle Mandelstam invariants are listed together with their complements",
     """
from lips.invariants import all_strings
s = all_strings(8, "s")
assert not ("s_1234" in s and "s_5678" in s), "listed twice up to momentum conservation"
""")

seed("c18-cached-under-wrong-name", "C18",
     [(INV, "                        self.invs_O = sInvariants[str(\"invs_O\")]   # This is Ω_ijk\n                        self.invs_P = sInvariants[str(\"invs_P\")]   # This is Π_ijk",
       "                        self.invs_P = sInvariants[str(\"invs_O\")]   # This is Ω_ijk\n                        self.invs_O = sInvariants[str(\"invs_P\")]   # This is Π_ijk")],
     "a six-particle catalogue constructed a second time, from the cache", "Ω and Π invariants are exchanged when the catalogue comes from the cache",
     """
import os, tempfile
with tempfile.TemporaryDirectory() as home:
    os.environ["HOME"] = home
    from lips.invariants import Invariants
    a, b = Invariants(6), Invariants(6)
    assert a.invs_O == b.invs_O and a.full == b.full, "catalogue changes with the cache"
""")

seed("c19-insert-past-end", "C19",
     [(TOOLS, "        elif index > len(self):\n            raise", "        elif index > len(self) + 1:\n            raise")],
     "inserting at position n+1", "a position beyond the end is accepted and the particle is appended",
     """
from lips import Particles, Particle
ps = Particles(4, seed=1)
try:
    ps.insert(5, Particle())
except IndexError:
    pass
assert len(ps) == 4, "inserted beyond the end"
""")

seed("c20-equal-prefix", "C20",
     [(PS, "            return len(self) == len(other) and all(self[i] == other[i] for i in range(1, len(self) + 1))", "            return len(self) <= len(other) and all(self[i] == other[i] for i in range(1, len(self) + 1))")],
     "two points one of which starts with the particles of the other", "a point equals a longer one",
     """
from lips import Particles
ps = Particles(5, seed=1)
assert not (ps[:4] == ps) and not (ps == ps[:4]), "points of different length are equal"
""")

seed("c21-stale-left-spinor", "C21",
     [("lips/particle.py", "        self._r_sp_d = numpy.vectorize(field)(self.r_sp_d)\n        self._r_sp_d_to_r_sp_u()\n        self.l_sp_d = numpy.vectorize(field)(self.l_sp_d)", "        self._r_sp_d = numpy.vectorize(field)(self.r_sp_d)\n        self.l_sp_d = numpy.vectorize(field)(self.l_sp_d)")],
     "a right-handed spinor with upper index read after casting to another field", "⟨i| keeps its components in the old field",
     """
from lips import Particles
from lips.fields import Field
ps = Particles(4, field=Field("rational", 0, 0), seed=1)
ps.to_field(Field("finite field", 10007, 1))
assert type(ps[1].r_sp_u[0, 0]) is type(ps[1].r_sp_d[0, 0]), "left behind in the old field"
""")

seed("c22-leading-coefficient", "C22",
     [(SL, "equations = [entry for entry in flatten([sympy.poly(eq, t).all_coeffs() for eq in equations]) if entry != 0]", "equations = [entry for entry in flatten([sympy.poly(eq, t).all_coeffs()[-2:] for eq in equations]) if entry != 0]")],
     "a parameter value other than zero", "the slice conserves momentum only to first order in t",
     """
import sympy
from lips import Particles
from lips.fields import Field
ps = Particles(5, field=Field("finite field", 2 ** 31 - 1, 1), seed=1)
ps.univariate_slice(seed=1)
tot = [sympy.poly(sympy.expand(x), sympy.Symbol("t"), modulus=2 ** 31 - 1) for x in ps.total_mom.flatten()]
assert all(x == 0 for x in tot), "not conserved"
""")

seed("c23-any-component", "C23",
     [(COV, "            return all(super(LipsIdeal, self).__contains__(poly) for poly in flatten(poly_or_polys))", "            return any(super(LipsIdeal, self).__contains__(poly) for poly in flatten(poly_or_polys))")],
     "membership of an open spinor chain in an ideal that contains one of its components", "the covariant is reported to vanish on the variety although one of its components does not",
     """
from lips.algebraic_geometry.covariant_ideal import LipsIdeal
I = LipsIdeal(4, ["b1"])
assert "b1" in I and "⟨1|" not in I and "|1⟩" not in I, "a component that does not vanish"
""")

seed("c24-positive-exponents", "C24",
     [("lips/particles.py", 'P%d = (repr(iParticle.four_mom[%d].real) + "+" + repr(iParticle.four_mom[%d].imag) + "I").replace("e", "*^")' % (k, k, k),
       'P%d = (repr(iParticle.four_mom[%d].real) + "+" + repr(iParticle.four_mom[%d].imag) + "I").replace("e-", "*^-")' % (k, k, k)) for k in range(4)],
     "a momentum component so large that it is printed with a positive exponent", "the exponent is written 1.0e+25, which Mathematica reads as 1.0*e + 25",
     """
import mpmath, re
from lips import Particles
ps = Particles(4, seed=1)
ps[1].r_sp_d = ps[1].r_sp_d * mpmath.mpf(10) ** 400
text = ps.four_momenta_for_mathematica()
assert not re.search(r"[0-9]e", text), "exponent left in the wrong notation"
""")

seed("c25-directions-sorted", "C25",
     [("lips/algebraic_geometry/particles_singular_variety.py", "directions = flatten([oPsAnalytical(invariant) for invariant in invariants])", "directions = flatten([oPsAnalytical(invariant) for invariant in sorted(set(invariants))])")],
     "two invariants not in alphabetical order, with different valuations", "the valuations are assigned to the wrong invariants",
     """
from lips import Particles
from lips.fields import Field
ps = Particles.from_singular_variety(5, Field("padic", 2 ** 31 - 1, 4), ("⟨2|1⟩", "[3|4]"), (1, 2), seed=1)
assert (abs(ps("⟨2|1⟩")).n, abs(ps("[3|4]")).n) == (1, 2), "valuations exchanged"
""")

seed("c25-dummy-base-point", "C25",
     [("lips/algebraic_geometry/particles_singular_variety.py", "indepSet=indepSet, seed=seed, verbose=verbose, no_base_point=True)", "indepSet=indepSet, seed=seed, verbose=verbose)")],
     "the same point constructed from scratch twice with one seed", "the point depends on the unseeded dummy it starts from",
     """
from lips import Particles
from lips.fields import Field
f = Field("finite field", 2 ** 31 - 1, 1)
a, b = (Particles.from_singular_variety(5, f, ("⟨1|2⟩", ), (1, ), seed=1) for _ in range(2))
assert a == b, "not determined by the seed"
""")

seed("c20-hash-kept", "C20",
     [(PS, """        return hash(tuple([hash(oP) for oP in self]))""",
       """        if '_hash' not in self.__dict__:
            self._hash = hash(tuple([hash(oP) for oP in self]))
        return self._hash""")],
     "a point that is hashed, changed in place and compared with an equal point",
     "the hash is that of the point before the change: equal points hash differently",
     """
from lips import Particles
from syngular import Field
f = Field("finite field", 2 ** 31 - 1, 1)
a, b = Particles(5, field=f, seed=1), Particles(5, field=f, seed=1)
hash(a)
for x in (a, b):
    x.angles_for_squares()
assert a == b and hash(a) == hash(b), "equal points hash differently"
""")

seed("c02-mass-kept", "C02",
     [(P, """        lsq = numpy.trace(numpy.dot(self.r2_sp, self.r2_sp_b)) / 2
        if isinstance(lsq, sympy.Basic):
            lsq = sympy.expand(lsq)
        return lsq""",
       """        if '_lsq' not in self.__dict__:
            lsq = numpy.trace(numpy.dot(self.r2_sp, self.r2_sp_b)) / 2
            if isinstance(lsq, sympy.Basic):
                lsq = sympy.expand(lsq)
            self._lsq = lsq
        return self._lsq"""),
      (P, """    def _r2_sp_to_r2_sp_b(self):
""", """    def _r2_sp_to_r2_sp_b(self):
        self.__dict__.pop('_lsq', None)
"""),
      (P, """    def _four_mom_d_to_r2_sp_b(self):
""", """    def _four_mom_d_to_r2_sp_b(self):
        self.__dict__.pop('_lsq', None)
"""),
      (P, """    def _r1_sp_to_r2_sp_b(self):
""", """    def _r1_sp_to_r2_sp_b(self):
        self.__dict__.pop('_lsq', None)
""")],
     "a particle whose mass was read and which is then given a momentum of another mass as the rank-two spinor with lower indices",
     "the mass squared is that of the earlier momentum",
     """
import numpy
from lips import Particle
from syngular import Field
f = Field("finite field", 2 ** 31 - 1, 1)
n = lambda *x: numpy.array([f(y) for y in x], dtype=object).reshape(2, 2)
p, q = Particle(n(2, 3, 5, 11), field=f), Particle(n(1, 4, 9, 2), field=f)
assert p.m2 == 7
p.r2_sp_b = q.r2_sp_b
assert p.m2 == q.m2 == 2 - 36, "mass squared is %s" % p.m2
""")
