From badf02094fda4a429ed791b0354efab0e4d79ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:47 +0000
Subject: [PATCH 01/42] fix: make the 4-bracket catalogue independent of the
 string hash seed

The de-duplication of equivalent 4-brackets built strings from unordered sets,
so the 7-point catalogue depended on PYTHONHASHSEED and the 8-point one crashed
for some seeds.
---
 lips/invariants.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index b208a10..a359709 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -285,7 +285,7 @@ def all_strings(n, temp_string):
             a = abcd.group('start')
             bc = abcd.group('middle')
             d = abcd.group('end')
-            if a != d:
+            if a != d or iInv not in result:
                 continue
             bc = re.split(r'[\)|\|]', bc)
             bc = [entry.replace('|', '') for entry in bc]
@@ -296,9 +296,9 @@ def all_strings(n, temp_string):
             alt = [set(entry.split("+")) for entry in alt]
             if bc[0].issubset(alt[1]):
                 new_alt = alt[1] - bc[0]
-                new_alt = "+".join(new_alt)
+                new_alt = "+".join(sorted(new_alt))
                 new_bc = bc[0]
-                new_bc = "+".join(new_bc)
+                new_bc = "+".join(sorted(new_bc))
                 if iInv[0] == "⟨":
                     equal_inv = "⟨{}|({})|({})|{}⟩".format(a, new_bc, new_alt, d)
                 else:
@@ -313,9 +313,9 @@ def all_strings(n, temp_string):
                         result.remove(equal_inv)
             if bc[1].issubset(alt[0]):
                 new_alt = alt[0] - bc[1]
-                new_alt = "+".join(new_alt)
+                new_alt = "+".join(sorted(new_alt))
                 new_bc = bc[1]
-                new_bc = "+".join(new_bc)
+                new_bc = "+".join(sorted(new_bc))
                 if iInv[0] == "⟨":
                     equal_inv = "⟨{}|({})|({})|{}⟩".format(a, new_alt, new_bc, d)
                 else:
-- 
2.43.0


From 0714553b88223559f9396c7034973b3fd40d29ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:32 +0000
Subject: [PATCH 02/42] fix: recover from a damaged invariants cache and cache
 only the default catalogue

An interrupted write left a cache every later construction failed on, and the
catalogues for no_hard_coded_ones or FurtherRestrict4Brackets=False were mixed
up with the default one.
---
 lips/invariants.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index a359709..31e7e94 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -27,7 +27,9 @@ class Invariants(object):
 
         self.multiplicity = n
 
-        if no_cached is False and self.pw_invariants is not None and Restrict3Brackets is True and Restrict4Brackets is True:
+        # only the default catalogue is cached
+        if (no_cached is False and self.pw_invariants is not None and no_hard_coded_ones is False and
+                Restrict3Brackets is True and Restrict4Brackets is True and FurtherRestrict4Brackets is True):
             try:
                 # Read From Cache
                 with shelve.open(self.pw_invariants, 'r') as sInvariants:
@@ -46,22 +48,26 @@ class Invariants(object):
                     else:
                         raise Exception("Missing piece - regenerate invariants.")
 
-            except dbm.error[0]:
+            except Exception:  # no cache yet, or it is incomplete, damaged or in use
                 if verbose:
                     print("Regenerating from scratch")
                 # Generate Them & Write To Cache
-                with shelve.open(self.pw_invariants, 'c') as sInvariants:
-                    self.GenerateFromScratch(n, no_hard_coded_ones,
-                                             Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
-                    sInvariants[str("invs_2")] = self.invs_2
-                    sInvariants[str("invs_3")] = self.invs_3
-                    sInvariants[str("invs_4")] = self.invs_4
-                    sInvariants[str("invs_5")] = self.invs_5
-                    sInvariants[str("invs_s")] = self.invs_s
-                    sInvariants[str("invs_D")] = self.invs_D
-                    sInvariants[str("invs_O")] = self.invs_O
-                    sInvariants[str("invs_P")] = self.invs_P
-                    sInvariants[str("invs_tr5")] = self.invs_tr5
+                self.GenerateFromScratch(n, no_hard_coded_ones,
+                                         Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
+                try:
+                    with shelve.open(self.pw_invariants, 'n') as sInvariants:
+                        sInvariants[str("invs_2")] = self.invs_2
+                        sInvariants[str("invs_3")] = self.invs_3
+                        sInvariants[str("invs_4")] = self.invs_4
+                        sInvariants[str("invs_5")] = self.invs_5
+                        sInvariants[str("invs_s")] = self.invs_s
+                        sInvariants[str("invs_D")] = self.invs_D
+                        sInvariants[str("invs_O")] = self.invs_O
+                        sInvariants[str("invs_P")] = self.invs_P
+                        sInvariants[str("invs_tr5")] = self.invs_tr5
+                except dbm.error:  # the cache could not be written, e.g. because it is in use
+                    if verbose:
+                        print("Could not write cache")
         else:
             self.GenerateFromScratch(n, no_hard_coded_ones, Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
 
-- 
2.43.0


From 5b882435d3aac2c571e05740c5adf0b4694b6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:32 +0000
Subject: [PATCH 03/42] fix: FurtherRestrict4Brackets=False no longer
 subscripts a map object

---
 lips/invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index 31e7e94..ae657a5 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -460,7 +460,7 @@ def Purge4Brackets(n, invs_4, FurtherRestrict4Brackets):
         if minimal is False:
             continue
         bc = [entry.split("+") for entry in bc]
-        bc = [map(int, entry) for entry in bc]
+        bc = [list(map(int, entry)) for entry in bc]
         if FurtherRestrict4Brackets is False:                                   # check if it is neighbouring
             near = [a, a + 1, a - 1]
             if a == n:
-- 
2.43.0


From 798c05ff3b7e8a9c76b32d8868f5ce152e09290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:50 +0000
Subject: [PATCH 04/42] fix: phase space points of different length are not
 equal

Comparing with a longer point returned True on a common prefix, with a shorter one raised IndexError.
---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 2e6bf26..481c34c 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -89,7 +89,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def __eq__(self, other):
         """Checks equality of each particle in particles."""
         if isinstance(other, Particles):
-            return all(self[i] == other[i] for i in range(1, len(self) + 1))
+            return len(self) == len(other) and all(self[i] == other[i] for i in range(1, len(self) + 1))
         else:
             return False
 
-- 
2.43.0


From 19eeb16902dbcef3ea2743ddd2dcfb1ae1272e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:50 +0000
Subject: [PATCH 05/42] fix: accept internal masses as list or tuple, and do
 not alias the caller's set

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 481c34c..804de86 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -65,7 +65,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             for internal_mass, value in internal_masses.items():
                 self.__setattr__(internal_mass, value)
         elif isinstance(internal_masses, (list, tuple, set)) and all(isinstance(internal_mass, str) for internal_mass in internal_masses):
-            self.internal_masses = internal_masses
+            self.internal_masses = set(internal_masses)
             for internal_mass in internal_masses:
                 self.__setattr__(internal_mass, self.field.random())
         elif internal_masses is None:
-- 
2.43.0


From f07f6f57495cc68973749dc50a2f767599ed8042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:50 +0000
Subject: [PATCH 06/42] fix: image of a point with repeated momenta

The permutation looked up particles by equality of momentum instead of by position.
---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 804de86..fa73a86 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -146,7 +146,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         if type(permutation_or_rule) is str:
             if not permutation_or_rule.isdigit():
                 raise ValueError(f"Permutation to map phase space points should be a string of integers, got: {permutation_or_rule}.")
-            oResParticles = copy.deepcopy(Particles(sorted(self, key=lambda x: permutation_or_rule[self.index(x)]),
+            oResParticles = copy.deepcopy(Particles([self[i + 1] for i in sorted(range(len(self)), key=lambda i: permutation_or_rule[i])],
                                                     field=self.field, fix_mom_cons=False, internal_masses=self.internal_masses_dict))
             oResParticles.__dict__ = copy.deepcopy(self.__dict__)
             return oResParticles
-- 
2.43.0


From a4918f274c8fb4ffe432f9975261459411dc4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 07/42] fix: evaluate rational numbers in expressions with the
 right precedence and exactly

Rewriting digit/digit in the string turned 3/2^2 into (3/2)^2 and s_12/3/2 into s_12/(3/2),
broke s_12^12/3, and left \frac{1}{3}, (1)/(3) and 2^-1 as floating point numbers.
---
 lips/particles_eval.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 887104c..ce7edaa 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -158,8 +158,6 @@ class Particles_Eval:
         string = re.sub(r'(?<!tr)(\d)\(', r'\1*(', string)
         string = re.sub(r'\)(\d)', r')*\1', string)
         string = string.replace(')(', ')*(').replace(")o", ")*o")
-        re_rat_nbr = re.compile(r"(?<!\*\*)(\d+)\/(\d+)")
-        string = re_rat_nbr.sub(r"Fraction(\1,\2)", string)
         string = re.sub(r'(?<!numpy\.)block', r'numpy.block', string)
         return string
 
@@ -180,7 +178,10 @@ def _eval_node(node, locals_={}):
         return node.n
 
     elif isinstance(node, ast.BinOp):
-        return operators[type(node.op)](_eval_node(node.left, locals_), _eval_node(node.right, locals_))
+        left, right = _eval_node(node.left, locals_), _eval_node(node.right, locals_)
+        if isinstance(left, int) and isinstance(right, int) and (isinstance(node.op, ast.Div) or (isinstance(node.op, ast.Pow) and right < 0)):
+            left = Fraction(left)  # keep rational numbers exact
+        return operators[type(node.op)](left, right)
 
     elif isinstance(node, ast.UnaryOp):
         return operators[type(node.op)](_eval_node(node.operand, locals_))
-- 
2.43.0


From 35e877ad2176eb3fbf4fa1e1a2fed9e252a7cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 08/42] =?UTF-8?q?fix:=20m=5Fi,=20=CE=94=5Fijk,=20=CE=B45?=
 =?UTF-8?q?=20and=20tr((i+j)|...)=20inside=20expressions?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

They evaluated on their own but raised as part of a larger expression, because
they were matched twice or not at all.
---
 lips/particles_eval.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index ce7edaa..22439c1 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -36,11 +36,11 @@ pSu = re.compile(r'(?<!\(\')(?<!\[\d)(?<![\+|-]\d\))(?<![\+|-]\d)(?:\|)(\d+)(?:\
 pS2bis = re.compile(r'(?:\[)(\d)(\d)(?:\])')
 pSijk = re.compile(r'(?:s|S)(?:_){0,1}(\d+)')
 pMi = re.compile(r'(?:m|M)(?:_){0,1}(\d)')
-pMVar = re.compile(r'(?<![a-zA-Z])((?:m|M|μ)(?:_){0,1}[a-zA-Z]*[\d]*)')
+pMVar = re.compile(r'(?<![a-zA-Z\'])((?:m|M|μ)(?:_){0,1}[a-zA-Z]*[\d]*)')
 pOijk = re.compile(r'(?:Ω_)(\d+)')
 pPijk = re.compile(r'(?:Π_)(\d+)')
 pDijk_adjacent = re.compile(r'(?:Δ_(\d+)(?![\d\|]))')
-pDijk_non_adjacent = re.compile(r'(?:Δ_(\d+(?:\|\d+)*))')
+pDijk_non_adjacent = re.compile(r'(?:Δ_(\d+(?:\|\d+)+))')
 # p3B = re.compile(r'(?:\u27e8|\[)(\d+)(?:\|\({0,1})([\d+[\+|-]*]*)(?:\){0,1}\|)(\d+)(?:\u27e9|\])')
 # pNB = re.compile(r'((?:⟨|\[)\d+\|(?:(?:\([\d+\+|-]{1,}\))|(?:[\d+\+|-]{1,}))*\|\d+(?:⟩|\]))')  # this messes up on strings like: '|2⟩⟨1|4+5|3|+|3|4+5|2⟩⟨1|'
 pNB = re.compile(r'((?:<|⟨|\[)\d+\|(?:\(?(?:\d+[\+|-]?)+\)?\|?)+\|\d+(?:⟩|\]|>))')
@@ -80,7 +80,7 @@ pNB_double_open_disambiguate_alphadot = re.compile(  # DO NOT MODIFY HERE: COPY
     r'(?!\'\))'  # negative lookahead for already matched expression
 )
 ptr5 = re.compile(r'tr5(_\d+|\([\d\|\+\-]+\))')
-ptr = re.compile(r'(tr\((?:(?:\([\d+\+|-]{1,}\))|(?:[\d+\+|-]{1,})*)\))')
+ptr = re.compile(r'(tr\((?:\([\d\+|-]+\)|[\d\+|-])*\))')
 pMassiveSAu_SpinIndexd = re.compile(r'(?:⟨|<)(\d+)(_|d)\|')
 pMassiveSAd_SpinIndexd = re.compile(r'\|(\d+)(_|d)(?:⟩|>)')
 pMassiveSBd_SpinIndexu = re.compile(r'\[(\d+)(\^|u)\|')
@@ -135,6 +135,7 @@ class Particles_Eval:
         string = pMi.sub(r"oPs('m_\1')", string)
         string = re.sub(r"([a-zA-Z\d]+)oPs", r"\1*oPs", string)
         string = pMVar.sub(r"oPs('\1')", string)
+        string = string.replace("δ5", "oPs('δ5')")
         string = pOijk.sub(r"oPs('Ω_\1')", string)
         string = pPijk.sub(r"oPs('Π_\1')", string)
         string = ptr5.sub(r"oPs('tr5\1')", string)
-- 
2.43.0


From 8a73c9660582f78c5221098abddca2b0d2b2716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 09/42] fix: expressions can not run arbitrary code or read
 arbitrary attributes

Call arguments were pasted into a string and passed to eval, any numpy function
(e.g. numpy.savetxt) could be called, string constants were accepted as values,
and attributes starting with m (e.g. multiplicity, ms) were read as masses.
---
 lips/particles_compute.py |  2 ++
 lips/particles_eval.py    | 29 ++++++++++-------------------
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 8875cfd..66ca062 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -267,6 +267,8 @@ class Particles_Compute:
             return result
 
         if pMVar.findall(temp_string) != []:
+            if temp_string not in self.internal_masses:
+                raise AttributeError(f"Unknown internal mass: {temp_string}.")
             res = getattr(self, temp_string)
             if isinstance(res, str):
                 return self.compute(res)
diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 22439c1..39eeb06 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -3,7 +3,6 @@
 
 # Author: Giuseppe
 
-import sys
 import re
 import ast
 import functools
@@ -175,8 +174,8 @@ def ast_eval_expr(expr, locals_={}):
 
 
 def _eval_node(node, locals_={}):
-    if isinstance(node, ast.Constant):
-        return node.n
+    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float, complex)) and not isinstance(node.value, bool):
+        return node.value
 
     elif isinstance(node, ast.BinOp):
         left, right = _eval_node(node.left, locals_), _eval_node(node.right, locals_)
@@ -192,20 +191,15 @@ def _eval_node(node, locals_={}):
 
     elif isinstance(node, ast.Call):
         if isinstance(node.func, ast.Name) and hasattr(node.func, 'id') and node.func.id == 'oPs':
-            function = node.func.id
-            argument = node.args[0].s if sys.version_info[0] > 2 else node.args[0].s.decode('utf-8')
-            allowed_func_call = f"{function}('{argument}')"
+            if not (len(node.args) == 1 and isinstance(node.args[0], ast.Constant) and isinstance(node.args[0].value, str)):
+                raise TypeError(node, ast.dump(node))
+            return locals_['oPs'](node.args[0].value)
         elif isinstance(node.func, ast.Attribute) and node.func.attr in ['mpf', 'sqrt']:
-            function, method = 'oPs.field', node.func.attr
-            if hasattr(node.args[0], 'id'):
-                argument = ast_eval_expr(node.args[0].id, locals_)
-            else:
-                argument = _eval_node(node.args[0], locals_)
-            # return locals_['oPs'].field.sqrt(argument)  # could also avoid re-parsing the argument
-            allowed_func_call = f"{function}.{method}({function}('{argument}'))"
+            field, argument = locals_['oPs'].field, _eval_node(node.args[0], locals_)
+            return getattr(field, node.func.attr)(field(str(argument)))
         elif isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id in ['numpy', ]:
             module_name, func_name = node.func.value.id, node.func.attr
-            if module_name in locals_ and hasattr(locals_[module_name], func_name):
+            if module_name in locals_ and func_name in ['block', 'transpose']:
                 func = getattr(locals_[module_name], func_name)
                 args = [_eval_node(arg, locals_) for arg in node.args]
                 kwargs = {kw.arg: _eval_node(kw.value, locals_) for kw in node.keywords}
@@ -213,14 +207,11 @@ def _eval_node(node, locals_={}):
             else:
                 raise TypeError("Attribute not understood:", node, ast.dump(node))
         elif isinstance(node.func, ast.Name) and hasattr(node.func, 'id') and node.func.id == 'PAdic':
-            function, arguments = 'PAdic', ", ".join(map(str, [arg.n for arg in node.args]))
-            allowed_func_call = f"{function}({arguments})"
+            return PAdic(*[_eval_node(arg, locals_) for arg in node.args])
         elif isinstance(node.func, ast.Name) and hasattr(node.func, 'id') and node.func.id == 'Fraction':
-            function, arguments = 'Fraction', ", ".join(map(str, [arg.n for arg in node.args]))
-            allowed_func_call = f"{function}({arguments})"
+            return Fraction(*[_eval_node(arg, locals_) for arg in node.args])
         else:
             raise TypeError(node, ast.dump(node))
-        return eval(allowed_func_call, None, locals_)
 
     elif isinstance(node, ast.Name):
         if node.id in locals_.keys() and isinstance(locals_[node.id],
-- 
2.43.0


From 63de092e8b56e32e6a39bcb326ac930bc9c41c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:49 +0000
Subject: [PATCH 10/42] fix: bivariate slices and slices without a seed

The second left-handed shift used the wrong unknowns, the coefficients in two
parameters were extracted with a univariate method, and retrying without a seed
added None and an integer.
---
 lips/particles_slices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 40161ad..ac81f34 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -43,7 +43,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
         elif algorithm == 'generic':  # ring-agnostic algorithm, less efficient: ⟨ij⟩ is quadratic in t
@@ -75,11 +75,11 @@ class Particles_Slices:
             ys2 = sympy.symbols(f'y2_1:{len(self) + 1}')
             for i, oP in enumerate(self):
                 oP.r_sp_d = oP.r_sp_d + t1 * xs1[i] * oPShift1.r_sp_d + t2 * xs2[i] * oPShift2.r_sp_d
-                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * xs2[i] * oPShift2.l_sp_d
+                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * ys2[i] * oPShift2.l_sp_d
 
             equations = [sympy.poly(entry.expand(), modulus=self.field.characteristic ** self.field.digits) for entry in self.total_mom.flatten().tolist()]
             equations += [sympy.poly(self(constraint).expand(), modulus=self.field.characteristic ** self.field.digits) for constraint in extra_constraints]
-            equations = [entry for entry in flatten([sympy.poly(eq, (t1, t2)).as_list() for eq in equations]) if entry != 0]
+            equations = [entry for entry in flatten([sympy.poly(eq, t1, t2).coeffs() for eq in equations]) if entry != 0]
             if verbose:
                 print(f"Slicing subject to len(equations) constraints: {equations}")
 
@@ -89,7 +89,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
         elif algorithm == 'generic':
-- 
2.43.0


From 9dc4925b104cbae4af9250035dbac2b22800dc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:05 +0000
Subject: [PATCH 11/42] fix: momenta with vanishing first component in the
 asymmetric spinor convention

Assigning, adding or clustering to such a momentum raised ZeroDivisionError,
while the symmetric convention leaves the spinors undefined.
---
 lips/particle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particle.py b/lips/particle.py
index e513018..2c6fc41 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -380,7 +380,7 @@ class Particle(object):
         self._set_l_sp_d(self._four_mom[0] + self._four_mom[3], self._four_mom[1] - self._four_mom[2] * 1j)
 
     def _set_l_sp_d(self, P0_plus_P3, P1_minus_iP2):  # l_sp_d is \bar{\lambda}_{\dot\alpha}
-        if lips.spinor_convention == 'symmetric' and abs(P0_plus_P3) <= self.field.tollerance:
+        if abs(P0_plus_P3) <= self.field.tollerance:
             raise ValueError("Encountered zero denominator in spinor.")
         elif lips.spinor_convention == 'symmetric':
             lambda_one = self.field.sqrt(P0_plus_P3)
-- 
2.43.0


From b44e0c959c293271f41cd1a6cc1c0a9daeeac61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:21 +0000
Subject: [PATCH 12/42] fix: spinor chains written with ASCII angle brackets
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

compute() decided the chirality of a chain from its first character being '⟨',
so '<1|2|3]' was silently evaluated as if it started with '['.
---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 66ca062..4856fc5 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -79,7 +79,7 @@ class Particles_Compute:
         Available variables: ⟨a|b⟩, [a|b], ⟨a|b+c|d], ⟨a|b+c|d+e|f], ..., s_ijk, Δ_ijk, Ω_ijk, Π_ijk, tr5_ijkl"""
 
         # Consistency of string check is left to ast parser.
-        temp_string = rsubs_dict(original_temp_string, bold_digits)
+        temp_string = rsubs_dict(original_temp_string, bold_digits).replace("<", "⟨").replace(">", "⟩")
 
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
-- 
2.43.0


From b2f7f7e20757c6d9c9fcb169c8f313727620f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:09 +0000
Subject: [PATCH 13/42] fix: open spinor chains with parentheses around their
 entries
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

E.g. ⟨1|(2+3)|(4+5)| raised a SyntaxError and ⟨1|(2)|(5)| silently evaluated to something else,
while the same strings without parentheses were evaluated correctly.
---
 lips/particles_eval.py | 1 +
 lips/tools.py          | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 39eeb06..b6c31d6 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -116,6 +116,7 @@ class Particles_Eval:
         string = non_unicode_powers(string)
         string = re.sub(r"\^(?![\]⟩>\|])", r"**", string)
         string = re.sub(r"{([\d\|]+)}", r"\1", string)
+        string = re.sub(r"\|\((\d+(?:[\+-]\d+)*)\)(?=\|)", r"|\1", string)  # parentheses around entries of a spinor chain
         # this needs to be at top because it relies on the rest
         string = pMassiveSAu_SpinIndexd.sub(
             lambda match: f"(ϵ@block([[⟨{int(match.group(1))}|], [⟨{int(match.group(1)) + 1}|]]))[0:1, :]@|", string)
diff --git a/lips/tools.py b/lips/tools.py
index 407da5b..e5986eb 100644
--- a/lips/tools.py
+++ b/lips/tools.py
@@ -46,9 +46,9 @@ pSd = re.compile(r'^(?:\[)(\d+)(?:\|)$')
 pSu = re.compile(r'^(?:\|)(\d+)(?:\])$')
 p3B = re.compile(r'^(?:⟨|\[)(\d+)(?:\|\({0,1})([\d+[\+-]*]*)(?:\){0,1}\|)(\d+)(?:⟩|\])$')
 pNB = re.compile(r'^(?:<|⟨|\[)(?P<start>\d+)\|(?P<middle>(?:\(?(?:\d+[\+|-]?)+\)?\|?)+)\|(?P<end>\d+)(?:⟩|\]|>)$')
-pNB_open_begin = re.compile(r'^(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+)(?:\|)(?P<end>\d+)(?:⟩|\])$')
-pNB_open_end = re.compile(r'^(?:⟨|\[)(?P<start>\d+)(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+)(?:\|)$')
-pNB_double_open = re.compile(r'^(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+)(?:\|)$')
+pNB_open_begin = re.compile(r'^(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)(?P<end>\d+)(?:⟩|\])$')
+pNB_open_end = re.compile(r'^(?:⟨|\[)(?P<start>\d+)(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)$')
+pNB_double_open = re.compile(r'^(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)$')
 
 # '(⟨a|b|c+d|e|a]-⟨b|f|c+d|e|b])'  -  from two-loop five-point one-mass alphabet
 p5Bdiff = re.compile(r'^\(⟨(?P<a>\d+)\|(?P<b>\d+)\|\({0,1}(?P<cd>[\d+[\+]*]*)\){0,1}\|(?P<e>\d+)\|(?P=a)\]\-⟨(?P=b)\|(?P<f>\d+)\|\({0,1}(?P=cd)\){0,1}\|(?P=e)\|(?P=b)\]\)$')
-- 
2.43.0


From b321c8a19f4f370f7ee239b7814f779647da6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:33 +0000
Subject: [PATCH 14/42] fix: sign of tr5 when its first entry is a sum of
 momenta

tr5(1+2|3|4|5) was evaluated (and set) as tr5(3|4|5|1+2), which has the opposite sign.
---
 lips/hardcoded_limits/particles_set.py | 1 +
 lips/particles_compute.py              | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lips/hardcoded_limits/particles_set.py b/lips/hardcoded_limits/particles_set.py
index e5cfbb5..59799ad 100644
--- a/lips/hardcoded_limits/particles_set.py
+++ b/lips/hardcoded_limits/particles_set.py
@@ -467,6 +467,7 @@ class Particles_Set:
             if len(a) == 1:
                 break
             a, b, c, d = b, c, d, a
+            temp_value = -temp_value  # cyclic rotations of 4 entries are odd permutations
         else:
             raise NotImplementedError("tr5 set implementation requires at least 1 massless particle.")
 
diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 4856fc5..def3800 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -84,13 +84,15 @@ class Particles_Compute:
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
             a, b, c, d = abcd.split("|") if "|" in abcd else abcd
+            sign = 1
             for _ in range(4):
                 if len(a) == 1:
                     break
                 a, b, c, d = b, c, d, a
+                sign = -sign  # tr5 is fully antisymmetric, cyclic rotations of 4 entries are odd permutations
             else:
                 raise NotImplementedError("tr5 implementation requires at least 1 massless particle.")
-            return self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]")
+            return sign * (self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]"))
 
         if ptr.findall(temp_string) != []:                          # e.g.: tr(i+j|k-l|...)
             abcd = ptr.search(temp_string)
-- 
2.43.0


From 6a73e94b45d1d351b787a671a0ee987482562c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:53 +0000
Subject: [PATCH 15/42] fix: LaTeX braces at the end of an expression
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A trailing Δ_{12|34|56} or ⟨12⟩^{2} had its closing brace turned into a parenthesis and raised a SyntaxError.
---
 lips/particles_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index b6c31d6..8fec3aa 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -112,10 +112,10 @@ class Particles_Eval:
         string = string.replace(r"}{", ")/(")
         string = string.replace("}+\\", ")+")
         string = string.replace("\n", "").replace(" ", "")
+        string = re.sub(r"{([\d\|]+)}", r"\1", string)
         string = re.sub(r"}$", ")", string)
         string = non_unicode_powers(string)
         string = re.sub(r"\^(?![\]⟩>\|])", r"**", string)
-        string = re.sub(r"{([\d\|]+)}", r"\1", string)
         string = re.sub(r"\|\((\d+(?:[\+-]\d+)*)\)(?=\|)", r"|\1", string)  # parentheses around entries of a spinor chain
         # this needs to be at top because it relies on the rest
         string = pMassiveSAu_SpinIndexd.sub(
-- 
2.43.0


From 9a8640399d218c79e47d9001db7fd7770f5a93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 16/42] fix: lists are not values of expressions

'[1]', '()' or '[1]*2' were evaluated as python lists instead of being rejected.
---
 lips/particles_eval.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 8fec3aa..1c74833 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -174,6 +174,13 @@ def ast_eval_expr(expr, locals_={}):
     return _eval_node(ast.parse(expr, mode='eval').body, locals_=locals_)
 
 
+def _eval_nested_list(node, locals_={}):
+    """Lists are only allowed as arguments of numpy functions, e.g. the rows of a block matrix."""
+    if isinstance(node, (ast.List, ast.Tuple)):
+        return [_eval_nested_list(el, locals_) for el in node.elts]
+    return _eval_node(node, locals_)
+
+
 def _eval_node(node, locals_={}):
     if isinstance(node, ast.Constant) and isinstance(node.value, (int, float, complex)) and not isinstance(node.value, bool):
         return node.value
@@ -187,9 +194,6 @@ def _eval_node(node, locals_={}):
     elif isinstance(node, ast.UnaryOp):
         return operators[type(node.op)](_eval_node(node.operand, locals_))
 
-    elif isinstance(node, (ast.List, ast.Tuple)):
-        return [_eval_node(el, locals_) for el in node.elts]
-
     elif isinstance(node, ast.Call):
         if isinstance(node.func, ast.Name) and hasattr(node.func, 'id') and node.func.id == 'oPs':
             if not (len(node.args) == 1 and isinstance(node.args[0], ast.Constant) and isinstance(node.args[0].value, str)):
@@ -202,7 +206,7 @@ def _eval_node(node, locals_={}):
             module_name, func_name = node.func.value.id, node.func.attr
             if module_name in locals_ and func_name in ['block', 'transpose']:
                 func = getattr(locals_[module_name], func_name)
-                args = [_eval_node(arg, locals_) for arg in node.args]
+                args = [_eval_nested_list(arg, locals_) for arg in node.args]
                 kwargs = {kw.arg: _eval_node(kw.value, locals_) for kw in node.keywords}
                 return func(*args, **kwargs)
             else:
-- 
2.43.0


From 7c06398a2e3b06d1a5439dca664edf59334bea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:45 +0000
Subject: [PATCH 17/42] fix: reject unbalanced parentheses inside spinor chains
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'⟨1|(2+3|4]' and '⟨1|2+3)|4]' evaluated as if the missing parenthesis were there.
---
 lips/particles_eval.py | 2 +-
 lips/tools.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 1c74833..d6c1369 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -42,7 +42,7 @@ pDijk_adjacent = re.compile(r'(?:Δ_(\d+)(?![\d\|]))')
 pDijk_non_adjacent = re.compile(r'(?:Δ_(\d+(?:\|\d+)+))')
 # p3B = re.compile(r'(?:\u27e8|\[)(\d+)(?:\|\({0,1})([\d+[\+|-]*]*)(?:\){0,1}\|)(\d+)(?:\u27e9|\])')
 # pNB = re.compile(r'((?:⟨|\[)\d+\|(?:(?:\([\d+\+|-]{1,}\))|(?:[\d+\+|-]{1,}))*\|\d+(?:⟩|\]))')  # this messes up on strings like: '|2⟩⟨1|4+5|3|+|3|4+5|2⟩⟨1|'
-pNB = re.compile(r'((?:<|⟨|\[)\d+\|(?:\(?(?:\d+[\+|-]?)+\)?\|?)+\|\d+(?:⟩|\]|>))')
+pNB = re.compile(r'((?:<|⟨|\[)\d+(?:\|(?:\(\d+(?:[\+-]\d+)*\)|\d+(?:[\+-]\d+)*))+\|\d+(?:⟩|\]|>))')
 pNB_open_begin = re.compile(
     r'(?<!\(\')'  # negative lookbehind for already matched expression
     r'(?<![\(\[⟨<]\d)(?<![\+|-]\d\))(?<![\+|-]\d)'  # negative lookbehind
diff --git a/lips/tools.py b/lips/tools.py
index e5986eb..fc524e4 100644
--- a/lips/tools.py
+++ b/lips/tools.py
@@ -45,7 +45,7 @@ pS2 = re.compile(r'^(?:\[)(\d+)(?:\|)(\d+)(?:\])$')
 pSd = re.compile(r'^(?:\[)(\d+)(?:\|)$')
 pSu = re.compile(r'^(?:\|)(\d+)(?:\])$')
 p3B = re.compile(r'^(?:⟨|\[)(\d+)(?:\|\({0,1})([\d+[\+-]*]*)(?:\){0,1}\|)(\d+)(?:⟩|\])$')
-pNB = re.compile(r'^(?:<|⟨|\[)(?P<start>\d+)\|(?P<middle>(?:\(?(?:\d+[\+|-]?)+\)?\|?)+)\|(?P<end>\d+)(?:⟩|\]|>)$')
+pNB = re.compile(r'^(?:<|⟨|\[)(?P<start>\d+)\|(?P<middle>(?:\(\d+(?:[\+-]\d+)*\)|\d+(?:[\+-]\d+)*)(?:\|(?:\(\d+(?:[\+-]\d+)*\)|\d+(?:[\+-]\d+)*))*)\|(?P<end>\d+)(?:⟩|\]|>)$')
 pNB_open_begin = re.compile(r'^(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)(?P<end>\d+)(?:⟩|\])$')
 pNB_open_end = re.compile(r'^(?:⟨|\[)(?P<start>\d+)(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)$')
 pNB_double_open = re.compile(r'^(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)$')
-- 
2.43.0


From e79c5f4b2ee675a6d367335503ebda5b818c5b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:45 +0000
Subject: [PATCH 18/42] fix: comments are not part of expressions

Everything after a '#' was silently dropped: 's_12#+s_23' evaluated to s_12.
---
 lips/particles_eval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index d6c1369..7ec00ac 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -106,6 +106,8 @@ class Particles_Eval:
 
     @staticmethod
     def _parse(string):
+        if "#" in string:
+            raise SyntaxError(f"Comments are not allowed in expressions: {string}")
         string = string.replace("−", "-")
         string = string.replace(r"\scriptscriptstyle", "").replace("<", "⟨").replace(">", "⟩")
         string = string.replace(r"\frac{", "(")
-- 
2.43.0


From 4d72dd6a9283223984015053575bfdf72f7f0935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:27 +0000
Subject: [PATCH 19/42] =?UTF-8?q?fix:=20=CE=94=5Fijk,=20=CE=A9=5Fijk=20and?=
 =?UTF-8?q?=20=CE=A0=5Fijk=20with=20invalid=20indices=20raise=20instead=20?=
 =?UTF-8?q?of=20looping=20forever?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

E.g. compute('Δ_199') on a six-point phase space point never returned.
---
 lips/particles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lips/particles.py b/lips/particles.py
index fa73a86..72d4cd6 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -472,6 +472,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         return self.cluster(self.ijk_to_3NonOverlappingLists(ijk))
 
     def ijk_to_3NonOverlappingLists(self, ijk, mode=1):             # this method is used for Delta computation and setting
+        if len(ijk) != 3 or len(set(ijk)) != 3 or not all(1 <= i <= len(self) for i in ijk):
+            raise IndexError(f"Expected three distinct indices between 1 and {len(self)}, got {ijk}.")
         NonOverlappingLists = [[ijk[0]], [ijk[1]], [ijk[2]]]
         for i in range(3):
             while True:
-- 
2.43.0


From d47f446fe2874dc5543914215fb35037f39f33fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:27 +0000
Subject: [PATCH 20/42] fix: expressions can not index into spinors
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'|1⟩[1]' returned a component of the ket.
---
 lips/particles_eval.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 7ec00ac..5389a57 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -229,6 +229,9 @@ def _eval_node(node, locals_={}):
             raise TypeError(node, ast.dump(node), locals_[node.id] if node.id in locals_.keys() else "Not in locals.")
 
     elif isinstance(node, ast.Subscript):
+        if not (isinstance(node.slice, ast.Tuple) and node.slice.elts and all(isinstance(el, ast.Slice) for el in node.slice.elts)):
+            raise TypeError(node, ast.dump(node))  # the parser only generates slices of matrices, e.g. `x[0:1, :]`
+
         value = _eval_node(node.value, locals_)  # Evaluate the base object
 
         def eval_slice(s):
-- 
2.43.0


From 9d6464ccc4b2d02cfa67f43615c2880424bab7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:14 +0000
Subject: [PATCH 21/42] fix: parentheses do not span entries of an open spinor
 chain

'|(1|2)|' was evaluated as '|1|2|'.
---
 lips/particles_eval.py | 8 ++++----
 lips/tools.py          | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 5389a57..7c9681a 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -47,14 +47,14 @@ pNB_open_begin = re.compile(
     r'(?<!\(\')'  # negative lookbehind for already matched expression
     r'(?<![\(\[⟨<]\d)(?<![\+|-]\d\))(?<![\+|-]\d)'  # negative lookbehind
     r'(?<!_\d)(?<!_\d\d)(?<!_\d\d\d)(?<!_\d\d\d\d)'  # negative lookbehind for e.g. Δ_
-    r'(\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|'  # capture
+    r'(\|(?:(?:\(\d+(?:[\+-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|'  # capture
     r'\d+[⟩\]])'  # capture end
     r'(?!\'\))'  # negative lookahead for already matched expression
 )
 pNB_open_end = re.compile(
     r'(?<!\(\')'  # negative lookbehind for already matched expression
     r'([⟨<\[]\d+'  # capture beginning
-    r'\|(?:(?:\([\d+|-]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|)'  # capture
+    r'\|(?:(?:\(\d+(?:[\+-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|)'  # capture
     r'(?!\d[⟩>\]])(?!\d[\+|-])(?!\(\d[\+|-])'  # negative lookahead
     r'(?!\'\))'  # negative lookahead for already matched expression
 )
@@ -64,7 +64,7 @@ pNB_double_open = re.compile(
     r'(?<![\(\[⟨<]\d)(?<![\+|-]\d\))(?<![\+|-]\d)'  # negative lookbehind
     r'(?<!_\d)(?<!_\d\d)(?<!_\d\d\d)(?<!_\d\d\d\d)'  # negative lookbehind for e.g. Δ_
     r'(?<!\|\d)(?<!\|\d\d)(?<!\|\d\d\d)(?<!\|\d\d\d\d)'  # negative lookbehind for e.g. Δ_12|
-    r'(\|(?:(?:\([\d+|-]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|)'  # capture
+    r'(\|(?:(?:\(\d+(?:[\+-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|)'  # capture
     r'(?!\d[⟩>\]])(?!\d[\+|-])(?!\(\d[\+|-])'  # negative lookahead
     r'(?!\'\))'  # negative lookahead for already matched expression
 )
@@ -74,7 +74,7 @@ pNB_double_open_disambiguate_alphadot = re.compile(  # DO NOT MODIFY HERE: COPY
     r'(?<![\(\[⟨<]\d)(?<![\+|-]\d\))(?<![\+|-]\d)'  # negative lookbehind
     r'(?<!_\d)(?<!_\d\d)(?<!_\d\d\d)(?<!_\d\d\d\d)'  # negative lookbehind for e.g. Δ_
     r'(?<!\|\d)(?<!\|\d\d)(?<!\|\d\d\d)(?<!\|\d\d\d\d)'  # negative lookbehind for e.g. Δ_12|
-    r'(\|(?:(?:\([\d+|-]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|)'  # capture
+    r'(\|(?:(?:\(\d+(?:[\+-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))+\|)'  # capture
     r'(?!\d[⟩>\]])(?!\d[\+|-])(?!\(\d[\+|-])'  # negative lookahead
     r'(?!\'\))'  # negative lookahead for already matched expression
 )
diff --git a/lips/tools.py b/lips/tools.py
index fc524e4..a0d0ed6 100644
--- a/lips/tools.py
+++ b/lips/tools.py
@@ -46,9 +46,9 @@ pSd = re.compile(r'^(?:\[)(\d+)(?:\|)$')
 pSu = re.compile(r'^(?:\|)(\d+)(?:\])$')
 p3B = re.compile(r'^(?:⟨|\[)(\d+)(?:\|\({0,1})([\d+[\+-]*]*)(?:\){0,1}\|)(\d+)(?:⟩|\])$')
 pNB = re.compile(r'^(?:<|⟨|\[)(?P<start>\d+)\|(?P<middle>(?:\(\d+(?:[\+-]\d+)*\)|\d+(?:[\+-]\d+)*)(?:\|(?:\(\d+(?:[\+-]\d+)*\)|\d+(?:[\+-]\d+)*))*)\|(?P<end>\d+)(?:⟩|\]|>)$')
-pNB_open_begin = re.compile(r'^(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)(?P<end>\d+)(?:⟩|\])$')
-pNB_open_end = re.compile(r'^(?:⟨|\[)(?P<start>\d+)(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)$')
-pNB_double_open = re.compile(r'^(?:\|)(?P<middle>(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\([\d]+(?:[\+|-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)$')
+pNB_open_begin = re.compile(r'^(?:\|)(?P<middle>(?:(?:\(\d+(?:[\+-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\(\d+(?:[\+-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)(?P<end>\d+)(?:⟩|\])$')
+pNB_open_end = re.compile(r'^(?:⟨|\[)(?P<start>\d+)(?:\|)(?P<middle>(?:(?:\(\d+(?:[\+-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\(\d+(?:[\+-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)$')
+pNB_double_open = re.compile(r'^(?:\|)(?P<middle>(?:(?:\(\d+(?:[\+-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*))(?:\|(?:(?:\(\d+(?:[\+-]\d+)*\))|(?:[\d]+(?:[\+|-]\d+)*)))*)(?:\|)$')
 
 # '(⟨a|b|c+d|e|a]-⟨b|f|c+d|e|b])'  -  from two-loop five-point one-mass alphabet
 p5Bdiff = re.compile(r'^\(⟨(?P<a>\d+)\|(?P<b>\d+)\|\({0,1}(?P<cd>[\d+[\+]*]*)\){0,1}\|(?P<e>\d+)\|(?P=a)\]\-⟨(?P=b)\|(?P<f>\d+)\|\({0,1}(?P=cd)\){0,1}\|(?P=e)\|(?P=b)\]\)$')
-- 
2.43.0


From 104ec3bbef59d5b8ecb8d02c5370d853196e9486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:42 +0000
Subject: [PATCH 22/42] fix: tr5 of legs that are not massless

tr5_ijkl used the spinors of its first entry, which do not describe the momentum of a
massive leg: the result was wrong or an error. The traces of the momenta are always defined.
---
 lips/particles_compute.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index def3800..0e9274b 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -84,15 +84,7 @@ class Particles_Compute:
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
             a, b, c, d = abcd.split("|") if "|" in abcd else abcd
-            sign = 1
-            for _ in range(4):
-                if len(a) == 1:
-                    break
-                a, b, c, d = b, c, d, a
-                sign = -sign  # tr5 is fully antisymmetric, cyclic rotations of 4 entries are odd permutations
-            else:
-                raise NotImplementedError("tr5 implementation requires at least 1 massless particle.")
-            return sign * (self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]"))
+            return self.compute(f"tr({a}|{b}|{c}|{d})") - self.compute(f"tr({b}|{c}|{d}|{a})")
 
         if ptr.findall(temp_string) != []:                          # e.g.: tr(i+j|k-l|...)
             abcd = ptr.search(temp_string)
-- 
2.43.0


From 08ec8a5493c0dcf6bcee324356c3b95157c0af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:00 +0000
Subject: [PATCH 23/42] fix: internal masses and single legs of clustered
 points

Masses such as s_12 were relabelled by substring and only for groups in the written order,
so they changed value; legs that are not merged shared their arrays with the original point.
---
 lips/particles.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 72d4cd6..e51ce0a 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -21,7 +21,7 @@ from sympy import NotInvertible
 from syngular import Field
 from pyadic import PAdic, ModP
 
-from .tools import MinkowskiMetric, flatten, subs_dict, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
+from .tools import MinkowskiMetric, flatten, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
 from .particle import Particle
 from .particles_compute import Particles_Compute
 from .particles_eval import Particles_Eval
@@ -166,11 +166,10 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         Massive legs are by default massive scalars.
         Massive fermions can be specificed as e.g.: massive_fermions=((3, 'u', all), (4, 'd', all)))
         """
-        drule1 = dict(zip(["s" + "".join(map(str, entry)) for entry in llIntegers], [f"s{i}" for i in range(1, len(llIntegers) + 1)]))
-        drule2 = dict(zip(["s_" + "".join(map(str, entry)) for entry in llIntegers], [f"s_{i}" for i in range(1, len(llIntegers) + 1)]))
-        clustered_internal_masses = {key: (subs_dict(val, drule1 | drule2) if isinstance(val, str) else val)
+        clustered_internal_masses = {key: (self._cluster_internal_mass(val, llIntegers) if isinstance(val, str) else val)
                                      for key, val in self.internal_masses_dict.items()}
-        selfClustered = Particles([sum([self[i] for i in corner_as_integers]) for corner_as_integers in llIntegers],
+        selfClustered = Particles([sum([self[i] for i in corner_as_integers]) if len(corner_as_integers) > 1 else copy.deepcopy(self[corner_as_integers[0]])
+                                   for corner_as_integers in llIntegers],
                                   field=self.field, fix_mom_cons=False, internal_masses=clustered_internal_masses)
         if massive_fermions is not None:
             for leg, index_position, index_value in massive_fermions:
@@ -191,6 +190,21 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                 selfClustered[leg]._sps_d_to_sps_u()
         return selfClustered
 
+    def _cluster_internal_mass(self, mass, llIntegers):
+        """Internal mass of the clustered point: Mandelstams of clusters are relabelled, anything else is replaced by its value."""
+        def relabel(match):
+            legs = list(map(int, match.group(2)))
+            clusters = [i for i, corner in enumerate(llIntegers, 1) if set(corner) <= set(legs)]
+            if sorted(leg for i in clusters for leg in llIntegers[i - 1]) != sorted(legs) or len(llIntegers) > 9:
+                raise ValueError(f"{match.group(0)} is not an invariant of the clusters {llIntegers}.")
+            return match.group(1) + "".join(map(str, clusters))
+        try:
+            if not re.fullmatch(r"(?:[sS]_?\d+(?!\d)|[\d\s\+\-\*/\^\(\)])+", mass):
+                raise ValueError(f"{mass} is not a function of Mandelstam invariants.")
+            return re.sub(r"([sS]_?)(\d+)", relabel, mass)
+        except ValueError:
+            return self.compute(mass)
+
     def make_analytical_d(self, indepVars=None, symbols=('a', 'b', 'c', 'd')):
         """ """
         if indepVars is None:
-- 
2.43.0


From b1944562ea37fd469749001bbae3ba9589c8b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:06 +0000
Subject: [PATCH 24/42] fix: strings with massive spinors at both ends and
 several momenta

The chain of momenta after [i^| was transposed as a whole, which reverses the order of its
entries: '[3^|1+2|3|5^]' gave the value of '[3^|3|1+2|5^]'.
---
 lips/particles_eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 7c9681a..cfa184d 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -153,7 +153,9 @@ class Particles_Eval:
         string = pNB_open_begin.sub(r"oPs('\1')", string)
         string = pNB_open_end.sub(r"oPs('\1')", string)
         string = pNB_double_open.sub(r"oPs('\1')", string)
-        string = pNB_double_open_disambiguate_alphadot.sub(r"numpy.transpose(-ϵ @ oPs('\1') @ ϵ)", string)
+        string = pNB_double_open_disambiguate_alphadot.sub(
+            lambda match: "@".join(f"numpy.transpose(-ϵ @ oPs('|{entry}|') @ ϵ)" if i % 2 == 0 else f"oPs('|{entry}|')"
+                                   for i, entry in enumerate(match.group(1)[1:-1].split("|"))), string)
         # open index end
         string = string.replace("sqrt", "oPs.field.sqrt")
         string = re.sub(r'(\d)s', r'\1*s', string)
-- 
2.43.0


From e292657c050c6761b9b0adbd820e6f0b9e4ac31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:55 +0000
Subject: [PATCH 25/42] =?UTF-8?q?fix:=20values=20of=20s=5Fijk=20and=20?=
 =?UTF-8?q?=E2=9F=A8i|j+k|i]=20set=20as=20a=20pair?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lips/hardcoded_limits/particles_set_pair.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lips/hardcoded_limits/particles_set_pair.py b/lips/hardcoded_limits/particles_set_pair.py
index e2deced..1509daf 100644
--- a/lips/hardcoded_limits/particles_set_pair.py
+++ b/lips/hardcoded_limits/particles_set_pair.py
@@ -627,10 +627,10 @@ class Particles_SetPair:
                     t_s1 = '[{}|({})|{}⟩'.format(l3Bs, l3Bc, l3Be)
                 use_mode = 2
             else:                                         # ijk contained in l3B and viceversa
-                t_s1 = t_s2                               # this is the s_ijk, s_ij+s_ik, hence s_jk case basically
-                t_s2 = '⟨{}|{}⟩'.format(l3Bm[0], l3Bm[1])
-                self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
-                return [t_s2, t_s1]                       # cheeky fix
+                # this is the s_ijk, s_ij+s_ik, hence s_jk case basically: s_jk = s_ijk - ⟨i|(j+k)|i]. The sign of the latter is free.
+                s_jk = t_v2 - t_v1 if t_v1 != t_v2 else t_v2 + t_v1
+                t_s1 = '⟨{}|{}⟩'.format(l3Bm[0], l3Bm[1])
+                return self._set_pair_inner(t_s1, s_jk / self.compute('[{}|{}]'.format(l3Bm[1], l3Bm[0])), t_s2, t_v2)
         elif len(free_first_flipped) >= 2:                # flip it and try again
             t_s2 = 's_{}'.format(''.join(self._complementary(list(map(str, ijk)))))
             return self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
-- 
2.43.0


From 60c031472b3a4b387a2b6afc75e7620df527b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:41 +0000
Subject: [PATCH 26/42] fix: two processes creating the cache directory at the
 same time

One of them failed with FileExistsError when the other created the directory
between its check and its call of makedirs.
---
 lips/invariants.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index ae657a5..170faa4 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -124,8 +124,7 @@ class Invariants(object):
     def pw_cache(self):
         home = os.path.expanduser("~")
         pw_cache = home + "/.cache/lips/n={}".format(self.multiplicity)
-        if not os.path.exists(pw_cache):
-            os.makedirs(pw_cache)
+        os.makedirs(pw_cache, exist_ok=True)
         return pw_cache
 
     @property
-- 
2.43.0


From 2f7a8014c841e18207a987fba481fe3e7ad54f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:49 +0000
Subject: [PATCH 27/42] fix: complete the invariants cache before it is put in
 place

A process killed while Berkeley DB creates the file left a __db.* file behind,
after which every construction waited for a retry limit of 100 s, twice.
---
 lips/invariants.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index 170faa4..f7dee81 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -13,6 +13,7 @@ import os
 import re
 import itertools
 import shelve
+import tempfile
 import dbm
 
 pA2 = re.compile(r'^(?:⟨)([0-9])(?:\|)([0-9])(?:⟩)$')
@@ -55,16 +56,19 @@ class Invariants(object):
                 self.GenerateFromScratch(n, no_hard_coded_ones,
                                          Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
                 try:
-                    with shelve.open(self.pw_invariants, 'n') as sInvariants:
-                        sInvariants[str("invs_2")] = self.invs_2
-                        sInvariants[str("invs_3")] = self.invs_3
-                        sInvariants[str("invs_4")] = self.invs_4
-                        sInvariants[str("invs_5")] = self.invs_5
-                        sInvariants[str("invs_s")] = self.invs_s
-                        sInvariants[str("invs_D")] = self.invs_D
-                        sInvariants[str("invs_O")] = self.invs_O
-                        sInvariants[str("invs_P")] = self.invs_P
-                        sInvariants[str("invs_tr5")] = self.invs_tr5
+                    with tempfile.TemporaryDirectory(dir=self.pw_cache) as pw_tmp:  # it is moved in place once it is complete
+                        with shelve.open(pw_tmp + "/invariants", 'n') as sInvariants:
+                            sInvariants[str("invs_2")] = self.invs_2
+                            sInvariants[str("invs_3")] = self.invs_3
+                            sInvariants[str("invs_4")] = self.invs_4
+                            sInvariants[str("invs_5")] = self.invs_5
+                            sInvariants[str("invs_s")] = self.invs_s
+                            sInvariants[str("invs_D")] = self.invs_D
+                            sInvariants[str("invs_O")] = self.invs_O
+                            sInvariants[str("invs_P")] = self.invs_P
+                            sInvariants[str("invs_tr5")] = self.invs_tr5
+                        for file_name in sorted(os.listdir(pw_tmp)):
+                            os.replace(os.path.join(pw_tmp, file_name), os.path.join(self.pw_cache, file_name))
                 except dbm.error:  # the cache could not be written, e.g. because it is in use
                     if verbose:
                         print("Could not write cache")
-- 
2.43.0


From b1627b363816a11b26f7b746422718d9dbf12ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:39 +0000
Subject: [PATCH 28/42] fix: assigning to an unknown spinor name raises
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

ps['⟨1'] = ... was silently ignored.
---
 lips/particles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lips/particles.py b/lips/particles.py
index e51ce0a..6f78d6b 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -434,6 +434,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             elif pSd.findall(index) != []:                      # [B|
                 B = int(pSd.findall(index)[0])
                 self[B].l_sp_d = value
+            else:
+                raise IndexError(index)
         else:
             list.__setitem__(self, index, value)
 
-- 
2.43.0


From 1510e92eded42a80950e1eec23ee7491e007f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:39 +0000
Subject: [PATCH 29/42] fix: particles with two-digit labels by name

ps['12'] was particle 1.
---
 lips/particles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 6f78d6b..e769568 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -408,8 +408,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         if isinstance(index, str):
             if pAu.findall(index) != [] or pAd.findall(index) != [] or pSu.findall(index) != [] or pSd.findall(index) != []:
                 return self.compute(index)
-            elif re.findall(r"(\d)", index) != []:
-                return self[int(re.findall(r"(\d)", index)[0])]
+            elif re.findall(r"(\d+)", index) != []:
+                return self[int(re.findall(r"(\d+)", index)[0])]
             else:
                 raise IndexError(index)
         elif isinstance(index, slice):
-- 
2.43.0


From fbc216a6a08707725014841853bf259e739f9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:39 +0000
Subject: [PATCH 30/42] fix: copies of points with ten or more particles

---
 lips/particles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index e769568..7560427 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -158,8 +158,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             return oResParticles
 
     def copy(self):
-        from .symmetries import identity
-        return self.image(identity(len(self)))
+        return copy.deepcopy(self)
 
     def cluster(self, llIntegers, massive_fermions=None):
         """Returns clustered particle objects according to lists of lists of integers (e.g. corners of one loop diagram).
-- 
2.43.0


From 0364f62593b1e19482f65ea89e3488be45d5e051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:39 +0000
Subject: [PATCH 31/42] fix: != of points is the negation of ==

---
 lips/particles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lips/particles.py b/lips/particles.py
index 7560427..00e936b 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -93,6 +93,9 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         else:
             return False
 
+    def __ne__(self, other):
+        return not self == other
+
     def __hash__(self):
         """Hash function: hash string of concatenated momenta."""
         return hash(tuple([hash(oP) for oP in self]))
-- 
2.43.0


From 0246966379caa81d4ef209751ec2e8b72ee8461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:39 +0000
Subject: [PATCH 32/42] fix: hash of a massless particle without spinors

---
 lips/particle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particle.py b/lips/particle.py
index 2c6fc41..4b5119c 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -110,7 +110,7 @@ class Particle(object):
         return self.four_mom[key]
 
     def __hash__(self):
-        if abs(self.m2) <= self.field.tollerance:
+        if abs(self.m2) <= self.field.tollerance and self.r_sp_d is not None and self.l_sp_d is not None:
             return hash(tuple([tuple(self.r_sp_d.flatten()), tuple(self.l_sp_d.flatten())]))
         else:
             return hash(tuple(self.r2_sp.flatten()))
-- 
2.43.0


From 67c86c72949ac4c6d0e920a19f4827024f45524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:14 +0000
Subject: [PATCH 33/42] fix: hash of a massless particle with spinors in a
 field extension

---
 lips/particle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index 4b5119c..74114e9 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -111,9 +111,11 @@ class Particle(object):
 
     def __hash__(self):
         if abs(self.m2) <= self.field.tollerance and self.r_sp_d is not None and self.l_sp_d is not None:
-            return hash(tuple([tuple(self.r_sp_d.flatten()), tuple(self.l_sp_d.flatten())]))
-        else:
-            return hash(tuple(self.r2_sp.flatten()))
+            try:
+                return hash(tuple([tuple(self.r_sp_d.flatten()), tuple(self.l_sp_d.flatten())]))
+            except TypeError:  # spinor components in a field extension are not hashable
+                pass
+        return hash(tuple(self.r2_sp.flatten()))
 
     # GETTERS and SETTERS
 
-- 
2.43.0


From b5d2f263b1d8493a5a6708e679965b708eeedbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:41 +0000
Subject: [PATCH 34/42] fix: substitution into symbolic points of 0, 1, -1 or
 powers, and in characteristic zero

---
 lips/particles.py | 62 ++++++++++++++++-------------------------------
 1 file changed, 21 insertions(+), 41 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 00e936b..858e5db 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -16,10 +16,11 @@ import itertools
 import mpmath
 import sympy
 
+from fractions import Fraction
 from sympy import NotInvertible
 
 from syngular import Field
-from pyadic import PAdic, ModP
+from pyadic import PAdic
 
 from .tools import MinkowskiMetric, flatten, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
 from .particle import Particle
@@ -251,49 +252,28 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def subs(self, myDict):
         """For all rank-1 spinor components, substitutes symbols with values from myDict."""
         for oP in self:
-            if isinstance(oP.r_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
-                oP.r_sp_d[0, 0] = oP.r_sp_d[0, 0].subs(myDict)
-                if isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.r_sp_d[0, 0] = ModP(oP.r_sp_d[0, 0], self.field.characteristic)
-                elif isinstance(oP.r_sp_d[0, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.r_sp_d[0, 0] = PAdic(oP.r_sp_d[0, 0], self.field.characteristic, self.field.digits)
-                else:
-                    oP.r_sp_d[0, 0] = sympy.poly(oP.r_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
-            if isinstance(oP.r_sp_d[1, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
-                oP.r_sp_d[1, 0] = oP.r_sp_d[1, 0].subs(myDict)
-                if isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.r_sp_d[1, 0] = ModP(oP.r_sp_d[1, 0], self.field.characteristic)
-                elif isinstance(oP.r_sp_d[1, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.r_sp_d[1, 0] = PAdic(oP.r_sp_d[1, 0], self.field.characteristic, self.field.digits)
-                else:
-                    oP.r_sp_d[1, 0] = sympy.poly(oP.r_sp_d[1, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
+            oP.r_sp_d[0, 0] = self._subs_and_cast(oP.r_sp_d[0, 0], myDict)
+            oP.r_sp_d[1, 0] = self._subs_and_cast(oP.r_sp_d[1, 0], myDict)
             oP.r_sp_d = oP.r_sp_d  # trigger setter
-            if isinstance(oP.l_sp_d[0, 0], (sympy.Add, sympy.Mul, sympy.Symbol)):
-                oP.l_sp_d[0, 0] = oP.l_sp_d[0, 0].subs(myDict)
-                if isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "finite field":
-                    oP.l_sp_d[0, 0] = ModP(oP.l_sp_d[0, 0], self.field.characteristic)
-                elif isinstance(oP.l_sp_d[0, 0], sympy.Integer) and self.field.name == "padic":
-                    oP.l_sp_d[0, 0] = PAdic(oP.l_sp_d[0, 0], self.field.characteristic, self.field.digits)
-                else:
-                    oP.l_sp_d[0, 0] = sympy.poly(oP.l_sp_d[0, 0], modulus=self.field.characteristic ** self.field.digits).as_expr()
-            if isinstance(oP.l_sp_d[0, 1], (sympy.Add, sympy.Mul, sympy.Symbol)):
-                oP.l_sp_d[0, 1] = oP.l_sp_d[0, 1].subs(myDict)
-                if isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "finite field":
-                    oP.l_sp_d[0, 1] = ModP(oP.l_sp_d[0, 1], self.field.characteristic)
-                elif isinstance(oP.l_sp_d[0, 1], sympy.Integer) and self.field.name == "padic":
-                    oP.l_sp_d[0, 1] = PAdic(oP.l_sp_d[0, 1], self.field.characteristic, self.field.digits)
-                else:
-                    oP.l_sp_d[0, 1] = sympy.poly(oP.l_sp_d[0, 1], modulus=self.field.characteristic ** self.field.digits).as_expr()
+            oP.l_sp_d[0, 0] = self._subs_and_cast(oP.l_sp_d[0, 0], myDict)
+            oP.l_sp_d[0, 1] = self._subs_and_cast(oP.l_sp_d[0, 1], myDict)
             oP.l_sp_d = oP.l_sp_d  # trigger setter
         for mass in self.internal_masses:
-            if isinstance(getattr(self, mass), (sympy.Add, sympy.Mul, sympy.Symbol)):
-                setattr(self, mass, getattr(self, mass).subs(myDict))
-            if isinstance(getattr(self, mass), (sympy.Integer, ModP)) and self.field.name == "finite field":
-                setattr(self, mass, ModP(getattr(self, mass), self.field.characteristic))
-            elif isinstance(getattr(self, mass), (sympy.Integer, PAdic)) and self.field.name == "padic":
-                setattr(self, mass, PAdic(getattr(self, mass), self.field.characteristic, self.field.digits))
-            elif not isinstance(getattr(self, mass), str):
-                setattr(self, mass, sympy.poly(getattr(self, mass), modulus=self.field.characteristic ** self.field.digits).as_expr())
+            setattr(self, mass, self._subs_and_cast(getattr(self, mass), myDict))
+
+    def _subs_and_cast(self, value, myDict):
+        """Substitutes symbols in value with values from myDict. If no symbols are left, value is cast to the field."""
+        if not isinstance(value, sympy.Expr):
+            return value
+        value = value.subs(myDict)
+        if value.free_symbols and self.field.characteristic != 0:
+            value = sympy.poly(value, modulus=self.field.characteristic ** self.field.digits).as_expr()
+        if value.free_symbols:
+            return value
+        elif isinstance(value, sympy.Rational):
+            return self.field(Fraction(int(value.p), int(value.q)))
+        else:
+            return self.field(mpmath.mpc(*value.evalf(mpmath.mp.dps).as_real_imag()))
 
     def fix_mom_cons(self, A=0, B=0, real_momenta=False, axis=1):   # using real momenta changes both |⟩ and |] of A & B
         """Fixes momentum conservation using particles A and B."""
-- 
2.43.0


From 10356ef3b5e029b900663d924a5c8b4042204b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:41 +0000
Subject: [PATCH 35/42] fix: field casts of massive particles and of particles
 without spinors in the field

---
 lips/particle.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lips/particle.py b/lips/particle.py
index 74114e9..581b289 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -52,6 +52,14 @@ class Particle(object):
             raise Exception('Bad Particle Constructor')
 
     def to_field(self, field):
+        if self.r_sp_d is None or self.spinors_are_in_field_extension or abs(self.m2) > self.field.tollerance:
+            r_sp_d, l_sp_d = self.r_sp_d, self.l_sp_d
+            self.field = field
+            self.r2_sp = numpy.vectorize(field)(self.r2_sp)
+            if hasattr(self, 'spin_index'):
+                self._r_sp_d, self._l_sp_d = numpy.vectorize(field)(r_sp_d), numpy.vectorize(field)(l_sp_d)
+                self._sps_d_to_sps_u()
+            return
         self._r_sp_d = numpy.vectorize(field)(self.r_sp_d)
         self._r_sp_d_to_r_sp_u()
         self.l_sp_d = numpy.vectorize(field)(self.l_sp_d)
-- 
2.43.0


From 8a740ccaed6b10d6ee97e8111c712d972d0613f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:41 +0000
Subject: [PATCH 36/42] fix: field casts of points convert their internal
 masses

---
 lips/particles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lips/particles.py b/lips/particles.py
index 858e5db..daaf46b 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -77,6 +77,9 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def to_field(self, field):
         for oP in self:
             oP.to_field(field)
+        for mass, value in self.internal_masses_dict.items():
+            if not isinstance(value, (str, sympy.Expr)):
+                setattr(self, mass, field(value))
         self.field = field
 
     def __setattr__(self, name, value):
-- 
2.43.0


From a48c18fe256ee0a2c1fda815c0a788402019ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:36 +0000
Subject: [PATCH 37/42] fix: the seed of generic univariate slices is used

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index ac81f34..fc4df70 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -50,7 +50,7 @@ class Particles_Slices:
             multiplicity = len(self)
             I = LipsIdeal(multiplicity, extra_constraints)
             I.to_qring(I)
-            univariate_slice = I.ring.univariate_slice(self.field)
+            univariate_slice = I.ring.univariate_slice(self.field, seed=seed)
             update_particles(self, univariate_slice(t))
 
         else:
-- 
2.43.0


From dd9ff0fe44fa1f321fd84f1f2a22192d32d3b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:48 +0000
Subject: [PATCH 38/42] fix: no stray quotation marks in spinors written for
 Mathematica

---
 lips/particles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index daaf46b..561de46 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -532,12 +532,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         i = 1
         for oParticle in self:
             a = oParticle.r_sp_d[0, 0]
-            a_real = repr(a.real)[5:-1]
-            a_imag = repr(a.imag)[5:-1]
+            a_real = repr(a.real)[5:-2]
+            a_imag = repr(a.imag)[5:-2]
             a = (a_real + "+" + a_imag + "I").replace("e", "*^")
             b = oParticle.r_sp_d[1, 0]
-            b_real = repr(b.real)[5:-1]
-            b_imag = repr(b.imag)[5:-1]
+            b_real = repr(b.real)[5:-2]
+            b_imag = repr(b.imag)[5:-2]
             b = (b_real + "+" + b_imag + "I").replace("e", "*^")
             msg += r'Subscript[\[Lambda], ' + str(i) + ',1] = ' + a + ";\n"
             msg += r'Subscript[\[Lambda], ' + str(i) + ',2] = ' + b + ";\n"
@@ -549,12 +549,12 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         i = 1
         for oParticle in self:
             a = oParticle.l_sp_d[0, 0]
-            a_real = repr(a.real)[5:-1]
-            a_imag = repr(a.imag)[5:-1]
+            a_real = repr(a.real)[5:-2]
+            a_imag = repr(a.imag)[5:-2]
             a = (a_real + "+" + a_imag + "I").replace("e", "*^")
             b = oParticle.l_sp_d[0, 1]
-            b_real = repr(b.real)[5:-1]
-            b_imag = repr(b.imag)[5:-1]
+            b_real = repr(b.real)[5:-2]
+            b_imag = repr(b.imag)[5:-2]
             b = (b_real + "+" + b_imag + "I").replace("e", "*^")
             msg += r"Subscript[\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\), " + str(i) + ",1] = " + a + ";\n"
             msg += r"Subscript[\!\(\*OverscriptBox[\(\[Lambda]\), \(_\)]\), " + str(i) + ",2] = " + b + ";\n"
-- 
2.43.0


From 558b88cdc6dbedd64cf7a8633c2270e89b44f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:22 +0000
Subject: [PATCH 39/42] fix: polarisations of the same helicity in either
 spelling contract to zero

---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 0e9274b..200cdf4 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -64,7 +64,7 @@ class Particles_Compute:
 
     def ee(self, i, j):
         """Contraction of two polarization tensors. Requires .helconf property to be set."""
-        if self.helconf[i - 1] == self.helconf[j - 1]:
+        if (self.helconf[i - 1] in ["-", "m"]) == (self.helconf[j - 1] in ["-", "m"]):
             return 0
         elif self.helconf[i - 1] in ["-", "m"]:
             # ε⁻ᵢ⋅ε⁺ⱼ = ⟨i|q|j] / ⟨j|q|i]
-- 
2.43.0


From 7965415c17f6b9e602a097fd36215896b0debea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:16 +0000
Subject: [PATCH 40/42] fix: making a point symbolic, or substituting in it,
 leaves particles that share a spinor array alone

---
 lips/particles.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 561de46..70d38c9 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -220,6 +220,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         lc = sympy.symbols(f'{symbols[2]}1:{len(self) + 1}')
         ld = sympy.symbols(f'{symbols[3]}1:{len(self) + 1}')
         for i, oParticle in enumerate(self):
+            oParticle._r_sp_d, oParticle._l_sp_d = oParticle._r_sp_d.copy(), oParticle._l_sp_d.copy()  # these may be shared, e.g. after self[1].r_sp_d = self[2].r_sp_d
             if indepVars[i * 4 + 0] == 0:
                 oParticle._r_sp_d[0, 0] = la[i]
             if indepVars[i * 4 + 1] == 0:
@@ -255,12 +256,13 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def subs(self, myDict):
         """For all rank-1 spinor components, substitutes symbols with values from myDict."""
         for oP in self:
-            oP.r_sp_d[0, 0] = self._subs_and_cast(oP.r_sp_d[0, 0], myDict)
-            oP.r_sp_d[1, 0] = self._subs_and_cast(oP.r_sp_d[1, 0], myDict)
-            oP.r_sp_d = oP.r_sp_d  # trigger setter
-            oP.l_sp_d[0, 0] = self._subs_and_cast(oP.l_sp_d[0, 0], myDict)
-            oP.l_sp_d[0, 1] = self._subs_and_cast(oP.l_sp_d[0, 1], myDict)
-            oP.l_sp_d = oP.l_sp_d  # trigger setter
+            r_sp_d, l_sp_d = oP.r_sp_d.copy(), oP.l_sp_d.copy()  # the originals may be shared with other particles
+            r_sp_d[0, 0] = self._subs_and_cast(r_sp_d[0, 0], myDict)
+            r_sp_d[1, 0] = self._subs_and_cast(r_sp_d[1, 0], myDict)
+            oP.r_sp_d = r_sp_d  # trigger setter
+            l_sp_d[0, 0] = self._subs_and_cast(l_sp_d[0, 0], myDict)
+            l_sp_d[0, 1] = self._subs_and_cast(l_sp_d[0, 1], myDict)
+            oP.l_sp_d = l_sp_d  # trigger setter
         for mass in self.internal_masses:
             setattr(self, mass, self._subs_and_cast(getattr(self, mass), myDict))
 
-- 
2.43.0


From 2a7b152f4b27c11f68cc7e5581b6d6659cad8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:33 +0000
Subject: [PATCH 41/42] fix: assigning a spinor leaves the shape of the given
 array alone

---
 lips/particle.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index 581b289..a5b47e2 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -134,8 +134,7 @@ class Particle(object):
 
     @r_sp_d.setter
     def r_sp_d(self, temp_r_sp_d):
-        self._r_sp_d = temp_r_sp_d     # left spinor is unchanged.
-        self._r_sp_d.shape = (2, 1)    # column vector
+        self._r_sp_d = temp_r_sp_d.reshape((2, 1))  # column vector, left spinor is unchanged. The given array is left as it is.
         self._r_sp_d_to_r_sp_u()
         self._r1_sp_to_r2_sp()
         self._r1_sp_to_r2_sp_b()
@@ -154,8 +153,7 @@ class Particle(object):
 
     @l_sp_d.setter
     def l_sp_d(self, temp_l_sp_d):
-        self._l_sp_d = temp_l_sp_d     # right spinor is unchanged.
-        self._l_sp_d.shape = (1, 2)    # row vectorx
+        self._l_sp_d = temp_l_sp_d.reshape((1, 2))  # row vector, right spinor is unchanged. The given array is left as it is.
         self._l_sp_d_to_l_sp_u()
         self._r1_sp_to_r2_sp()
         self._r1_sp_to_r2_sp_b()
@@ -174,8 +172,7 @@ class Particle(object):
 
     @r_sp_u.setter
     def r_sp_u(self, temp_r_sp_u):
-        self._r_sp_u = temp_r_sp_u     # left spinor is unchanged.
-        self._r_sp_u.shape = (1, 2)    # row vector
+        self._r_sp_u = temp_r_sp_u.reshape((1, 2))  # row vector, left spinor is unchanged. The given array is left as it is.
         self._r_sp_u_to_r_sp_d()
         self._r1_sp_to_r2_sp()
         self._r1_sp_to_r2_sp_b()
@@ -194,8 +191,7 @@ class Particle(object):
 
     @l_sp_u.setter
     def l_sp_u(self, temp_l_sp_u):
-        self._l_sp_u = temp_l_sp_u     # right spinor is unchanged.
-        self._l_sp_u.shape = (2, 1)    # column vector
+        self._l_sp_u = temp_l_sp_u.reshape((2, 1))  # column vector, right spinor is unchanged. The given array is left as it is.
         self._l_sp_u_to_l_sp_d()
         self._r1_sp_to_r2_sp()
         self._r1_sp_to_r2_sp_b()
-- 
2.43.0


From 185ce906f559e5f61671b7829a38b7c588ef6c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:33 +0000
Subject: [PATCH 42/42] fix: swapping the spinors of a massive leg leaves a
 copy that shares its arrays alone

---
 lips/particle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index a5b47e2..21bc041 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -339,9 +339,9 @@ class Particle(object):
             self._l_sp_d, self._r_sp_d = self._r_sp_d.T, self._l_sp_d.T
             if hasattr(self, 'spin_index'):
                 if self.spin_index[0] == 'u':
-                    self._l_sp_d *= -1
+                    self._l_sp_d = -1 * self._l_sp_d
                 elif self.spin_index[0] == 'd':
-                    self._r_sp_d *= -1
+                    self._r_sp_d = -1 * self._r_sp_d
                 else:
                     raise Exception("Spin index not understood.")
             self._sps_d_to_sps_u()
-- 
2.43.0

