From 2b2602dd8444812eaf96dc5f91868bd0986ac402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 01/49] fix: memoize returned values per solver instance

Memoized shared one result table over all instances of the class and left
out the model's energies when relative_energies was not passed, so rate
constants of another model (other temperature, rate algorithm...) or of
energies parsed before were returned.
---
 scaks/descriptors/descriptors.py | 38 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 694f7e0..dd7db14 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -2,6 +2,8 @@
 Definitions of attribute descriptors.
 """
 
+from functools import partial
+
 import numpy as np
 import copy
 
@@ -374,27 +376,39 @@ def make_hashable(var):
 
 class Memoized(object):
     """ Descriptor for returned value memoization.
+
+    .. note:: the returned values are memoized per instance.
     """
     def __init__(self, func):
         self.func = func
-        self.results = {}
+
+        # Name of the instance attribute in which results are stored.
+        self.cache_name = "_memoized_{}".format(func.__name__)
+
+        # If the result depends on the model's relative energies.
+        code = func.__code__
+        self.energy_related = "relative_energies" in code.co_varnames[: code.co_argcount]
 
     def __get__(self, instance, cls):
-        self.instance = instance
-        return self
+        if instance is None:
+            return self
 
-    def __call__(self, **kwargs):
-        # Make all arguments hashable.
-        key = make_hashable(kwargs)
+        return partial(self, instance)
 
+    def __call__(self, instance, **kwargs):
         # NOTE: if relative_energies is None, then we should
         #       search the model's relative energies.
-        if "relative_energies" in key and key["relative_energies"] is None:
-            key["relative_energies"] = make_hashable(self.instance._owner.relative_energies)
+        params = dict(kwargs)
+        if self.energy_related and params.get("relative_energies") is None:
+            params["relative_energies"] = instance._owner.relative_energies
+
+        # Make all arguments hashable.
+        key = make_hashable(params)
+        results = instance.__dict__.setdefault(self.cache_name, {})
 
         try:
-            return self.results[key]
+            return results[key]
         except KeyError:
-            self.results[key] = self.func(self.instance, **kwargs)
-            return self.results[key]
-
+            # Copy the key as the arguments may be changed in place later.
+            results[copy.deepcopy(key)] = value = self.func(instance, **kwargs)
+            return value
-- 
2.43.0


From 8e8aa81340525f51e3a2b21dc5b3cd3f9dc35d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 02/49] fix: do not share mutable attribute defaults between
 models

AttrDescriptor stored the very same default object in every instance, so
e.g. an analysis registered to one model was also run by all the others.
---
 scaks/descriptors/descriptors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index dd7db14..3f767cb 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -32,7 +32,8 @@ class AttrDescriptor(object):
     def __get__(self, instance, owner):
         private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
         if private_name not in instance.__dict__:
-            instance.__dict__[private_name] = self.default
+            # Never share a mutable default value between instances.
+            instance.__dict__[private_name] = copy.copy(self.default)
         if self.deepcopy:
             return copy.deepcopy(instance.__dict__[private_name])
         else:
-- 
2.43.0


From 52e97ef5afc9faf077741e2fa2236d6515e163fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 03/49] fix: keep derived products together in the analytical
 Jacobian

The derivative of a subtracted term containing both an adsorbate and its
free site is a sum, the minus was only applied to its first part.
---
 scaks/solvers/steady_state_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4433bab..c276be2 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -427,6 +427,10 @@ class SteadyStateSolver(MeanFieldSolver):
                                                                 term_expression)
                          for term_expression in terms]
 
+        # A derived product may be a sum, keep it together for the operators.
+        derived_terms = ["({})".format(term) if " + " in term else term
+                         for term in derived_terms]
+
         # Combine 2 lists.
         derived_poly_list = []
         for combination in zip(derived_terms, operators):
-- 
2.43.0


From 455afb8d6ecdfb25951fab46dd7e5f578da594f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 04/49] fix: count every occurrence of a species in rates and
 dtheta/dt

A species repeated in a state ('O_s + O_s') or on both sides of a reaction
was only counted at its first occurrence in dtheta/dt and its Jacobian.
---
 scaks/solvers/mean_field_solver.py   | 13 ++++++++++++-
 scaks/solvers/steady_state_solver.py | 27 ++++++++++++---------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 06f7137..d9a7797 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -331,9 +331,20 @@ class MeanFieldSolver(SolverBase):
             if direction == 'r':
                 rate_str = 'kr[' + str(idx) + ']'
 
+            # Merge the species appearing more than once.
+            stoichiometries = {}
+            for formula in formula_list:
+                species_name = formula.species_site()
+                stoichiometries[species_name] = (stoichiometries.get(species_name, 0) +
+                                                 formula.stoichiometry())
+
+            merged_species = set()
             for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
                 species_name = formula.species_site()
+                if species_name in merged_species:
+                    continue
+                merged_species.add(species_name)
+                stoichiometry = stoichiometries[species_name]
                 #get type of species
                 if '*' in species_name:
                     if stoichiometry == 1:
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index c276be2..4d10090 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -133,28 +133,25 @@ class SteadyStateSolver(MeanFieldSolver):
         rxn_equation = RxnEquation(rxn_expression)
         elementary_rxn_list = rxn_equation.to_formula_list()
 
-        # Find formula list index.
-        for formula_list in elementary_rxn_list:
+        # Net stoichiometry: number of produced minus number of consumed.
+        net_stoichiometry = 0
+        for sign, formula_list in [(-1, elementary_rxn_list[0]),
+                                   (1, elementary_rxn_list[-1])]:
             for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
-                current_species = formula.species_site()
-                if current_species == adsorbate_name:
-                    break
-
-            if current_species == adsorbate_name:
-                # Get state idx to get direction info.
-                state_idx = elementary_rxn_list.index(formula_list)
-                break
+                if formula.species_site() == adsorbate_name:
+                    net_stoichiometry += sign*formula.stoichiometry()
 
-        # If adsorbate name not in reaction, stop.
-        if current_species != adsorbate_name:
+        # If adsorbate is not changed in reaction, stop.
+        if net_stoichiometry == 0:
             return
 
+        stoichiometry = abs(net_stoichiometry)
+
         # Get rate expression of the elementary equation.
         f_expr, r_expr = self.get_elementary_rate_expression(rxn_expression)
 
         # Adsorbate is consumed
-        if state_idx == 0:
+        if net_stoichiometry < 0:
             if stoichiometry == 1:
                 increase_rate, decrease_rate = r_expr, f_expr
             else:
@@ -193,7 +190,7 @@ class SteadyStateSolver(MeanFieldSolver):
                 dtheta_dt_expression_list.append(single_dtheta_dt)
 
         # Join the expressions.
-        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list)
+        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list) or '0.0'
 
         return dtheta_dt_expression
         # }}}
-- 
2.43.0


From 3c9afdec6f48b6608f8dab90d2da0e620dd30607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 05/49] fix: let an adsorbate occupy all of its sites

An adsorbate on n sites ('X_2s') took only one free site away in the site
balance while its elementary reactions release n sites, so the number of
sites was not conserved.
---
 scaks/solvers/mean_field_solver.py   |  7 ++++---
 scaks/solvers/steady_state_solver.py | 14 ++++++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index d9a7797..b30c12c 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -149,7 +149,7 @@ class MeanFieldSolver(SolverBase):
             total_cvg = species_definitions[site_name]['total']
             sum_cvg = 0.0
             for sp in self._classified_adsorbates[site_name]:
-                sum_cvg += cvgs_dict[sp]
+                sum_cvg += ChemFormula(sp).nsite()*cvgs_dict[sp]
             free_site_cvg = total_cvg - sum_cvg
             cvgs_dict.setdefault(site_name, free_site_cvg)
 
@@ -656,8 +656,9 @@ class MeanFieldSolver(SolverBase):
             total = self._owner.species_definitions[site_name]['total']
             free_site_cvg = total
             for ads_name in self._classified_adsorbates[site_name]:
-                free_site_cvg -= self._extract_symbol(sp_name=ads_name,
-                                                      symbol_type='ads_cvg')
+                nsite = ChemFormula(ads_name).nsite()
+                free_site_cvg -= nsite*self._extract_symbol(sp_name=ads_name,
+                                                            symbol_type='ads_cvg')
             fsite_theta_sym.append(free_site_cvg)
         self._fsite_theta_sym = tuple(fsite_theta_sym)
 
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4d10090..d9632e3 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -60,7 +60,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         def constrain_in_total(cvgs_dict, max_cvg):
             "Make sure sum of cvgs in cvgs_dict is not larger than max_cvg"
-            total_cvg = sum(cvgs_dict.values())
+            total_cvg = sum(ChemFormula(sp).nsite()*cvg for sp, cvg in cvgs_dict.items())
             if total_cvg > max_cvg:
                 for key in cvgs_dict:
                     cvgs_dict[key] = cvgs_dict[key]/total_cvg*max_cvg
@@ -338,6 +338,10 @@ class SteadyStateSolver(MeanFieldSolver):
         site_cvg_expr = theta(site_name)
         site_total = self._owner.species_definitions[site_name]['total']
 
+        # An adsorbate occupying n sites takes n free sites away.
+        nsite = formula.nsite()
+        minus = '-' if nsite == 1 else '-{}*'.format(nsite)
+
         # Get derivation expression wrt free site.
         def deriv_site_part(site_name, term_expression):
             initial_expr = self.__term_adsorbate_derivation(site_name, term_expression)
@@ -347,7 +351,9 @@ class SteadyStateSolver(MeanFieldSolver):
                 # Get substitute expression.
                 substitute_expr = str(site_total)
                 for adsorbate_name in self._classified_adsorbates[site_name]:
-                    substitute_expr += ' - ' + theta(adsorbate_name)
+                    n = ChemFormula(adsorbate_name).nsite()
+                    coefficient = '' if n == 1 else '{}*'.format(n)
+                    substitute_expr += ' - ' + coefficient + theta(adsorbate_name)
                 substitute_expr = '(' + substitute_expr + ')'
 
                 # Do substitution
@@ -355,10 +361,10 @@ class SteadyStateSolver(MeanFieldSolver):
                 final_expr = re.sub(site_cvg_regex, substitute_expr, initial_expr)
 
                 # Add minus.
-                final_expr = "-" + final_expr
+                final_expr = minus + final_expr
             else:
                 # Just add a minus before expression.
-                final_expr = '-' + initial_expr
+                final_expr = minus + initial_expr
 
             return final_expr
 
-- 
2.43.0


From b8d3c595bd92e754016ce4d49722743af7f41243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 06/49] fix: allocate the symbolic Jacobian for any number of
 adsorbates

It always had two rows, so it failed for models without exactly two adsorbates.
---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index d9632e3..f3a11de 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -631,7 +631,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Allocate memories for jacobian matrix.
         m = n = len(dtheta_dt_syms)
-        sym_jacobian = [[0.0]*m, [0.0]*n]
+        sym_jacobian = [[0.0]*n for _ in range(m)]
 
         # dtheta/dt (row).
         for i in range(m):
@@ -661,7 +661,7 @@ class SteadyStateSolver(MeanFieldSolver):
         sym_jacobian = self.analytical_jacobian_sym()
 
         m = n = len(sym_jacobian)
-        num_jacobian = [[0.0]*m, [0.0]*n]
+        num_jacobian = [[0.0]*n for _ in range(m)]
 
         for i in range(m):
             for j in range(n):
-- 
2.43.0


From 68dbfc916e5769f6e7c15841192e7d8f5fff740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 07/49] fix: look up the concentration of each liquid in the
 symbol substitution

The tuple of all liquid names was used as key, so the symbolic calculations
of every model containing a liquid raised KeyError.
---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index b30c12c..74ea54a 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -1001,7 +1001,7 @@ class MeanFieldSolver(SolverBase):
         c_dict = {}
         liquid_names = self._owner.liquid_names
         for c_sym, liquid_name in zip(self._c_sym, liquid_names):
-            c_dict.setdefault(c_sym, self._c[liquid_names])
+            c_dict.setdefault(c_sym, self._c[liquid_name])
 
         return c_dict
 
-- 
2.43.0


From b66f0ac5ea0ae689a3ab1c20bf112231dd971b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 08/49] fix: log the LaTeX of dtheta/dt expressions

log_latex=True referred to an attribute which does not exist.
---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index f3a11de..dd4d6b5 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -599,7 +599,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Log it.
         if log_latex:
-            self.log_latex(self.dtheta_dt_latex)
+            self.log_latex(dtheta_dt_latexs)
 
         return dtheta_dt_syms
 
-- 
2.43.0


From c08a5c11566a54ffedbea22f03fbcdfbcfee31c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 09/49] fix: raise for invalid states, add formulas and count
 repeated species

ChemState.conserve() returned the error instead of raising it, adding two
formulas always raised TypeError and the species dict of a state kept the
last of repeated species only.
---
 scaks/parsers/rxn_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 16ff33f..d09c6db 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -173,8 +173,11 @@ class ChemState(object):
         """
         formula_list = self.tolist()
 
-        species_site_dict = {formula.species_site(): formula.stoichiometry()
-                             for formula in formula_list}
+        species_site_dict = {}
+        for formula in formula_list:
+            species_site = formula.species_site()
+            species_site_dict[species_site] = (species_site_dict.get(species_site, 0) +
+                                               formula.stoichiometry())
 
         return species_site_dict
 
@@ -234,7 +237,7 @@ class ChemState(object):
         # Check input parameter.
         if not isinstance(another, self.__class__):
             msg = "Parameter another must be instance of ChemState."
-            return ParameterError(msg)
+            raise ParameterError(msg)
 
         # Check elements.
         dict1 = self.get_elements_dict()
@@ -303,7 +306,7 @@ class ChemFormula(object):
     def __add__(self, formula_inst):
         """ Overload + operation function.
         """
-        chem_state = self.formula + ' + ' + formula_inst.formula
+        chem_state = self.formula() + ' + ' + formula_inst.formula()
         return ChemState(chem_state)
 
     def __split(self):
-- 
2.43.0


From c22af77adca9749bdaebe38e373d19ae9491729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 10/49] fix: set the given plotter in set_plotter

It referred to an undefined name and always raised NameError.
---
 scaks/models/kinetic_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index e6b7417..e700203 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -404,7 +404,7 @@ class KineticModel(object):
         :param plotter: Valid plotter object
         :type plotter: any
         '''
-        setattr(self, mangled_name(self, 'plotter'), solver)
+        setattr(self, mangled_name(self, 'plotter'), plotter)
 
     def set_corrector(self, corrector):
         ''' Set corrector for current model
-- 
2.43.0


From 236f2c6fcac8116f01a6d5d1630af63e1e970296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 11/49] fix: check the type of the corrector in set_corrector

A second definition without the check overrode the first one.
---
 scaks/models/kinetic_model.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index e700203..f3d72b2 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -406,14 +406,6 @@ class KineticModel(object):
         '''
         setattr(self, mangled_name(self, 'plotter'), plotter)
 
-    def set_corrector(self, corrector):
-        ''' Set corrector for current model
-
-        :param corrector: Valid corrector object
-        :type corrector: any
-        '''
-        setattr(self, mangled_name(self, 'corrector'), corrector)
-
     @Property
     def log_allowed(self):
         """
-- 
2.43.0


From 8b5a20fa41824b854a4f9498b772233e24eb91c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 12/49] fix: recognise two-letter element symbols in formulas

'Cl' was read as C and l, so conserved reactions such as
'Cl2_g + 2*_s -> 2Cl_s' were rejected.
---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index d09c6db..63d6fee 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -299,7 +299,7 @@ class ChemFormula(object):
         """
         self.__formula = formula
         self.__formula_regex = re.compile(r'(\d*)(([\w\*-]*)_(\d*)([a-zA-Z\*]+))')
-        self.__sp_regex = re.compile(r'([a-zA-Z\*])(\d*)')
+        self.__sp_regex = re.compile(r'([A-Z][a-z]?|[a-z\*])(\d*)')
 
         self.__split()
 
-- 
2.43.0


From 9f4f30d9f293546c97e0de4e2cf03d635a28012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 13/49] fix: keep the ConstrainedNewton line search in its own
 float types

numpy floats cannot be multiplied with mpmath matrices, so the iterator
always failed; scipy's golden() needs a float objective.
---
 scaks/solvers/rootfinding_iterators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 2199205..4df7f31 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -130,10 +130,10 @@ class ConstrainedNewton(RootfindingIterator):
 
             #use golden method to get optimal step size
             def fl(l):
-                x1 = self._matrix(x0) + l*s
+                x1 = self._matrix(x0) + self._mpfloat(l)*s
                 fx = self._matrix(f(tuple(x1)))
-                return norm(fx)
-            l = golden(fl)
+                return float(norm(fx))
+            l = self._mpfloat(golden(fl))
 #            print l
 #            l = mp.mpf('1.0')
             x1 = self._matrix(x0) + l*s  # matrix
-- 
2.43.0


From df063f2bc57ebbd430b52ced864122ed503cdff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 14/49] fix: log the rotational temperature warning with the
 corrector's logger

self.logger does not exist, so entropy_correction() raised AttributeError
for linear molecules at low temperature (e.g. H2 at 273 K).
---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 1218c6d..98f0502 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -216,7 +216,7 @@ class ThermodynamicCorrector(CorrectorBase):
                 if ratio >= 0.3:
                     msg_template = "T/theta = {:.3e} is larger than 0.3, big error may be expected"
                     msg = msg_template.format(ratio)
-                    self.logger.warning(msg)
+                    self.__logger.warning(msg)
         # Nonlinear molecule.
         elif len(thetas) == 3:
             product = reduce(lambda x, y: x*y, thetas)
-- 
2.43.0


From d98253392f375981e8052f6f28724e40d6b94477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 15/49] fix: correct energies for every molecule of a gas
 species

The formula including its stoichiometry ('2H2O_g') was looked up: no Shomate
parameters were found and the entropy of only one molecule was counted.
---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 98f0502..efb9683 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -300,7 +300,7 @@ class ThermodynamicCorrector(CorrectorBase):
         for formula_list in formula_lists:
             delta = 0.0
             for formula in formula_list:
-                delta += correct_func(formula.formula())
+                delta += formula.stoichiometry()*correct_func(formula.species_site())
             deltas.append(delta)
 
         self.__change_relative_energies(relative_energies, rxn_idx, deltas)
-- 
2.43.0


From 0cffbcf6b11257e862cf979c39d76f5fa18ff1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 16/49] fix: include the pressure of stoichiometric gases in
 rates

The formula including its stoichiometry ('2NO_g') was used to look up the
species definition (KeyError), and its pressure was counted only once.
---
 scaks/solvers/solver_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 60f8fe9..4084545 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -147,17 +147,18 @@ class SolverBase(ModelShell):
         # Include pressures.
         if include_pressure:
             rxn_equation = RxnEquation(rxn_expression)
-            f = lambda gas: self._owner.species_definitions[gas]["pressure"]
+            definitions = self._owner.species_definitions
+            f = lambda gas: definitions[gas.species_site()]["pressure"]**gas.stoichiometry()
 
             # Forward rate.
             adsorption_gases = rxn_equation.adsorption_gases()
-            pressures = [f(gas.formula()) for gas in adsorption_gases]
+            pressures = [f(gas) for gas in adsorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rf = p*rf
 
             # Reverse rate.
             desorption_gases = rxn_equation.desorption_gases()
-            pressures = [f(gas.formula()) for gas in desorption_gases]
+            pressures = [f(gas) for gas in desorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rr = p*rr
 
@@ -231,7 +232,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = is_types.index("gas")
             formula = istate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
             m = ParserBase.get_molecular_mass(formula.species(), absolute=True)
 
             if include_pressure:
@@ -285,7 +286,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = fs_types.index("gas")
             formula = fstate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
 
             if include_pressure:
                 p = P0*self._owner.species_definitions[gas_name]["pressure"]
-- 
2.43.0


From f5ba294438ac8389422f5a5a4494bed15709c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 17/49] fix: get the error of a good initial guess with the
 given energies

The residual was calculated with the model's energies even if other
relative energies were passed.
---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index dd4d6b5..6cd281a 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -816,7 +816,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     # Get error.
                     fx = self.steady_state_function(c0, relative_energies)  # dtheta/dts
                     norm = self._norm(fx)
-                    resid = self.get_residual(c0)
+                    resid = self.get_residual(c0, relative_energies)
                     error = min(norm, resid)
                     self._error = error
                     if self._owner.log_allowed:
-- 
2.43.0


From dbc60992bcc518a136b5e6de6b85806e036efd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 18/49] fix: reject roots with negative free site coverages

Only the coverages of adsorbates were checked, so roots whose coverages sum
up to more than the total number of sites were returned as steady states.
---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 6cd281a..3b87669 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -880,8 +880,8 @@ class SteadyStateSolver(MeanFieldSolver):
                     # Less than tolerance
                     if ((not reach_max_iter) and (error < self._owner.tolerance)):
                         if resid < self._owner.tolerance:
-                            # Check whether there is minus value in x
-                            for cvg in x:
+                            # Check whether there is minus value in x or free sites.
+                            for cvg in self._cvg_tuple2dict(x).values():
                                 if cvg < 0.0:
                                     lt_zero = True  # less than 0
                                     break
-- 
2.43.0


From 6fd3b48ef1b86cf30456db4230d9af9a1ca775a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 19/49] fix: finalize analysis plugins with the counter they
 were set up with

finalize() received the counter of the next initial guess, and was also
called without setup() if the initial guess was already converged.
---
 scaks/solvers/steady_state_solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 3b87669..9c9b29c 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -801,6 +801,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         converged = False  # Flag for convergence.
         while not cancel:  # outer loop
+            analysis_counter = None  # counter of the running analysis
             try:
             # {{{
                 # Good initial coverages.
@@ -864,6 +865,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     self.__logger.info('-'*60)
 
                 # Setup analysis plugins
+                analysis_counter = icvg_counter
                 for ap in self._owner.analysis:
                     ap.setup(self._owner, icvg_counter)
 
@@ -959,8 +961,10 @@ class SteadyStateSolver(MeanFieldSolver):
                     c0 = self._owner.hybrid_method(self._owner, icvg_counter)
                     icvg_counter += 1
             finally:
-                for ap in self._owner.analysis:
-                    ap.finalize(self._owner, icvg_counter)
+                # Only for the plugins set up for this initial guess.
+                if analysis_counter is not None:
+                    for ap in self._owner.analysis:
+                        ap.finalize(self._owner, analysis_counter)
 
         ##############    main loop end   #################
 
-- 
2.43.0


From 15e152b40005552ff04df618b4683cc1a85b359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 20/49] fix: set coverages and error after solving with fsolve

model.run(fsolve=True) raised AttributeError as the solver had no error.
---
 scaks/solvers/steady_state_solver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 9c9b29c..ba28911 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -760,7 +760,13 @@ class SteadyStateSolver(MeanFieldSolver):
         .. note::
             keys ":obj:`Gaf` and ":obj:`Gar` must be in relative energies dict
         '''
-        return self.coarse_steady_state_cvgs(c0, relative_energies)
+        cvgs = self.coarse_steady_state_cvgs(c0, relative_energies)
+
+        # Set converged coverages and error.
+        self._coverages = tuple(cvgs.tolist())
+        self._error = self.get_residual(self._coverages, relative_energies)
+
+        return cvgs
 
     def get_steady_state_cvgs(self, c0=None, single_pt=False, relative_energies=None):
         """ Function to get steady state coverages.
-- 
2.43.0


From e1af082014559f3d18f86129d9de3036d5209f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 21/49] fix: guess initial coverages with the hybrid method in
 run()

Without initial coverages the guess was announced but never made, so run()
failed in the coarse solution.
---
 scaks/models/micro_kinetic_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 1bf97a1..7a67034 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -233,6 +233,8 @@ class MicroKineticModel(KineticModel):
         else:
             if self.log_allowed:
                 self._logger.info('Use model\'s hybrid method to guess initial coverages')
+            if self.hybrid_method:
+                init_cvgs = self.hybrid_method(self, 0)
 
         # Solve steady state coverages.
         # Use scipy.optimize.fsolve or not (fast but low-precision).
-- 
2.43.0


From eee59e1e5824fedebd6572ebd4e70f47e0f89861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 22/49] fix: read the archived steady state coverages as
 initial guess

The key did not match the archived one, so archived coverages were never
used. Coverages of another mechanism are not used.
---
 scaks/models/micro_kinetic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 7a67034..701ad8b 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -217,8 +217,8 @@ class MicroKineticModel(KineticModel):
         elif os.path.exists(self.data_file):
             with open(self.data_file, 'rb') as f:
                 data = pickle.load(f)
-            init_guess = 'steady_state_coverage'
-            if init_guess in data:
+            init_guess = 'steady_state_coverages'
+            if len(data.get(init_guess, ())) == len(self.adsorbate_names):
                 if self.log_allowed:
                     msg = 'use coverages in {} as initial guess...'.format(self.data_file)
                     self._logger.info(msg)
-- 
2.43.0


From 6ef7f687766d540e5f3ee8e8db8f21c4b665002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 23/49] fix: keep the steady state when calculating the degree
 of rate control

get_single_XRC() left the coverages, error and archived data of the last
perturbed system in the solver.
---
 scaks/solvers/steady_state_solver.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index ba28911..d1ddae4 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1144,18 +1144,27 @@ class SteadyStateSolver(MeanFieldSolver):
 
             return XRCi
 
+        # The states of perturbed systems must not replace the converged one.
+        init_error = self._error
+        archived_data = dict(self._archived_data_dict)
+
         XRCs = [None]*n_rxns
-        for i in range(n_rxns):
-            if self._owner.log_allowed:
-                self.__logger.info("Calculating XRC for {} ...".format(rxn_expressions[i]))
+        try:
+            for i in range(n_rxns):
+                if self._owner.log_allowed:
+                    self.__logger.info("Calculating XRC for {} ...".format(rxn_expressions[i]))
 
-            # Get XRC for that elementary reaction.
-            XRC = get_XRCi(i)
-            XRCs[i] = XRC
+                # Get XRC for that elementary reaction.
+                XRC = get_XRCi(i)
+                XRCs[i] = XRC
 
-            # Ouput log info.
-            if self._owner.log_allowed:
-                self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
+                # Ouput log info.
+                if self._owner.log_allowed:
+                    self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
+        finally:
+            self._coverages, self._error = init_guess, init_error
+            for data_name, data in archived_data.items():
+                self.archive_data(data_name, data)
 
         # Ouput log info.
         self.__log_single_XRC(XRCs=XRCs, gas_name=gas_name)
-- 
2.43.0


From 1e368455140b515534cefe1144dcb6141e54e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 24/49] fix: split every element of a sequence over the
 processes

Elements at the end of a sequence were lost if its length is not a multiple
of the process number, and short sequences raised an error.
---
 scaks/mpicommons.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scaks/mpicommons.py b/scaks/mpicommons.py
index fe9f49d..01ddd9f 100644
--- a/scaks/mpicommons.py
+++ b/scaks/mpicommons.py
@@ -62,9 +62,10 @@ class MPIUtil(object):
         :param sequence: The data sequence to be divided for parallel processing
         :type sequence: list
         '''
-        starts = [i for i in range(0, len(sequence), len(sequence)//self.size)]
-        ends = starts[1: ] + [len(sequence)]
-        start, end = list(zip(starts, ends))[self.rank]
+        # The first processes hold one more element if it can not be divided evenly.
+        quotient, residual = divmod(len(sequence), self.size)
+        start = self.rank*quotient + min(self.rank, residual)
+        end = start + quotient + (1 if self.rank < residual else 0)
 
         return sequence[start: end]
 
-- 
2.43.0


From 210017eabeb20a4022c2d4ca2d0d876b1470be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 25/49] fix: inherit the methods of user defined analysis
 classes

Methods not overridden in a subclass of a user's analysis were replaced
with empty ones.
---
 scaks/plugins/metaclasses.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scaks/plugins/metaclasses.py b/scaks/plugins/metaclasses.py
index 35d470f..4ebe27c 100644
--- a/scaks/plugins/metaclasses.py
+++ b/scaks/plugins/metaclasses.py
@@ -13,13 +13,16 @@ class AnalysisMeta(type):
             if type(interval) is not int or interval <= 0:
                 raise TypeError('analysis interval must be a positive integer')
 
+        # Methods of user's analysis classes are inherited.
+        inherited = any(isinstance(c, cls) for base in bases for c in base.__mro__[1:])
+
         for method_name in ['setup', 'register_step', 'finalize']:
             method = attrs.get(method_name, None)
             if method is not None and not callable(method):
                 msg = "{} must be a callable object".format(method)
                 raise AttributeError(msg)
-            # Set default interface methods.
-            elif method is None:
+            # Set default interface methods if there is nothing to inherit.
+            elif method is None and not inherited:
                 if method_name == 'setup':
                     attrs[method_name] = lambda self, model, outer_counter: None
                 elif method_name == 'register_step':
-- 
2.43.0


From abf0dca8e88c8b7b86f1d0db40c50bf841f97586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 26/49] fix: quote the possible types in the coverages file
 once

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index eff44ab..913df92 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -97,8 +97,7 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
             times_str = "times = []\n"
             steps_str = "steps = []\n"
             coverages_str = "coverages = {}\n".format([[]]*len(self.__possible_types))
-            possible_types_update = [f"'{string}'" for string in self.__possible_types]
-            possible_types_str = get_list_string("possible_types", possible_types_update)
+            possible_types_str = get_list_string("possible_types", self.__possible_types)
             with open(self.__filename, "w") as f:
                 content = (file_header + times_str + steps_str +
                            coverages_str + "\n" + possible_types_str)
-- 
2.43.0


From 2e4f084fc4d5e1fb7e99ad899de754d182a0b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 27/49] fix: do not flush empty coverages to the coverages file

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index 913df92..4996122 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -137,7 +137,8 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
         """
         if mpi.is_master:
             # Write to file.
-            self.__flush()
+            if len(self.__coverages) > 0:
+                self.__flush()
 
             # Info output.
             msg = "coverages informations are written to {}".format(self.__filename)
-- 
2.43.0


From 4be718176e0a8494e6a56012e64e249917c88c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 28/49] fix: map the reverse reaction of redistribution
 processes only if it exists

---
 scaks/solvers/kmc_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 81d0552..0f2af98 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -209,7 +209,7 @@ class KMCSolver(SolverBase):
                     processes.append(rprocess)
 
                 # Add process reaction mapping.
-                if not fast:
+                if not fast and not redist:
                     process_mapping = "{}(<-)".format(process_dict["reaction"])
                     self.__process_mapping.append(process_mapping)
 
-- 
2.43.0


From 1a442d9e1b993f21120e6c6e62499abd8c81521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 29/49] fix: do not repeat the process mapping when getting
 processes again

---
 scaks/solvers/kmc_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 0f2af98..3002247 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -109,6 +109,7 @@ class KMCSolver(SolverBase):
 
     def get_processes(self):
         all_processes = []
+        self.__process_mapping = []
         process_dicts = self._owner.process_dicts
         for process_dict in process_dicts:
             processes = self.__get_single_process(process_dict)
-- 
2.43.0


From 562411abfadc096ae340e6ac249c7db4d2686a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 30/49] fix: measure the first TOF interval from the start of
 the simulation

---
 scaks/solvers/kmc_plugins/tof_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index ec2e687..c18c655 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -73,6 +73,9 @@ class TOFAnalysis(KMCAnalysisPlugin):
         # }}}
 
     def setup(self, step, time, configuration, interactions):
+        # The first interval starts with the simulation.
+        self.__start_time = time
+
         # Create statistic data file.
         variables_str = ("times = []\ntofs = []\n")
         process_mapping = self.__kmc_model.process_mapping
-- 
2.43.0


From 565a65f6cf66cb5e7ee3952d6cc9b9c3a5a13cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 31/49] fix: write the frequency file if there is no time span
 for rates

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index c67f300..89e24c1 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -126,7 +126,7 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Calculate rates.
         reaction_rates = {}
         for reaction, occurency in steady_reaction_occurencies.items():
-            rate = occurency/(delta_t*nsites)
+            rate = occurency/(delta_t*nsites) if delta_t > 0.0 else 0.0
             reaction_rates.setdefault(reaction, rate)
         reaction_rates_str = get_dict_string("reaction_rates", reaction_rates)
 
-- 
2.43.0


From d3caa978d38e4027b20f075d093dd289222d4790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 32/49] fix: get the total reaction from the exact null space

---
 scaks/parsers/parser_base.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/scaks/parsers/parser_base.py b/scaks/parsers/parser_base.py
index 9028a4c..b5084f1 100644
--- a/scaks/parsers/parser_base.py
+++ b/scaks/parsers/parser_base.py
@@ -3,6 +3,7 @@ import re
 import logging
 
 import numpy as np
+import sympy as sym
 
 from ..descriptors.descriptors import *
 from .. import ModelShell
@@ -188,27 +189,20 @@ class ParserBase(ModelShell):
         # {{{
         site_matrix, reapro_matrix = self.get_stoichiometry_matrices()
 
-        # Helper function to get null space of transposition of site_matrix.
-        def null(A, eps=1e-10):
-            u, s, vh = np.linalg.svd(A, full_matrices=1, compute_uv=1)
-            null_space = np.compress(s <= eps, vh, axis=0)
-            return null_space.T
-
-        x = null(site_matrix.T)  # basis of null space
-        if not x.any():  # x is not empty
+        # Exact null space of the transposition of site_matrix.
+        basis = sym.Matrix(site_matrix.T.astype(int).tolist()).nullspace()
+        if not basis:
             raise ValueError('Failed to get basis of nullspace.')
 
-        x = [abs(i) for i in x.T.tolist()[0]]
-        #convert entries of x to integer
-        min_x = min(x)
-        x = [round(i/min_x, 1) for i in x]
-        x = np.matrix(x)
-        total_coefficients = (x*reapro_matrix).tolist()[0]
+        # The elementary reactions go forward as a whole.
+        x = basis[0] if sum(basis[0]) >= 0 else -basis[0]
+        total_coefficients = sym.Matrix(reapro_matrix.T.astype(int).tolist())*x
+        if not any(total_coefficients):
+            raise ValueError('There is no total reaction for the elementary reactions.')
 
-        # cope with small differences between coeffs
-        abs_total_coefficients = list(map(abs, total_coefficients))
-        min_coeff = min(abs_total_coefficients)
-        total_coefficients = [int(i/min_coeff) for i in total_coefficients]
+        # convert coefficients to the smallest integers
+        total_coefficients *= sym.ilcm(1, *[c.q for c in total_coefficients])
+        total_coefficients = list(total_coefficients/sym.igcd(0, *total_coefficients))
 
         # create total rxn expression
         reactants_list, products_list = [], []
@@ -216,6 +210,8 @@ class ParserBase(ModelShell):
         for sp_name in reapro_names:
             idx = reapro_names.index(sp_name)
             coefficient = total_coefficients[idx]
+            if coefficient == 0:  # neither consumed nor produced
+                continue
             if coefficient < 0:  # for products
                 coefficient = abs(int(coefficient))
                 if coefficient == 1:
-- 
2.43.0


From 7f2577ee80314faa6b5f2f71a90b5fbf5f303e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 33/49] fix: get the numerical Jacobian from mpmath's column
 vectors

---
 scaks/solvers/mean_field_solver.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 74ea54a..469f397 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -599,7 +599,6 @@ class MeanFieldSolver(SolverBase):
         diverging residual.
         """
         x = self._matrix(x)
-        x = self._matrix(x).reshape(-1, 1)
         fx = self._matrix(f(x))
         m = len(fx)
         n = len(x)
-- 
2.43.0


From 78fcf70954b8fcc1039f7b09e366eb8a1ef12c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 34/49] fix: constrain the initial guess given by the hybrid
 method

A coverage slightly below zero from the ODE integration was accepted as a
good initial guess, i.e. as the steady state.
---
 scaks/solvers/steady_state_solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index d1ddae4..8c05c90 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -953,7 +953,8 @@ class SteadyStateSolver(MeanFieldSolver):
                         self.__logger.warning(msg)
                         break
                     else:
-                        c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                        c0 = self.__constrain_coverages(self._owner.hybrid_method(self._owner,
+                                                                                 icvg_counter))
                         icvg_counter += 1
             # }}}
             except ZeroDivisionError:
@@ -964,7 +965,8 @@ class SteadyStateSolver(MeanFieldSolver):
                     self.__logger.warning(msg)
                     break
                 else:
-                    c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                    c0 = self.__constrain_coverages(self._owner.hybrid_method(self._owner,
+                                                                             icvg_counter))
                     icvg_counter += 1
             finally:
                 # Only for the plugins set up for this initial guess.
-- 
2.43.0


From 921307d159a64801131a6d339e4ee6a477279816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 35/49] fix: report the ODE progress relative to the integrated
 time span

An integration ending at time zero raised ZeroDivisionError.
---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 8c05c90..08bf62c 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1325,7 +1325,7 @@ class SteadyStateSolver(MeanFieldSolver):
                 if (self._owner.log_allowed and
                         nstep % self._owner.ode_output_interval == 0):
                     msg = "{:10.2f}%{:20f}" + "{:20.8e}"*nads
-                    msg = msg.format(r.t/t_end*100, r.t, *r.y)
+                    msg = msg.format((r.t - t_start)/(t_end - t_start)*100, r.t, *r.y)
                     self.__logger.info(msg)
 
                 # Flush time coverages to file.
-- 
2.43.0


From 1764d4ec4d0096a0b2799031dc42c0220ae6bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 36/49] fix: translate coordinate groups without coordinates

---
 scaks/utilities/coordinate_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index efb1581..2d654a6 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -103,7 +103,7 @@ class CoordsGroup(object):
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-        ori_coords = np.array(self.__coords)
+        ori_coords = np.array(self.__coords).reshape(-1, 3)
         new_coords = (ori_coords + move_vector).tolist()
 
         return CoordsGroup(new_coords, copy.copy(self.__elements))
-- 
2.43.0


From d87cb80946501a316161b6c4acb191fc88e4d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 37/49] fix: draw energy profiles of reactions whose barrier
 equals their reaction energy

plot_all stopped with an error for an endothermic reaction without transition
state (its barrier is its reaction energy) and for a two-state reaction with
an explicit barrier.
---
 scaks/plotters/energy_profile_plotter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scaks/plotters/energy_profile_plotter.py b/scaks/plotters/energy_profile_plotter.py
index 849ba67..a35d387 100644
--- a/scaks/plotters/energy_profile_plotter.py
+++ b/scaks/plotters/energy_profile_plotter.py
@@ -59,9 +59,14 @@ class EnergyProfilePlotter(PlotterBase):
         for idx, (rxn, Ga, dG) in enumerate(zip(self._owner.rxn_expressions,
                                                 self._owner.relative_energies['Gaf'],
                                                 self._owner.relative_energies['dG'])):
-            energies = [0.0, dG] if abs(Ga) < 1e-5 else [0.0, Ga, dG]
+            # No peak if the barrier does not exceed the higher end.
+            has_barrier = abs(Ga - max(0.0, dG)) >= 1e-5
+            energies = [0.0, Ga, dG] if has_barrier else [0.0, dG]
+            # The equation must have as many states as the profile.
+            nstate = len(RxnEquation(rxn).tolist())
+            equation = rxn if nstate == len(energies) else None
             canvas = EPCanvas()
-            canvas.add_line(ElementaryLine(energies, rxn_equation=rxn, **kwargs))
+            canvas.add_line(ElementaryLine(energies, rxn_equation=equation, **kwargs))
             canvas.draw()
             image_name = 'energy_profile/{}_{}.png'.format(idx, rxn)
             canvas.figure.savefig(image_name)
-- 
2.43.0


From e34fec6a9ec062ecbfb2b780445d4e0c02ddffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 38/49] fix: create the log and data directories before any
 process uses them

---
 scaks/models/kinetic_model.py       | 3 ++-
 scaks/models/micro_kinetic_model.py | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index f3d72b2..da8f4bb 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -193,9 +193,10 @@ class KineticModel(object):
             if 1 == mpi.size:
                 filename = "out.log"
             else:
-                mpi.barrier()
                 if not os.path.exists("./log") and mpi.is_master:
                     os.mkdir("./log")
+                # The directory must exist before any process writes to it.
+                mpi.barrier()
                 filename = "./log/out_{}.log".format(mpi.rank)
 
         # Create handlers.
diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 701ad8b..3b7b0e2 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -127,10 +127,11 @@ class MicroKineticModel(KineticModel):
         super(MicroKineticModel, self).__init__(**kwargs)
 
         # Create data directory if need.
-        if mpi.size != 1 and not os.path.exists("./data"):
-            mpi.barrier()
-            if mpi.is_master:
+        if mpi.size != 1:
+            if mpi.is_master and not os.path.exists("./data"):
                 os.mkdir("./data")
+            # The directory must exist before any process writes to it.
+            mpi.barrier()
 
         # Model attributes definitions.
         self.__ss_cvgs = None          # steady-state coverages
-- 
2.43.0


From a245a1c31dd6cf9bf134228871e64e77c9fadc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 39/49] fix: create the frequency and TOF files in the master
 process only

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 7 ++++---
 scaks/solvers/kmc_plugins/tof_analysis.py       | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index 89e24c1..9fdfa37 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -63,9 +63,10 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Create statistic data file.
         variables_str = ("times = []\npicked_indices = []\n" +
                          "process_occurencies = []\n")
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Append picked index.
diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index c18c655..ff1892b 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -81,9 +81,10 @@ class TOFAnalysis(KMCAnalysisPlugin):
         process_mapping = self.__kmc_model.process_mapping
         process_mapping_str = get_list_string("processes", process_mapping, 1)
 
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str + process_mapping_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str + process_mapping_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Get picked process index.
-- 
2.43.0


From df938240ad95d8cbeec726e4fa5bebe40ebc16c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 40/49] fix: require both forward and reverse barriers in given
 relative energies

---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 469f397..1d3993b 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -213,7 +213,7 @@ class MeanFieldSolver(SolverBase):
                 raise AttributeError(msg)
 
         # Check input parameter.
-        if "Gaf" and "Gar" not in relative_energies:
+        if "Gaf" not in relative_energies or "Gar" not in relative_energies:
             msg = "'Gaf' and 'Gar' must be in relative_energies."
             raise ParameterError(msg)
 
-- 
2.43.0


From c45a1c4cde04751ec2f2aef17cc9fd34806db6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 41/49] fix: return the good initial guess

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 08bf62c..48fd301 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1406,4 +1406,4 @@ class SteadyStateSolver(MeanFieldSolver):
     def good_guess(self):
         """ Query function for good initial coverages.
         """
-        self._good_guess
+        return self._good_guess
-- 
2.43.0


From db398aada61ed93244e5d97f005c6b8d676b6a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:53 +0000
Subject: [PATCH 42/49] fix: refuse formulas and reactions that are only partly
 understood

---
 scaks/parsers/rxn_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 63d6fee..b9547fd 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -30,8 +30,12 @@ class RxnEquation(object):
         :rtype: :obj:`list` of :obj:`rxn_equation.ChemState`
         """
         states_regex = re.compile(r'([^\<\>]*)(?:\<?\-\>)' +
-                                  r'(?:([^\<\>]*)(?:\<?\-\>))?([^\<\>]*)')
-        m = states_regex.search(self.__rxn_equation)
+                                  r'(?:([^\<\>]*)(?:\<?\-\>))?([^\<\>]*)\Z')
+        # The whole text must be a reaction.
+        m = states_regex.match(self.__rxn_equation)
+        if not m:
+            msg = 'Unexpected reaction expression: {}'.format(self.__rxn_equation)
+            raise ValueError(msg)
         state_list = []
         for idx in range(1, 4):
             if m.group(idx):
@@ -298,7 +302,7 @@ class ChemFormula(object):
         Constructor.
         """
         self.__formula = formula
-        self.__formula_regex = re.compile(r'(\d*)(([\w\*-]*)_(\d*)([a-zA-Z\*]+))')
+        self.__formula_regex = re.compile(r'(\d*)(([\w\*-]*)_(\d*)([a-zA-Z\*]+))\Z')
         self.__sp_regex = re.compile(r'([A-Z][a-z]?|[a-z\*])(\d*)')
 
         self.__split()
@@ -314,7 +318,8 @@ class ChemFormula(object):
         Private helper function to split whole formual to
         stoichiometry, species name, site number, site name.
         """
-        m = self.__formula_regex.search(self.__formula)
+        # The whole text must be a formula.
+        m = self.__formula_regex.match(self.__formula.strip())
         if not m:
             msg = 'Unexpected chemical formula: {}'.format(self.__formula)
             raise ChemFormulaError(msg)
-- 
2.43.0


From 75e17870e6eaf5b380db22bd3d8a99f29476d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 43/49] fix: write the ODE trajectory of each MPI process to
 its own file

---
 scaks/solvers/steady_state_solver.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 48fd301..b6b51f0 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -10,6 +10,7 @@ from scipy.optimize import fsolve
 from .. import file_header
 from ..descriptors.descriptors import Memoized, Property
 from ..errors.error import *
+from ..mpicommons import mpi
 from ..utilities.format_utilities import get_list_string
 from ..parsers.rxn_parser import *
 from .rootfinding_iterators import *
@@ -1304,7 +1305,7 @@ class SteadyStateSolver(MeanFieldSolver):
             # Write file header.
             if traj_output:
                 flush_counter = 0
-                with open("auto_ode_coverages.py", "w") as f:
+                with open(self.__ode_filename(), "w") as f:
                     time_str = "times = []\n\n"
                     coverages_str = "coverages = []\n\n"
                     f.write(file_header + time_str + coverages_str)
@@ -1349,11 +1350,20 @@ class SteadyStateSolver(MeanFieldSolver):
 
             if self._owner.log_allowed:
                 self.__logger.info('ODE integration trajectory is written' +
-                                   ' to auto_ode_coverages.py.')
+                                   ' to {}.'.format(self.__ode_filename()))
 
         return last_time, last_coverages
         # }}}
 
+    def __ode_filename(self):
+        """
+        Private helper function to get the name of the ode trajectory file,
+        each MPI process has its own one.
+        """
+        if 1 == mpi.size:
+            return "auto_ode_coverages.py"
+        return "./data/auto_ode_coverages_{}.py".format(mpi.rank)
+
     def __ode_flush(self, flush_counter, times, coverages):
         """
         Private helper function to flush ode intergration data to file.
@@ -1377,7 +1387,7 @@ class SteadyStateSolver(MeanFieldSolver):
         content = comment + times_str + coverages_str
 
         # Flush to file.
-        with open("auto_ode_coverages.py", "a") as f:
+        with open(self.__ode_filename(), "a") as f:
             f.write(content)
 
         # Free buffer.
-- 
2.43.0


From 373a2bcd849ad6b2a808688d4abfb03a0d1a932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 44/49] fix: let several processes create the energy profile
 directory

---
 scaks/plotters/energy_profile_plotter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaks/plotters/energy_profile_plotter.py b/scaks/plotters/energy_profile_plotter.py
index a35d387..0e30ded 100644
--- a/scaks/plotters/energy_profile_plotter.py
+++ b/scaks/plotters/energy_profile_plotter.py
@@ -53,8 +53,12 @@ class EnergyProfilePlotter(PlotterBase):
         :param shadow_depth: shadow depth of the line, default is 0, no shadow.
         :type shadow_depth: int
         '''
-        if not os.path.exists('energy_profile'):
+        try:
             os.mkdir('energy_profile')
+        except OSError:
+            # It may have been created by another process meanwhile.
+            if not os.path.isdir('energy_profile'):
+                raise
 
         for idx, (rxn, Ga, dG) in enumerate(zip(self._owner.rxn_expressions,
                                                 self._owner.relative_energies['Gaf'],
-- 
2.43.0


From a9c01653d609f41679c17ec21a35c8d6c55f1519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 45/49] fix: let the definitions in an input file see each
 other

The setup, energy and kMC files were executed with separate global and
local namespaces, so a function or a comprehension in them could not use
the names and imports of the file itself (NameError).
---
 scaks/models/kinetic_model.py           |  6 ++++--
 scaks/parsers/absolute_energy_parser.py |  4 ++--
 scaks/parsers/kmc_parser.py             | 12 ++++++------
 scaks/parsers/relative_energy_parser.py |  4 ++--
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index da8f4bb..fa413d6 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -154,8 +154,10 @@ class KineticModel(object):
             self.setup_dict = setup_dict
         else:
             self.setup_file = setup_file
-            globs, locs = {}, {}
-            exec(open(self.setup_file, "rb").read(), globs, locs)
+            # A single namespace, as in a script.
+            locs = {}
+            exec(open(self.setup_file, "rb").read(), locs)
+            locs.pop("__builtins__", None)
             self.setup_dict = locs
 
         # Set logger.
diff --git a/scaks/parsers/absolute_energy_parser.py b/scaks/parsers/absolute_energy_parser.py
index 32e81e5..4da2fe4 100644
--- a/scaks/parsers/absolute_energy_parser.py
+++ b/scaks/parsers/absolute_energy_parser.py
@@ -27,8 +27,8 @@ class AbsoluteEnergyParser(ParserBase):
 
         :return: :obj:`None`
         """
-        globs, locs = {}, {}
-        exec(open(filename, "rb").read(), globs, locs)
+        locs = {}
+        exec(open(filename, "rb").read(), locs)
 
         self._owner._absolute_energies = locs["absolute_energies"]
 
diff --git a/scaks/parsers/kmc_parser.py b/scaks/parsers/kmc_parser.py
index 5c82707..09c3456 100644
--- a/scaks/parsers/kmc_parser.py
+++ b/scaks/parsers/kmc_parser.py
@@ -102,8 +102,8 @@ class KMCParser(RelativeEnergyParser):
         if not os.path.exists(filename):
             site_types = init_default_types()
         else:
-            globs, locs = {}, {}
-            exec(open(filename, "rb").read(), globs, locs)
+            locs = {}
+            exec(open(filename, "rb").read(), locs)
 
             if "site_types" not in locs:
                 site_types = init_default_types()
@@ -184,8 +184,8 @@ class KMCParser(RelativeEnergyParser):
 
         # Use data in file.
         if os.path.exists(filename):
-            globs, locs = {}, {}
-            exec(open(filename, "rb").read(), globs, locs)
+            locs = {}
+            exec(open(filename, "rb").read(), locs)
             if "types" in locs:
                 types = locs["types"]
             else:
@@ -218,8 +218,8 @@ class KMCParser(RelativeEnergyParser):
         if filename is None:
             filename = "kmc_processes.py"
 
-        globs, locs = {}, {}
-        exec(open(filename, "rb").read(), globs, locs)
+        locs = {}
+        exec(open(filename, "rb").read(), locs)
 
         # Get all possible process objects.
         if self._owner.log_allowed:
diff --git a/scaks/parsers/relative_energy_parser.py b/scaks/parsers/relative_energy_parser.py
index 376fbe0..3a105a9 100644
--- a/scaks/parsers/relative_energy_parser.py
+++ b/scaks/parsers/relative_energy_parser.py
@@ -81,8 +81,8 @@ class RelativeEnergyParser(ParserBase):
         # {{{
         # Read relative energy data file.
         if os.path.exists(filename):
-            globs, energy_data = {}, {}
-            exec(open(filename, "rb").read(), globs, energy_data)
+            energy_data = {}
+            exec(open(filename, "rb").read(), energy_data)
         elif energy_data is None:
             raise IOError("{} is not found.".format(filename))
 
-- 
2.43.0


From 891555afb31c1bfff7317fd5446370384234e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 46/49] fix: read coverage powers of ten and more in the
 analytical Jacobian

Only the first digit of the power was read, so the derivative of
theta**12 was that of theta.
---
 scaks/solvers/steady_state_solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index b6b51f0..a3b5851 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -263,12 +263,12 @@ class SteadyStateSolver(MeanFieldSolver):
         if '*' in adsorbate_name:
             adsorbate_name = '\\' + adsorbate_name
 
-        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
         #r"(.*)\*(theta\['CO_s'\])(\*\*(\d)|)(\*(.*)|)"
         ###########################################################
         # group(1) -> ((.*)\*|), group(2) -> (.*)                 #
         # group(3) -> (theta\['"+adsorbate_name+"'\])             #
-        # group(4) -> (\*{2}(\d)|), group(5) -> \*{2}(\d) or None #
+        # group(4) -> (\*{2}(\d+)|), group(5) -> (\d+) or None   #
         # group(6) -> (\*(.*)|), group(7) -> (.*) or None         #
         ###########################################################
 
@@ -376,7 +376,7 @@ class SteadyStateSolver(MeanFieldSolver):
         # If contains both.
         if (site_name in sites_list) and (theta(adsorbate_name) in term_expression):
             #split two parts
-            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
             if m.group(6):
                 site_part = m.group(1) + '*' + m.group(6)
-- 
2.43.0


From 2b368a08e1c3fb168adc1579dbba9e1a2097a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 47/49] fix: accept relative energies without reaction energies

Only Gaf and Gar are required by get_rate_constants() and run(), but the
rates could not be calculated without dG (KeyError).
---
 scaks/solvers/solver_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 4084545..1acf4c8 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -354,7 +354,11 @@ class SolverBase(ModelShell):
 
         Gaf = relative_energies["Gaf"][idx]
         Gar = relative_energies["Gar"][idx]
-        dG = relative_energies["dG"][idx]
+        # Only the barriers are required.
+        if "dG" in relative_energies:
+            dG = relative_energies["dG"][idx]
+        else:
+            dG = Gaf - Gar
 
         return Gaf, Gar, dG
 
-- 
2.43.0


From 24bccf92979acbd856eb15f35ee127eb6eddd52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 48/49] fix: the lattice run script starts under Python 3

---
 scripts/kmc_run/run.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/kmc_run/run.py b/scripts/kmc_run/run.py
index 5e20dcf..266fd12 100644
--- a/scripts/kmc_run/run.py
+++ b/scripts/kmc_run/run.py
@@ -2,23 +2,24 @@
 Script to run scaks kMC simulation.
 """
 
-import commands
 import logging
+import sys
 import time
 
+from scaks.compatutil import subprocess
 from scaks.mpicommons import mpi
 from scaks.models.kmc_model import KMCModel
 from scaks.utilities.format_utilities import convert_time
 
 if "__main__" == __name__:
     # Remove old log file.
-    commands.getstatusoutput("rm -rm out.log auto_*")
+    subprocess.getstatusoutput("rm -rm out.log auto_*")
 
     # Set logger.
     logger = logging.getLogger("model.KMCModelRun")
 
     # Get setup file.
-    status, output= commands.getstatusoutput("ls *.mkm | tail -1")
+    status, output= subprocess.getstatusoutput("ls *.mkm | tail -1")
     if status:
         if mpi.is_master:
             logger.error(output)
-- 
2.43.0


From 42531ec1e936ba4d27f3c27ee07deffc013db025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:52 +0000
Subject: [PATCH 49/49] fix: a continued lattice run starts at the recorded
 time and keeps the rest of its setup

---
 scripts/kmc_run/change_start_time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/kmc_run/change_start_time.py b/scripts/kmc_run/change_start_time.py
index c070a9d..deda007 100644
--- a/scripts/kmc_run/change_start_time.py
+++ b/scripts/kmc_run/change_start_time.py
@@ -13,11 +13,11 @@ with open("pt-100.mkm", "r") as f:
 found = False
 for idx, line in enumerate(content):
     if line.startswith("start_time"):
-        content[idx] = "start_time = {}".format(start_time)
+        content[idx] = "start_time = {}\n".format(start_time)
         found = True
 
 if not found:
-    content.append('start_time = 0.0\n')
+    content.append('\nstart_time = {}\n'.format(start_time))
 
 with open("pt-100.mkm", "w") as f:
     f.writelines(content)
-- 
2.43.0

