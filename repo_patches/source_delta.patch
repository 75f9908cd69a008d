From 73c04e9d2327aa606daf858cef5a6e1d011291a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:20 +0000
Subject: [PATCH 01/22] fix: term substitution evaluates the constraint
 polynomials at the test point

evaluate() threw away the value of evaluate_poly() and compared the builtin
sum with zero instead, so ts() answered without looking at the polynomials.
---
 vts/uni_vts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index f108d38..fc1cba9 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -777,7 +777,7 @@ def evaluate(point, le, lt, eq, ne):
       
   for (poly, strategy) in r_str:
     #print "  poly: %s" %poly
-    evaluate_poly(poly, point)
+    sum = evaluate_poly(poly, point)
     #print "  term values: %s" %map(lambda (c, p): c*point**p, terms)
     #print "  sum: %s" %sum
     if not strategy.condition(sum):
-- 
2.43.0


From 9b070bb7764301f3b2ace316cfea695236e478ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:57 +0000
Subject: [PATCH 02/22] fix: decide constraints on the zero polynomial

convert() returned [0] for a symbolic zero (or failed on terms that cancel)
where its documentation says [], and the solvers asked for the roots and the
leading coefficient of the zero polynomial.
---
 vts/isym.py    |  6 ++++--
 vts/uni_vts.py | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/vts/isym.py b/vts/isym.py
index a23f4d4..216b89b 100644
--- a/vts/isym.py
+++ b/vts/isym.py
@@ -19,12 +19,14 @@ def convert(poly):
       return []
     return [poly]
 
+  poly = poly.expand()
+  if poly == 0:
+    return []
+
   symbols = poly.free_symbols
   if len(symbols) == 0:
     return convert_rationals_to_ints([poly])
 
-  poly = poly.expand()
-
   if len(symbols) > 1:
     raise Exception("more than one symbol")
   x = symbols.pop()
diff --git a/vts/uni_vts.py b/vts/uni_vts.py
index fc1cba9..9133a43 100644
--- a/vts/uni_vts.py
+++ b/vts/uni_vts.py
@@ -49,6 +49,10 @@ def internal_ts(eq, lt):
     print e
   return False
 
+def nonzero(polies):
+  """The zero polynomial ([]) has no isolated roots to substitute"""
+  return filter(lambda poly: poly != [], polies)
+
 def internal_ts(le, lt, eq, ne):
   """Determines the satisfiability of constraints by calculating polynomials on 
   points on all possible (solutions set) intervals
@@ -63,7 +67,7 @@ def internal_ts(le, lt, eq, ne):
   """
   
   # iterate over all points that might be end points of closed intervals
-  for equality in (eq + le):
+  for equality in nonzero(eq + le):
     roots = z3rcf.MkRoots(equality)
     for root in roots:
       try:
@@ -76,7 +80,7 @@ def internal_ts(le, lt, eq, ne):
   eps = z3rcf.MkInfinitesimal('eps')
   
   #iterate over all lower bounds of open intervals
-  for less_than in lt + ne:
+  for less_than in nonzero(lt + ne):
     roots = z3rcf.MkRoots(less_than)
     for root in roots:
       try:
@@ -101,7 +105,7 @@ def internal_vts(le, lt, eq, ne):
   all_polies = (le + lt + eq + ne)
   # print "internal"
 
-  for exact_poly in (le + eq):
+  for exact_poly in nonzero(le + eq):
     # print "exact_poly: %s" %exact_poly
     roots = z3rcf.MkRoots(exact_poly)
     droots = get_discri_der_signs(roots, exact_poly)
@@ -115,7 +119,7 @@ def internal_vts(le, lt, eq, ne):
       if formula_value:
         return True
     
-  for e_close_poly in lt + ne:
+  for e_close_poly in nonzero(lt + ne):
     roots = z3rcf.MkRoots(e_close_poly)
     droots = get_discri_der_signs(roots, e_close_poly)
     map(lambda d: d.set_origin_poly(e_close_poly), droots)
@@ -132,7 +136,9 @@ def internal_vts(le, lt, eq, ne):
     # print poly
     # print sign
     # print sign_lookup[make_poly_hashabel(poly)]
-    sign = sign_func(poly[-1] * (-1)**((len(poly) - 1)%2))
+    sign = 0
+    if poly != []:
+      sign = sign_func(poly[-1] * (-1)**((len(poly) - 1)%2))
     if not sign in sign_lookup[make_poly_hashabel(poly)]:
       return False
   
@@ -468,7 +474,7 @@ def check_powers(list_products, polies):
     
   print
 def evaluate_single_on_sign_assignment(discDerSign, goal):
-  if goal == discDerSign.origin:
+  if goal == [] or goal == discDerSign.origin:
     return 0
     
   # print "origin: %s" %discDerSign.origin
-- 
2.43.0


From 9526993c001d52bfbafdacf52630b970dd83a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:57 +0000
Subject: [PATCH 03/22] fix: convert() accepts integers that do not fit a
 machine word

---
 vts/isym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/isym.py b/vts/isym.py
index 216b89b..694618a 100644
--- a/vts/isym.py
+++ b/vts/isym.py
@@ -14,7 +14,7 @@ def convert(poly):
   return -- list of coefficients
   """
 
-  if isinstance(poly, int):
+  if isinstance(poly, (int, long)):
     if poly == 0:
       return []
     return [poly]
-- 
2.43.0


From 706a5e297b6c5a0b3c85b939963ed36be767d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:29 +0000
Subject: [PATCH 04/22] fix: write sign matrix cache files atomically

A process that died while pickling, or a second process that started at the
same time, left a truncated file under the name that every later run loads.
---
 vts/matrix_of_signs.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vts/matrix_of_signs.py b/vts/matrix_of_signs.py
index 8bcdb07..1551e07 100644
--- a/vts/matrix_of_signs.py
+++ b/vts/matrix_of_signs.py
@@ -12,8 +12,18 @@ def write_to_cache(name, obj):
   except OSError as exception:
     if exception.errno != errno.EEXIST:
       raise exception
-  with open(os.path.join('cache', name), 'wb') as f:
+  path = os.path.join('cache', name)
+  # never leave a partially written file under the name that readers look for
+  temp = '%s.%d.tmp' %(path, os.getpid())
+  with open(temp, 'wb') as f:
     pickle.dump(obj, f)
+  try:
+    os.rename(temp, path)
+  except OSError:
+    # some platforms don't replace files, another process was faster
+    if not os.path.isfile(path):
+      raise
+    os.remove(temp)
 def cache_hit(name):
   return os.path.isfile(os.path.join('cache', name))
 def read_cache(name):
-- 
2.43.0


From 4ac127bb04a122dc41b8811d47d840a063739e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 05/22] fix: parsing a variable no longer rebinds names of the
 parser module

sympy.var() also injects the symbol into the calling module, so a problem with
a variable called e.g. sympy broke every parse that came after it.
---
 vts/grf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vts/grf_parser.py b/vts/grf_parser.py
index ed9cbc0..b776b42 100644
--- a/vts/grf_parser.py
+++ b/vts/grf_parser.py
@@ -15,7 +15,7 @@ def doInt(s,l,t):
 
     
 def doVariable(s, l, t):
-  return sympy.var(t[0])
+  return sympy.Symbol(t[0])
   #return sympy.var('x')
   
 def proc_le(s, l, t):
-- 
2.43.0


From 27243a0b3feb3c33cfa62eef288a48e7fe7b972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 06/22] fix: load pickled examples from the directory they are
 written to

Examples are pickled to Examples/Metitarski, and read from Examples/MetiTarski,
which finds nothing where file names are case sensitive.
---
 vts/examples_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/examples_parser.py b/vts/examples_parser.py
index 807ed3c..46786d4 100644
--- a/vts/examples_parser.py
+++ b/vts/examples_parser.py
@@ -90,7 +90,7 @@ def make_univariate(relations):
 
 def unpickle_dirs_gen():
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
 
   dirGen = itertools.chain( os.walk(met_dir), os.walk(hid_dir))
@@ -127,7 +127,7 @@ def unpickle_dirs():
   
   """
   base_dir = os.path.join('Examples')
-  met_dir = os.path.join(base_dir, 'MetiTarski')
+  met_dir = os.path.join(base_dir, 'Metitarski')
   hid_dir = os.path.join(base_dir, 'HidingProblems')
   
   met_results = unpickle_from_dir(met_dir)
-- 
2.43.0


From ff024c57c0f89505d0653109bfa5e6f502d4733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 07/22] fix: report the examples that turned out false

The result was filed under the builtin file type, and slicing that key raised
a TypeError as soon as one example was false.
---
 vts/checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vts/checker.py b/vts/checker.py
index 09fde35..53f96cd 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -57,12 +57,12 @@ def check_examples(vts=True):
       print "formula value: %s" %formula_value
       print
       if not formula_value:
-        results[file] = formula_value
+        results[(file_index, ex_index)] = formula_value
 
 
   print results
   for f in results:
-    print "%s - %s" %(f[:-8], results[f])
+    print "%s - %s" %(f, results[f])
   
 def make_relation_map(formula):
   """Distributes relations in formula to map based on their type (<=, <, =, !=)
-- 
2.43.0


From d6e6bdb8188ae5fc31fa0204c856f24964789ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:52 +0000
Subject: [PATCH 08/22] fix: sequents may contain relations that are already
 true or false

Relations between constants (and those whose variables cancel) come out of
sympy as booleans. Converting them to univariate form and negating or
distributing a false one raised an exception.
---
 vts/checker.py         | 10 +++++++++-
 vts/examples_parser.py |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/vts/checker.py b/vts/checker.py
index 53f96cd..c285c86 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -112,10 +112,16 @@ def vts_preformat(uni_ante, uni_succ):
     raise Exception('antecedent or succedent became zero')
   
   
+  # a false antecedent can't be satisfied, nothing to check
+  if any(map(lambda p: p == False, filtered_ante)):
+    return []
+  # negation of a false succedent is true, leaves only the antecedent
+  undecided_succ = set(filter(lambda p: not (p == False), filtered_succ))
+
   # rewrite everything > and >= (to < and <=)
   # also negate the succedent
   rewritten_ante = rewrite_to_less(filtered_ante)
-  negated_succ = negate_relations(filtered_succ)
+  negated_succ = negate_relations(undecided_succ)
   rewritten_succ = rewrite_to_less(negated_succ)
   
   """print
@@ -128,6 +134,8 @@ def vts_preformat(uni_ante, uni_succ):
   
   #distribute the antecedent over succedent
   ret = []
+  if len(undecided_succ) < len(filtered_succ):
+    ret.append(list(rewritten_ante))
   for succ in rewritten_succ:
     tempList = list(rewritten_ante)
     tempList.append(succ)
diff --git a/vts/examples_parser.py b/vts/examples_parser.py
index 46786d4..6962a6c 100644
--- a/vts/examples_parser.py
+++ b/vts/examples_parser.py
@@ -80,6 +80,10 @@ def make_univariate(relations):
   """
   acc = []
   for relation in relations:
+    # sympy has already decided relations between constants
+    if relation == True or relation == False:
+      acc.append(relation)
+      continue
     old_relation = relation.lhs - relation.rhs
     vars = old_relation.free_symbols
     zipped_vars = zip(vars, map(lambda p: x, range(len(vars))))
-- 
2.43.0


From 72c9613982dd25143214a27ff9b9888a8f7ead4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 09/22] fix: CohenHormander prints tables of several
 polynomials

The rows were sorted by comparing the polynomials themselves, which is not a
boolean for expressions with symbols (TypeError), so every answer with more than
one row failed.
---
 highschool_qe/cohenhorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 0664806..6ed2869 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -614,7 +614,7 @@ class CohenHormander:
       header.update(diagram[row].keys())
     #print map(lambda x: x, header)
     print "-" * max_len
-    for row in sortedset(diagram.keys()):
+    for row in sortedset(diagram.keys(), key = str):
       print str("%%%ds   " %max_len) %row,
   #     print "%s " %diagram[row],
   #     for index in diagram[row].keys():
-- 
2.43.0


From c27cdb6dd742d2485647986c289f26650d79e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 10/22] fix: CohenHormander answers true when there is nothing
 to satisfy

With no polynomial left _real_table returned no table at all, so that
real_full([], [], []) was 'false' and a context in which every polynomial vanishes
had no table to extend.
---
 highschool_qe/cohenhorm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index 6ed2869..bfa8702 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -73,8 +73,9 @@ class CohenHormander:
     
     return -- tuple of sign diagram and context
     """
+    # nothing left to look at: the table of the zero polynomial
     if len(polys) == 0:
-      return {}
+      return self.get_initial_table(self._algebra.zero(), context)
       
     # sort polynomials by their degrees  
     set = sortedset(polys, key = lambda p: - self._algebra.degree(p))
-- 
2.43.0


From 7b5e837a55427037495fdf01cb62ea19855d0610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 11/22] fix: CohenHormander splits on the leading coefficient
 of the picked polynomial

Only the needed polynomials were split on their leading coefficient; the picked one
was looked up in a context that had (a multiple of) it at best, or treated as if its
sign at infinity was zero when it vanishes. y*x**2 + x > 0 raised 'no key (y)'.
---
 highschool_qe/cohenhorm.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/highschool_qe/cohenhorm.py b/highschool_qe/cohenhorm.py
index bfa8702..b09ef03 100644
--- a/highschool_qe/cohenhorm.py
+++ b/highschool_qe/cohenhorm.py
@@ -82,6 +82,29 @@ class CohenHormander:
     # pick the next polynomial (which is of maximum degree)
     max_poly = set.pop(0)
     
+    # the sign of the leading coefficient of max_poly has to be known, and
+    # when it is zero then max_poly is really its tail
+    max_lc = self._algebra.LC(max_poly)
+    if (self._algebra.degree(max_poly) > 0) & \
+        self._algebra.has_variable(max_lc):
+      if context.has_key(max_lc) == False:
+        split_tables = []
+        for sign in [-1, 0, 1]:
+          split_context = context.copy()
+          split_context[max_lc] = sign
+          split_tables += self._real_table(polys, split_context)
+        return split_tables
+      if context[max_lc] == 0:
+        tail = self._algebra.p_tail(max_poly)
+        rest = filter(lambda p: p != 0, [tail] + list(set))
+        tail_tables = []
+        for (table, con) in self._real_table(rest, context):
+          # rows for rest and tail (which can be zero)
+          row_table = self.copy_table(table, rest + [tail], con)
+          tail_tables.append((
+            self.table_map_back(row_table, [max_poly], {max_poly: tail}), con))
+        return tail_tables
+    
     sys.stdout.write("\rdeg of max_poly: %d" %(self._algebra.degree(max_poly)))
     sys.stdout.flush()
     
-- 
2.43.0


From e8a5dd3ecd5f395ce613d0a5ef49efbb6ea9cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:29 +0000
Subject: [PATCH 12/22] fix: Muchnik's partial procedures work with their
 default assigner

---
 highschool_qe/muchnik.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/highschool_qe/muchnik.py b/highschool_qe/muchnik.py
index 2c0a36b..4db2045 100644
--- a/highschool_qe/muchnik.py
+++ b/highschool_qe/muchnik.py
@@ -359,7 +359,7 @@ class Muchniker:
       diagram[p][column] = (0, p)
     return self.complex_extend(diagram, todo)
 
-  def complex_partial(self, ps, assigner = c_assignment_interactive):
+  def complex_partial(self, ps, assigner = None):
     """Partial Muchnik procedure over complexes
     
     Keyword arguments:
@@ -383,6 +383,8 @@ class Muchniker:
       muchnik_seq
     )
 
+    if assigner is None:
+      assigner = self.c_assignment_interactive
     root_diagram = assigner(constant_frag)
     
     diagram = self.complex_extend(root_diagram, nonconst_frag)
@@ -626,7 +628,7 @@ class Muchniker:
         diagram[q][right_new_col] = diagram[q][col]
     return self.real_extend(diagram, todo)
 
-  def real_partial(self, ps, assigner = r_assignment_interactive):
+  def real_partial(self, ps, assigner = None):
     """Partial Muchnik procedure over reals
     
     Keyword arguments:
@@ -651,6 +653,8 @@ class Muchniker:
 
 #    root_diagram = self.r_assignment_all_pos(constant_frag)
 #    root_diagram = self.r_assignment_interactive(constant_frag)
+    if assigner is None:
+      assigner = self.r_assignment_interactive
     root_diagram = assigner(constant_frag)
     self.pprint_diagram(root_diagram)
 
-- 
2.43.0


From b32080a09dd27900d677918b13dc302686a61cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 13/22] fix: local search does not keep the variable order of
 an earlier problem

---
 GRF/local_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index 8291f6d..b064ba1 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -44,7 +44,8 @@ class VarOrder:
     order = None
     @staticmethod
     def var_order(D):
-        if not VarOrder.order:
+        # A new problem may be over other variables than the last one
+        if not VarOrder.order or set(VarOrder.order) != set(D.keys()):
             VarOrder.order = D.keys()
         return VarOrder.order
     @staticmethod
-- 
2.43.0


From d4fc56f7670e2ad812e8605608b4c2812341a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 14/22] fix: full-dimensional lifting works without a goal

---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index cc067a9..1c3acd2 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -632,7 +632,7 @@ class QE_Factory(RCF):
 
         # Special partiality for GRF: We short-circuit True cells!
 
-        if goal.eval_on_dict(parent_dict) == True:
+        if (goal != None) and (goal.eval_on_dict(parent_dict) == True):
             print "--> Partiality for GRF short-circuited lifting over cell (R^" \
                 + str(l) + "):" + str(i) + "!"
             return []
-- 
2.43.0


From 282a9c3553a202ae528f96245712dd18b0365bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 15/22] fix: a sample point that makes every hypothesis false
 asks for a hypothesis

---
 GRF/grf.sage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 1c3acd2..8f668c0 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -873,7 +873,7 @@ in a (uniform) epsilon(=" + str(epsilon) + ") neighborhood.")
                     #print "    " + str(bad)
                     if len(bad) == len(self.hyps):
                         raise Exception("Counterexample!: " + str(d))
-                    if bad not in bads and bad != []:
+                    if bad not in bads:
                         # Filter out sets in bads that are subsets of
                         # bad. This is a disgusting hack! Must change
                         # to tuple representation soon.
-- 
2.43.0


From 33df57851414e7bcf7fd488d5f96b9b8b10d04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 16/22] fix: local search without hidden hypotheses gives the
 points around the sample point

---
 GRF/local_search.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GRF/local_search.py b/GRF/local_search.py
index b064ba1..090d6f5 100644
--- a/GRF/local_search.py
+++ b/GRF/local_search.py
@@ -90,6 +90,8 @@ def choose_atom_softzero(Prob,x):
 
 def choose_atom_random(Prob,x):
     Atoms = Prob.get_hidden_hyp_atoms()
+    if len(Atoms) == 0:
+        return None
     return random.choice(Atoms)
 
 def choose_atom_true(Prob,x):
@@ -177,6 +179,8 @@ def local_search_sampling(Prob,D,sample_params):
             A = choose_atom_true(Prob,x)
             if A == None:
                 A = choose_atom_random(Prob,x)
+            if A == None: # No hidden hypotheses, nothing to flip
+                break
 
             # Sets up a function so that root solving it flips
             # the choosen polynomial
-- 
2.43.0


From edc20c3a5cf3e4b65e7366b8986cd5e17a3bc565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 17/22] fix: root isolation keeps irrational roots next to
 rational ones

---
 GRF/grf.sage | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 8f668c0..0bc767e 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -441,19 +441,20 @@ class QE_Factory(RCF):
         if (univ_polys==[]):
             return []
         else:
-            easy_roots_global, rri = [], []
-            prod = 1
+            easy_roots, prod = [], 1
             for p in univ_polys:
-                easy_roots = p.roots()
-                if easy_roots != []:
-                    easy_roots_global += [[(a, a), m] for (a, m) in easy_roots]
-                else:
-                    prod = prod * p
-            if prod != 1:
-                rri = prod.real_root_intervals()
-            #print "rri's: ", rri
-            #print "easy_roots:", easy_roots_global
-            return rri + easy_roots_global
+                easy_roots += [a for (a, m) in p.roots()]
+                prod = prod * p
+            # All roots are isolated together, so that the intervals are
+            # disjoint; the interval of a rational root is the root itself.
+            out = []
+            for ((l, u), m) in prod.real_root_intervals():
+                inside = [a for a in easy_roots if l < a and a < u]
+                if inside != []:
+                    l, u = inside[0], inside[0]
+                out.append(((l, u), m))
+            #print "root intervals: ", out
+            return out
 
     #
     # Given a rational interval (presented as (l, u), a lower and
-- 
2.43.0


From f2a16f7dd623c2c906a11a59d5b82f2d6e7ed529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:32 +0000
Subject: [PATCH 18/22] fix: equations promoted to the goal are not reduced by
 each other in a circle

---
 GRF/grf.sage | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 0bc767e..b713dbe 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -196,6 +196,9 @@ class RCF_Goal(RCF):
             self.goal_hyps = self.goal_hyps + [gh]
         else:
             B = self.gb
+            if self.gb != []:
+                # Simplify new gb using current goal_hyps
+                gh.quotient_ring_inject(self.gb)
             if gh.op == '=':
                 I = ideal([gh.poly])
                 B = I.groebner_basis()
@@ -204,9 +207,6 @@ class RCF_Goal(RCF):
                 for h in self.goal_hyps:
                     h.quotient_ring_inject(B)
                 B = ideal(self.gb + [gh.poly]).groebner_basis()
-            if self.gb != []:
-                # Simplify new gb using current goal_hyps
-                gh.quotient_ring_inject(self.gb)
             self.goal_hyps = self.goal_hyps + [gh]
             # Update our working self.gb in case gh has enriched it
             self.gb = B
-- 
2.43.0


From 4176d7467ae8bca90b298c91100d34fd18c62530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:06 +0000
Subject: [PATCH 19/22] fix: an atom reduced modulo equations knows its new
 variables

---
 GRF/grf.sage | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index b713dbe..6690744 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -75,6 +75,7 @@ class RCF_Atom(RCF):
         print "      - Old poly: ", self.poly
         print "      - New poly: ", new_poly
         self.poly = new_poly
+        self.vars = self.poly.variables()
 
     def negate(self):
         if self.op == ">":
-- 
2.43.0


From 3e68c96949f9250dec354f08a789e43bb1734e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:45 +0000
Subject: [PATCH 20/22] fix: hidden succedent formulas are not listed as
 antecedent formulas too

---
 GRF/smt2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GRF/smt2.py b/GRF/smt2.py
index 836e970..5aac782 100644
--- a/GRF/smt2.py
+++ b/GRF/smt2.py
@@ -133,6 +133,8 @@ class SMTContext:
         #    if h.op != "=":
         #        h.quotient_ring_inject(B)
 
+        num_antecedent = len(self.antecedent)
+
         if len(self.succedent) > 1:
             self.succedent.reverse()
             for h in self.succedent[1:]:
@@ -168,7 +170,7 @@ class SMTContext:
         hide_succedent = []
 
         i = 0
-        for h in self.antecedent:
+        for h in self.antecedent[:num_antecedent]:
             if h in hyps_to_hide:
                 hide_antecedent += [i]
             i += 1
-- 
2.43.0


From 817b7a78f0d511cc5350db46b1fb4ea1b6ceffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:40 +0000
Subject: [PATCH 21/22] fix: the projection works on irreducible factors, whose
 resultants and discriminants do not vanish

---
 GRF/grf.sage | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/GRF/grf.sage b/GRF/grf.sage
index 6690744..b885f33 100644
--- a/GRF/grf.sage
+++ b/GRF/grf.sage
@@ -343,6 +343,17 @@ class QE_Factory(RCF):
         # disabling ps_2 filtering for testing 13-Jun
         return ps_2 # Is this ok?
 
+    #
+    # Compute the (monic) irreducible factors of a list of polys. The
+    # projection works on factors, because resultants of polys with a
+    # common factor and discriminants of polys with a repeated factor
+    # vanish identically.
+    #
+
+    def proj_factors(self, ps):
+        return list(set([f * (1 / f.lc()) for p in ps if not(p.is_constant())
+                         for (f, m) in p.factor()]))
+
     #
     # Given a list of polys PS and a current indeterminate index i
     #  s.t. ps \subset QQ[x_0, ..., x_i]
@@ -367,17 +378,14 @@ class QE_Factory(RCF):
         lcs = [Singular.MPolynomial_libsingular.coefficient(p, {x_to_elim : p.degree(x_to_elim)}) for p in ps]
         print ".c(" + str(len(lcs)) + ").",
         new_ps = set(resultants + discriminants + lcs)
-        filtered_ps = self.filter_proj_set(new_ps)
+        filtered_ps = self.filter_proj_set(self.proj_factors(new_ps))
         self.proj_sets[i-1] = filtered_ps
         print (".f(before=" + str(len(new_ps)) +
                ", after=" + str(len(filtered_ps)) + ").")
 
     #
     # The projection phase: Compute a full (filtered) Brown-McCallum
-    # hierarchy of projection sets, bound to self.proj_sets.  Note
-    # that we currently don't compute projection factor sets, only
-    # projection sets.  (This affects neither completeness nor
-    # soundness, only efficiency.)
+    # hierarchy of projection factor sets, bound to self.proj_sets.
     #
 
     def projection_phase(self):
@@ -387,7 +395,7 @@ class QE_Factory(RCF):
         print "      ",
         top_ps = self.proj_sets[self.num_vars-1]
         print top_ps
-        self.proj_sets[self.num_vars-1] = self.filter_proj_set(top_ps)
+        self.proj_sets[self.num_vars-1] = self.filter_proj_set(self.proj_factors(top_ps))
         print "   Filtered: ", self.proj_sets[self.num_vars-1]
         print "\n-- Beginning dynamic projection variable reordering."
         self.compute_proj_ord()
-- 
2.43.0


From 64bf3783fc4197f72a39c582f06a7b18479db6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:27 +0000
Subject: [PATCH 22/22] fix: a sequent whose antecedent or succedent is empty
 or decided true is checked, not refused

---
 vts/checker.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vts/checker.py b/vts/checker.py
index c285c86..a3d455e 100644
--- a/vts/checker.py
+++ b/vts/checker.py
@@ -107,11 +107,6 @@ def vts_preformat(uni_ante, uni_succ):
   filtered_ante = set(filter(lambda p: not (p == True), uni_ante))
   filtered_succ = set(filter(lambda p: not (p == True), uni_succ))
   
-  # TODO
-  if len(filtered_ante) == 0 or len(filtered_succ) == 0:
-    raise Exception('antecedent or succedent became zero')
-  
-  
   # a false antecedent can't be satisfied, nothing to check
   if any(map(lambda p: p == False, filtered_ante)):
     return []
-- 
2.43.0

