From 9d6f507de0b9153c4831830912906874e392ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 01/97] fix: keep a log pscale with unit offset logarithmic

eval_pscale() mapped complex(1, 0) to the linear scale 1.
---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a31b873..2f261af 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -26,7 +26,7 @@ def eval_pscale(pscale=None):
   """
   if pscale is None:
     return 1.
-  if pscale == 1:
+  if pscale == 1 and not iscomplex(pscale):
     return 1.
   if pscale in ['log', 'ln', 0]:
     return COMPLEX_ZERO
-- 
2.43.0


From bbfc15b901c14479d2ab27d493d38336b25fd61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 02/97] fix: return the summed log offset as the product pscale

prod_pscale() took the logarithm of the sum of log probability offsets, which
logp_offs() and rescale() do not undo.
---
 probayes/pscales.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 2f261af..6e6fb19 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -150,10 +150,7 @@ def prod_pscale(pscales, use_logp=None):
   if use_logp:
     if abs(rtype) < NEARLY_POSITIVE_ZERO:
       return COMPLEX_ZERO
-    elif rtype > 0:
-      return complex(np.log(rtype), 0.)
-    else:
-      return complex(np.log(-rtype), np.pi)
+    return complex(rtype, 0.)
   return rtype
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 13e7e75a560e8f7fdd4db42390cb7a3b629a8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 03/97] fix: express the product on the requested pscale in
 prod_rule

A requested pscale was returned without rescaling the product to it, and
rescale() was passed the list of input pscales as the target.
---
 probayes/pscales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 6e6fb19..a447e48 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -207,8 +207,8 @@ def prod_rule(*args, **kwds):
       if p_log:
         probs[i] = exp_logp(probs[i])
   prob = _apply_prod(probs)
-  if use_logp != iscomplex(pscale):
-    prob = rescale(prob, ppscale, pscales)
+  if use_logp != iscomplex(pscale) or ppscale != pscale:
+    prob = rescale(prob, ppscale, pscale)
 
   return prob, pscale
 
-- 
2.43.0


From 73424534036f030094026e62df958f8120725db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 04/97] fix: honour a zero log offset as output pscale in
 div_prob

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a447e48..c2e9fd1 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -226,7 +226,7 @@ def div_prob(dividend, divisor, *args, pscale=None):
     assert len(args) == 2, "Both pscales must be specified if at all"
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
-    pscale = pscale or pscales[0]
+    pscale = pscales[0] if pscale is None else pscale
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0


From 3a8afc75cecedadc437099ef9f85f13d020c3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:03 +0000
Subject: [PATCH 05/97] fix: convert factors before a product on the other kind
 of scale

With use_logp differing from the kind shared by all factors, prod_rule() took
the fast track and added linear (or multiplied log) probabilities.
---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index c2e9fd1..8f3f805 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -191,7 +191,7 @@ def prod_rule(*args, **kwds):
   if use_logp != iscomplex(ppscale):
     ppscale = complex(np.log(ppscale), 0.) if use_logp else float(np.exp(ppscale))
   elif use_logp == iscomplex(pscale) and ppscale == pscale and \
-      len(set([iscomplex(_pscale) for _pscale in pscales])) == 1:
+      all([iscomplex(_pscale) == use_logp for _pscale in pscales]):
     prob = _apply_prod(list(args))
     return prob, pscale
 
-- 
2.43.0


From 2ff570f417d9206859656e922a9f2ca473ed86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:36 +0000
Subject: [PATCH 06/97] fix: return the log hypervolume from Variable.lhv

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 9f56198..66edbb8 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -299,7 +299,7 @@ class Variable (Icon):
   @property
   def lhv(self):
     """ Log hypervolume (=log(length)) of the variable """
-    return self._length
+    return self._lhv
 
   def __len__(self):
     """ Length of the variable according to its (transformed) limits """
-- 
2.43.0


From 7dc2a38dc2a41b3dcf1ab432faf150791d1c38f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:36 +0000
Subject: [PATCH 07/97] fix: decide variable membership without assuming unique
 values

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 66edbb8..b7444ff 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -325,7 +325,7 @@ class Variable (Icon):
 
     # Non-floats do not support transformation
     if self._vtype not in VTYPES[float]:
-      self._inside = lambda x: np.isin(x, self._vset, assume_unique=True)
+      self._inside = lambda x: np.isin(x, self._vset)
       self._ulims = self._vlims
       self._length = 2 if self._vtype in VTYPES[bool] else len(self._vset)
       self._lhv = log_prob(self._length)
-- 
2.43.0


From 8f46bdf2bf65b052a2326f81dc19c987c039b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:36 +0000
Subject: [PATCH 08/97] fix: copy the list given as variable set before
 converting it

---
 probayes/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index b7444ff..eb18f4b 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -187,6 +187,9 @@ class Variable (Icon):
       assert isinstance(vset, list), \
           "Unrecognised vset specification: {}".format(vset)
 
+    # Convert values in a copy, not in the caller's list or the defaults
+    vset = list(vset)
+
     # At this point, vset can only be a list, but may contain tuples
     vtype = self._vtype
     for i, value in enumerate(vset):
-- 
2.43.0


From 46420260f33baa414786a8122247869412d513cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:36 +0000
Subject: [PATCH 09/97] fix: keep scalar deltas from landing on an excluded
 limit

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index eb18f4b..6a279c1 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -718,12 +718,12 @@ class Variable (Icon):
         if not self._inside(vals):
           vals = values
       elif maybe_bounce[0]:
-        if vals < self._vlims[0]:
+        if vals <= self._vlims[0]:
           vals = values
         else:
           vals = np.minimum(self._vlims[1], vals)
       else:
-        if vals > self._vlims[1]:
+        if vals >= self._vlims[1]:
           vals = values
         else:
           vals = np.maximum(self._vlims[0], vals)
-- 
2.43.0


From 929316e7bb69fa94f056e0e2dc6eb7dc43b4d65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:36 +0000
Subject: [PATCH 10/97] fix: apply an explicit zero delta instead of the
 default delta

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 6a279c1..d8d60ab 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -609,7 +609,7 @@ class Variable (Icon):
 
     If delta is not entered, then the default set by Variable.set_delta() is used.
     """
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if delta is None:
       return None
     if isinstance(delta, Expression):
@@ -663,7 +663,7 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = delta or self._delta
+    delta = self._delta if delta is None else delta
     if isinstance(delta, Expression):
       if delta.ret_callable():
         return delta(values)
-- 
2.43.0


From a81e569b0dbd2af75e8dd86d603e249e0103fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:36 +0000
Subject: [PATCH 11/97] fix: scale the default delta by the variable length
 when asked to

---
 probayes/variable.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index d8d60ab..0e12bad 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -609,7 +609,8 @@ class Variable (Icon):
 
     If delta is not entered, then the default set by Variable.set_delta() is used.
     """
-    delta = self._delta if delta is None else delta
+    default = delta is None
+    delta = self._delta if default else delta
     if delta is None:
       return None
     if isinstance(delta, Expression):
@@ -635,7 +636,7 @@ class Variable (Icon):
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-    if delta == self._delta and self._delta_kwds['scale']:
+    if default and self._delta_kwds.get('scale'):
       assert np.isfinite(self._length), "Cannot scale by infinite length"
       delta *= self._length
     return self._Delta(delta)
@@ -663,13 +664,16 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = self._delta if delta is None else delta
+    default = delta is None
+    delta = self._delta if default else delta
     if isinstance(delta, Expression):
       if delta.ret_callable():
         return delta(values)
       delta = delta()
     elif self._vtype not in VTYPES[bool]:
-      if isinstance(delta, (list, tuple)):
+      if default:
+        delta = self.eval_delta()
+      elif isinstance(delta, (list, tuple)):
         delta = self.eval_delta(delta)
     if isinstance(delta, self._Delta):
       delta = delta[0]
-- 
2.43.0


From 3e1e0c33b1608578f649e4ad314776cf9878d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:14 +0000
Subject: [PATCH 12/97] fix: accept a NumPy array as the variable set of a new
 variable

---
 probayes/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 0e12bad..5c32a68 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -109,10 +109,11 @@ class Variable (Icon):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-    if vtype or vset:
+    has_vset = vset.size > 0 if isinstance(vset, np.ndarray) else bool(vset)
+    if vtype or has_vset:
       if vtype:
         self.vtype = vtype
-      if vset:
+      if has_vset:
         self.vset = vset
     else:
       self.vtype = vtype
-- 
2.43.0


From 532a7b1f0151427896b5aafa825dc4fa6196cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:08 +0000
Subject: [PATCH 13/97] fix: marginalise shared dimensions and dimensions not
 in key order

---
 probayes/pd.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 5121387..d367ad9 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -145,7 +145,6 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
     sum_axes = set()
     for i, key in enumerate(self._keylist):
       if key in keys:
@@ -153,10 +152,14 @@ class PD (Distribution):
             "Cannot marginalise along scalar for key {}".format(key)
         sum_axes.add(self._dims[key])
         marg.pop(key)
-        dim_delta += 1
-      else:
+    for i, key in enumerate(self._keylist):
+      if key not in keys:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dim = self._dims[key]
+          assert dim not in sum_axes, \
+              "Cannot marginalise {} without {} sharing its dimension".\
+              format(keys, key)
+          dims.update({key: dim - sum(axis < dim for axis in sum_axes)})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     prob = rescale(self._prob, self._pscale, 1.)
-- 
2.43.0


From c90a44948a8c842e77893b5a89d0411ac5b4e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:33 +0000
Subject: [PATCH 14/97] fix: lay out dimensions consistently in conditionalise

---
 probayes/pd.py | 56 ++++++++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index d367ad9..47fbd5e 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -227,46 +227,34 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     normalise = False
-    delta = 0
     marg_scalars = set()
+    old_axes = set()
+    key_axes = set()
     for i, key in enumerate(self._keylist):
-      if key in keys:
-        cond.update({key: marg.pop(key)})
       if self._aresingleton[i]:
-        dims.update({key: None})
-        if key in keys:
-          normalise = True
-      elif key in self._marg.keys():
-        if self._aresingleton[i]:
+        if key in self._marg.keys():
           marg_scalars.add(key)
         if key in keys:
-          delta += 1 # Don't add to dim just yet
-        else:
-          dim = self._dims[key]
-          dims.update({key: dim})
+          normalise = True
+      elif key in keys:
+        key_axes.add(self._dims[key])
       else:
-        dim = self.dims[key] - delta
-        dims.update({key: dim})
-
-    # Reduce remaining marginals to lowest dimension
-    dim_val = [val for val in dims.values() if val is not None]
-    dim_max = 0
-    if len(dim_val):
-      dim_min = min(dim_val)
-      for key in dims.keys():
-        if dims[key] is not None:
-          dim = dims[key]-dim_min
-          dims.update({key: dim})
-          dim_max = max(dim_max, dim)
-    dim_min = self.ndim
-    for key in keys:
-      dim = self.dims[key]
-      if dim is not None:
-        dim_min = min(dim_min, dim)
-    for key in keys:
-      dim = self._dims[key]
-      if dim is not None:
-        dims.update({key: dim-dim_min+dim_max+1})
+        old_axes.add(self._dims[key])
+      if key in keys:
+        cond.update({key: marg.pop(key)})
+
+    # Dimensions of keys follow the remaining dimensions
+    assert not old_axes.intersection(key_axes), \
+      "Dimensionality precludes conditionalising {}".format(keys)
+    axes = sorted(old_axes) + sorted(key_axes)
+    for i, key in enumerate(self._keylist):
+      if self._aresingleton[i]:
+        dims.update({key: None})
+      elif key not in keys:
+        dims.update({key: axes.index(self._dims[key])})
+    for i, key in enumerate(self._keylist):
+      if not self._aresingleton[i] and key in keys:
+        dims.update({key: axes.index(self._dims[key])})
     if normalise:
       assert marg_scalars.issubset(set(keys)), \
         "If conditionalising for key {}".format(key) + "," + \
-- 
2.43.0


From 5f46aef86890e3ac524b098d3b79594ef29a7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:27 +0000
Subject: [PATCH 15/97] fix: honour a zero log offset as output pscale in
 product

---
 probayes/pd_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 0106cd1..04fccaa 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -95,7 +95,9 @@ def product(*args, **kwds):
     return None
   kwds = dict(kwds)
   pscales = [arg.pscale for arg in args]
-  pscale = kwds.get('pscale', None) or prod_pscale(pscales)
+  pscale = kwds.get('pscale', None)
+  if pscale is None:
+    pscale = prod_pscale(pscales)
   aresingleton = [arg.issingleton for arg in args]
   maybe_fasttrack = all(aresingleton) and \
                     np.all(pscale == np.array(pscales)) and \
-- 
2.43.0


From 0633d736e613426df14c0f23c020b48536b12fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:46 +0000
Subject: [PATCH 16/97] fix: match the conditional variables of a product by
 key and value

---
 probayes/pd_utils.py | 48 ++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 04fccaa..7cc1d39 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -81,6 +81,16 @@ def rekey_dict(ordereddict, keymap):
       rekeyed.update({map_key: string})
   return rekeyed
 
+#-------------------------------------------------------------------------------
+def same_values(vals, other):
+  """ Returns whether two distribution values for a variable are the same """
+  if issingleton(vals) or issingleton(other):
+    if isunitsetint(vals) or isunitsetint(other):
+      return vals == other
+    return issingleton(vals) and issingleton(other) and np.allclose(vals, other)
+  vals, other = np.ravel(vals), np.ravel(other)
+  return vals.size == other.size and np.allclose(vals, other)
+
 #-------------------------------------------------------------------------------
 def product(*args, **kwds):
   """ Multiplies two or more PDs subject to the following:
@@ -196,32 +206,30 @@ def product(*args, **kwds):
   prod_marg = [name for dist_marg_names in marg_names \
                           for name in dist_marg_names]
   prod_marg_name = ','.join(prod_marg)
-  flat_cond_names = [name for dist_cond_names in cond_names \
-                          for name in dist_cond_names]
-  cond2marg = [cond_name for cond_name in flat_cond_names \
-                         if cond_name in prod_marg]
-  prod_cond = [cond_name for cond_name in flat_cond_names \
-                         if cond_name not in cond2marg]
-  cond2marg_set = set(cond2marg)
+  prod_marg_keys = set(all_marg_keys)
+  prod_cond = []
+  prod_cond_keys = []
+  for arg in args:
+    for key, name in arg.cond.items():
+      if key not in prod_marg_keys and key not in prod_cond_keys:
+        prod_cond_keys.append(key)
+        prod_cond.append(name)
 
   # Check conditionals compatible
-  prod_cond_set = set(prod_cond)
-  cond2marg_dict = {name: None for name in cond2marg}
-  for i, arg in enumerate(args):
-    cond_set = set(cond_names[i]) - cond2marg_set
+  prod_cond_set = set(prod_cond_keys)
+  prod_vals = collections.OrderedDict()
+  for arg in args:
+    cond_set = set(arg.cond.keys()) - prod_marg_keys
     if cond_set:
       assert prod_cond_set == cond_set, \
           "Incompatible product conditional {} for conditional set {}: ".format(
               prod_cond_set, cond_set)
-    for name in cond2marg:
-      if name in arg.keys():
-        values = arg[name]
-        if not isscalar(values):
-          values = np.ravel(values)
-        if cond2marg_dict[name] is None:
-          cond2marg_dict[name] = values
-        elif not np.allclose(cond2marg_dict[name], values):
-          raise ValueError("Mismatch in values for condition {}".format(name))
+    for key, values in arg.items():
+      if key in prod_vals:
+        if not same_values(prod_vals[key], values):
+          raise ValueError("Mismatch in values for condition {}".format(key))
+      else:
+        prod_vals.update({key: values})
 
   # Establish product name, values, and dimensions
   prod_keys = str2key(prod_marg + prod_cond)
-- 
2.43.0


From 66074cfc82f30cb75e69135fb5426baa0a34a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:31 +0000
Subject: [PATCH 17/97] fix: lay out the dimensions of a product with shared
 dimensions

---
 probayes/pd_utils.py | 48 ++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 7cc1d39..ed76881 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -260,31 +260,22 @@ def product(*args, **kwds):
             assert isunitsetint(val[key]), "Mismatch in variables {} vs {}".\
                 format(prod_vals, val)
             prod_vals.update({key: {list(prod_vals[key])[0] + list(val[key])[0]}})
-  prod_newdims = np.array(np.logical_not(prod_aresingleton))
-  dims_shared = False
-  for arg in args:
-    argdims = [dim for dim in arg.dims.values() if dim is not None]
-    if len(argdims) != len(set(argdims)):
-      dims_shared = True
 
-  # Shared dimensions limit product dimensionality
-  if dims_shared:
-    seen_keys = set()
-    for i, key in enumerate(prod_keys):
-      if prod_newdims[i] and key not in seen_keys:
-        for arg in args:
-          if key in arg.dims:
-            dim = arg.dims[key]
-            seen_keys.add(key)
-            for argkey, argdim in arg.dims.items():
-              seen_keys.add(argkey)
-              if argkey != key and argdim is not None:
-                if dim == argdim:
-                  index = prod_keys.index(argkey)
-                  prod_newdims[index] = False
-
-  prod_cdims = np.cumsum(prod_newdims)
-  prod_ndims = prod_cdims[-1]
+  # Variables sharing a dimension in a factor also share it in the product
+  prod_dims = collections.OrderedDict()
+  prod_ndims = 0
+  for i, key in enumerate(prod_keys):
+    if prod_aresingleton[i]:
+      continue
+    dim = None
+    for arg in args:
+      for argkey, argdim in arg.dims.items():
+        if key in arg.dims and argdim == arg.dims[key] and argkey in prod_dims:
+          dim = prod_dims[argkey]
+    if dim is None:
+      dim = prod_ndims
+      prod_ndims += 1
+    prod_dims.update({key: dim})
 
   # Fast-track scalar products
   if maybe_fasttrack and prod_ndims == 0:
@@ -294,16 +285,11 @@ def product(*args, **kwds):
   # Reshape values - they require no axes swapping
   ones_ndims = np.ones(prod_ndims, dtype=int)
   prod_shape = np.ones(prod_ndims, dtype=int)
-  scalarset = set()
-  prod_dims = collections.OrderedDict()
   for i, key in enumerate(prod_keys):
-    if prod_aresingleton[i]:
-      scalarset.add(key)
-    else:
+    if not prod_aresingleton[i]:
       values = prod_vals[key]
       re_shape = np.copy(ones_ndims)
-      dim = prod_cdims[i]-1
-      prod_dims.update({key: dim})
+      dim = prod_dims[key]
       re_shape[dim] = values.size
       prod_shape[dim] = values.size
       prod_vals.update({key: values.reshape(re_shape)})
-- 
2.43.0


From 5dbac06aa3c326dc7c758293fd4b8eaa20453e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:56 +0000
Subject: [PATCH 18/97] fix: look up singleton status by key in
 Distribution.singleton

---
 probayes/distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 990968c..37974c3 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -202,10 +202,10 @@ class Distribution (NamedDict):
     if key is None:
       return self._issingleton
     if isinstance(key, str):
-      if key not in self._keys:
+      if key not in self._keylist:
         return None
-      key = self._keys.index(key)
-    return self._issingleton[key]
+      key = self._keylist.index(key)
+    return self._aresingleton[key]
 
 #-------------------------------------------------------------------------------
   def lookup(self, keys, as_dist=False):
-- 
2.43.0


From 28f202d20701ed00c1abfd3e08422a9ac9bdfad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:56 +0000
Subject: [PATCH 19/97] fix: reject key maps onto a later key in
 Distribution.rekey

---
 probayes/distribution.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 37974c3..a82ed92 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -271,15 +271,11 @@ class Distribution (NamedDict):
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
     for key in self._keylist:
-      if key not in keymap.keys():
-        vals.update({key: self[key]})
-        dims.update({key: self.dims[key]})
-      else:
-        map_key = keymap[key]
-        assert map_key not in vals, \
-            "Key map results in duplicate for key: {}".format(map_key)
-        vals.update({map_key: self[key]})
-        dims.update({map_key: self.dims[key]})
+      map_key = keymap.get(key, key)
+      assert map_key not in vals, \
+          "Key map results in duplicate for key: {}".format(map_key)
+      vals.update({map_key: self[key]})
+      dims.update({map_key: self.dims[key]})
     return Distribution(self._name, vals, dims=dims)
     
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 46d61fbca8af4c0e029824c53aac2629be5ef8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:57 +0000
Subject: [PATCH 20/97] fix: realign probabilities in PD.redim and keep its
 scalars

---
 probayes/distribution.py | 3 +++
 probayes/pd.py           | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index a82ed92..4becfe0 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -259,6 +259,9 @@ class Distribution (NamedDict):
             "Dimension {} requested for singleton with key {}".\
             format(dims[key], key)
     vals = {key: self[key] for key in dims.keys()}
+    for key in self._keylist:
+      if key not in vals:
+        vals.update({key: self[key]})
     return Distribution(self._name, vals, dims=dims)
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/pd.py b/probayes/pd.py
index 47fbd5e..860e849 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -300,7 +300,7 @@ class PD (Distribution):
       old_dims = []
       new_dims = []
       for i, key in enumerate(self._keylist):
-        if not self._aresingletons[i]:
+        if not self._aresingleton[i] and self._dims[key] not in old_dims:
           old_dims.append(self._dims[key])
           new_dims.append(dims[key])
       prob = np.moveaxis(prob, old_dims, new_dims)
-- 
2.43.0


From 4d1a543a49ffcf31f204b70ceab3eb0ec6b54bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:36 +0000
Subject: [PATCH 21/97] fix: slice every dimension and variable consistently in
 PD.__call__

---
 probayes/pd.py | 82 ++++++++++++++++++++++++++------------------------
 1 file changed, 43 insertions(+), 39 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 860e849..d0f5cc3 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -503,52 +503,56 @@ class PD (Distribution):
     keys = values.keys()
     keyset = set(values.keys())
     assert len(keyset.union(self._keyset)) == len(self._keyset),\
-        "Unrecognised key among values keys: {}".format(keys())
+        "Unrecognised key among values keys: {}".format(keys)
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     dims = collections.OrderedDict(self._dims)
     vals = collections.OrderedDict(self)
-    slices = [slice(None) for _ in range(self.ndim)]
-    dim_delta = 0
+
+    # Match values along each dimension
+    matches = collections.OrderedDict()
     for i, key in enumerate(self._keylist):
-      check_dims = False
-      if not self._aresingleton[i]:
-        dim = self.dims[key]
-        if key in keyset:
-          assert np.isscalar(values[key]), \
-              "Values must contain scalars but found {} for {}".\
-              format(values[key], key)
-          match = np.ravel(self[key]) == values[key]
-          n_matches = match.sum()
-          post_eq = '{}'.format(values[key])
-          if n_matches == 0:
-            slices[dim] = slice(0, 0)
-            vals[key] = np.array([])
-          elif n_matches == 1 and not keepdims:
-            dim_delta += 1
-            slices[dim] = int(np.nonzero(match)[0])
-            vals[key] = values[key]
+      if not self._aresingleton[i] and key in keyset:
+        dim = self._dims[key]
+        assert np.isscalar(values[key]), \
+            "Values must contain scalars but found {} for {}".\
+            format(values[key], key)
+        match = np.ravel(self[key]) == values[key]
+        if dim in matches:
+          match = np.logical_and(matches[dim], match)
+        matches.update({dim: match})
+
+    # Slice each matched dimension and all variables along it
+    prob = self._prob
+    scalar_axes = set()
+    for dim, match in matches.items():
+      index = np.nonzero(match)[0]
+      scalar = match.sum() == 1 and not keepdims
+      if scalar:
+        scalar_axes.add(dim)
+      prob = np.take(prob, index, axis=dim)
+      for key in self._keylist:
+        if self._dims[key] == dim:
+          val = np.ravel(self[key])[index]
+          post_eq = '[]'
+          if scalar:
+            val = values[key] if key in keyset else val[0]
             dims[key] = None
-          else:
-            post_eq = '[]'
-            slices[dim] = np.nonzero(match)[0]
-            vals[key] = self[key][slices[dim]]
-            check_dims = True
-          update_keys = [key]
-          if check_dims:
-            for k, v in self.items():
-              if dim == self._dims[k] and k not in keyset:
-                vals[k] = self[k][slices[dim]]
-                update_keys.append(k)
-          for update_key in update_keys:
-            if key in marg.keys():
-              marg[key] = "{}={}".format(key, post_eq)
-            elif key in cond.keys():
-              cond[key] = "{}={}".format(key, post_eq)
-        elif dim_delta:
-          dims[key] = dims[key] - dim_delta
+            post_eq = '{}'.format(val)
+          vals[key] = val
+          if key in marg.keys():
+            marg[key] = "{}={}".format(key, post_eq)
+          elif key in cond.keys():
+            cond[key] = "{}={}".format(key, post_eq)
+
+    # Scalars are dimensionless
+    for key, dim in dims.items():
+      if dim is not None:
+        dims[key] = dim - sum(axis < dim for axis in scalar_axes)
+    if scalar_axes:
+      prob = prob[tuple([0 if dim in scalar_axes else slice(None)
+                         for dim in range(self._ndim)])]
     name = margcond_str(marg, cond)
-    prob = self._prob[tuple(slices)]
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 1370733b3e080b7443a2f4b8d79a8fe69ceb8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:41 +0000
Subject: [PATCH 22/97] fix: align the factors of a product over sets of
 samples

---
 probayes/pd_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index ed76881..aeefde2 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -195,7 +195,10 @@ def product(*args, **kwds):
               if areunitsetints[j]:
                 prod_vals.update({key: {list(prod_vals[key])[0] + \
                                         list(val[key])[0]}})
+              elif not same_values(prod_vals[key], val[key]):
+                raise ValueError("Mismatch in values for {}".format(key))
       if marg_sets is not None:
+        probs = [arg.redim(args[0].dims).prob for arg in args]
         prob, pscale = prod_rule(*tuple(probs), pscales=pscales, pscale=pscale)
         return PD(prod_name, prod_vals, dims=args[0].dims, prob=prob, pscale=pscale)
       else:
-- 
2.43.0


From a42160c3c4125437d8ea3d8c35cc32554d933f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:23 +0000
Subject: [PATCH 23/97] fix: close gaps between dimensions looked up as a
 distribution

---
 probayes/distribution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 4becfe0..93e5151 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -221,6 +221,10 @@ class Distribution (NamedDict):
           keylist.append(key)
           vals.update({key: self[key]})
           dims.update({key: self._dims[key]})
+      axes = sorted(set(dim for dim in dims.values() if dim is not None))
+      for key, dim in dims.items():
+        if dim is not None:
+          dims[key] = axes.index(dim)
       return Distribution(','.join(keylist), vals, dims=dims)
     seen_keys = set()
     for i, key in enumerate(self._keylist):
-- 
2.43.0


From 6842d3e8eaa8f78f50eaf8d4ffa7b987c91b0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:18 +0000
Subject: [PATCH 24/97] fix: apply PD.prod along dimensions that are shared or
 not in key order

---
 probayes/pd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index d0f5cc3..317415b 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -332,20 +332,24 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
     prod_axes = []
     for i, key in enumerate(self._keylist):
       if key in keys:
         assert not self._aresingleton[i], \
             "Cannot apply product along scalar for key {}".format(key)
         if self._dims[key] not in prod_axes:
-          prod_axes.append(self.dims[key])
-          dim_delta += 1
+          prod_axes.append(self._dims[key])
+    for i, key in enumerate(self._keylist):
+      if key in keys:
         marg.update({key: key+"={}"})
         vals.update({key: {self[key].size}})
       else:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dim = self._dims[key]
+          assert dim not in prod_axes, \
+              "Cannot apply product along {} without {} sharing its dimension".\
+              format(keys, key)
+          dims.update({key: dim - sum(axis < dim for axis in prod_axes)})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     pscale = self._pscale
-- 
2.43.0


From d993c8a1c6d55a43ca11527bc837ea05e383d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:18 +0000
Subject: [PATCH 25/97] fix: count each factor of PD.prod once in the product
 pscale

---
 probayes/pd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 317415b..52bdd2d 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -357,9 +357,9 @@ class PD (Distribution):
     if pscale_product not in [0., 1.]:
       pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
       if iscomplex(pscale):
-        pscale_product += pscale*pscale_scaling 
+        pscale_product = pscale*pscale_scaling
       else:
-        pscale_product *= pscale**pscale_scaling 
+        pscale_product = pscale**pscale_scaling
     prob = np.sum(self.prob, axis=tuple(prod_axes)) if iscomplex(pscale) \
            else np.prod(self.prob, axis=tuple(prod_axes))
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale_product)
-- 
2.43.0


From 3aae07ac116698d54ab5c39666cf206514d3041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:18 +0000
Subject: [PATCH 26/97] fix: raise values to an exponent of zero in
 PD.expectation

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 52bdd2d..cb5dca2 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -388,7 +388,7 @@ class PD (Distribution):
     vals = collections.OrderedDict()
     for i, key in enumerate(self._keylist):
       if key in keys:
-        val = self[key] if not exponent else self[key]**exponent
+        val = self[key] if exponent is None else self[key]**exponent
         if self._aresingleton[i]:
           vals.update({key: val})
         else:
-- 
2.43.0


From b2465e72732ed454fbcc37e59d05cd1003e3142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:31 +0000
Subject: [PATCH 27/97] fix: scale the unit log offset in PD.prod as any other

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index cb5dca2..dd231a2 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -354,7 +354,7 @@ class PD (Distribution):
     name = margcond_str(marg, cond)
     pscale = self._pscale
     pscale_product = pscale
-    if pscale_product not in [0., 1.]:
+    if iscomplex(pscale) or pscale_product != 1.:
       pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
       if iscomplex(pscale):
         pscale_product = pscale*pscale_scaling
-- 
2.43.0


From 77ad2d5cd8086bc89517fcdb0bc200e2592133ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:09 +0000
Subject: [PATCH 28/97] fix: treat a single value as monotonic

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index aeefde2..c623774 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -415,7 +415,7 @@ def ismonotonic(vals):
     return True
   vals = np.ravel(vals)
   is_ge = vals[1:] >= vals[:-1]
-  if len(np.unique(is_ge)) == 1:
+  if len(np.unique(is_ge)) <= 1:
     return True
   return False
 
-- 
2.43.0


From 68bbc01f998bb4bf13114bab90c3db1c95527fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:22 +0000
Subject: [PATCH 29/97] fix: align the divisor by variable and value in PD
 division

---
 probayes/pd.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index dd231a2..5ad3f8a 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -5,7 +5,7 @@ import collections
 import numpy as np
 from probayes.named_dict import NamedDict
 from probayes.pd_utils import str_margcond, margcond_str, product, summate, \
-                              rekey_dict, ismonotonic
+                              rekey_dict, ismonotonic, same_values
 from probayes.vtypes import isscalar
 from probayes.pscales import eval_pscale, rescale, iscomplex
 from probayes.pscales import div_prob
@@ -588,17 +588,28 @@ class PD (Distribution):
       assert marg_scalars == set(other.marg.keys()), \
         "For divisor singletons, scalar marginals must match"
 
+    # Values must match and divisor dimensions must correspond to those of self
+    axes = collections.OrderedDict()
+    for key, val in other.items():
+      assert key in self._keyset and \
+             (key in self._marg) == (key in other.marg.keys()), \
+        "Divisor variable {} must feature likewise in dividend".format(key)
+      assert same_values(self[key], val), \
+        "Mismatch in values for {}".format(key)
+      if other.dims[key] is not None:
+        assert axes.setdefault(other.dims[key], self._dims[key]) == \
+               self._dims[key], "Incompatible dimensions for {}".format(key)
+    assert len(set(axes.values())) == len(axes), \
+      "Divisor dimensions must be distinct in dividend"
+
     # Prepare quotient marg and cond keys
     keys = other.marg.keys()
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict(self._cond)
-    re_shape = np.ones(self._ndim, dtype=int)
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key:marg.pop(key)})
-        if not self._aresingleton[i] and not divs:
-          re_shape[self.dims[key]] = other[key].size
       else:
         vals.update({key:self[key]})
 
@@ -609,7 +620,12 @@ class PD (Distribution):
 
     # Evaluate probabilities
     name = margcond_str(marg, cond)
-    divp = other.prob if divs else other.prob.reshape(re_shape)
+    divp = other.prob
+    if not divs:
+      re_shape = np.ones(self._ndim, dtype=int)
+      for dim in axes:
+        re_shape[axes[dim]] = other.shape[dim]
+      divp = np.transpose(divp, sorted(axes, key=axes.get)).reshape(re_shape)
     prob = div_prob(self._prob, divp, self._pscale, other.pscale)
     return PD(name, vals, dims=self._dims, prob=prob, pscale=self._pscale)
 
-- 
2.43.0


From a467bf8400dc63976ffdaac76bf419fd6823e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:28 +0000
Subject: [PATCH 30/97] fix: reshape all values to the default dimensionality
 in Distribution

---
 probayes/distribution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 93e5151..4783e64 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -143,6 +143,8 @@ class Distribution (NamedDict):
     for dim in self._dims.values():
       if dim is not None:
         self._ndim = max(self._ndim, dim+1)
+    if eval_dims:
+      self._ndim = self._aresingleton.count(False)
 
     # Corroborate vals and dims
     ones_ndim = np.ones(self._ndim, dtype=int)
@@ -174,10 +176,6 @@ class Distribution (NamedDict):
             "shape {} for key {}".format(values.shape, key)
         if eval_dims:
           self._dims.update({key: nonsingleton_count})
-          if len(self._shape) == nonsingleton_count:
-            self._shape.append(None)
-            self._ndim = len(self._shape)
-            ones_ndim = np.ones(self._ndim, dtype=int)
         else:
           assert key in self._dims, "Missing key {} in dims specification {}".\
               format(key, self._dims)
-- 
2.43.0


From 9879ef12bec9ea3706ea9f7f0323d6aeba093ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:28 +0000
Subject: [PATCH 31/97] fix: reject values of different sizes sharing a
 dimension

---
 probayes/distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 4783e64..b926f53 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -180,6 +180,9 @@ class Distribution (NamedDict):
           assert key in self._dims, "Missing key {} in dims specification {}".\
               format(key, self._dims)
         self._sizes.append(val_size)
+        assert self._shape[self._dims[key]] in (None, val_size), \
+            "Mismatch in size for key {} sharing dimension {}".\
+            format(key, self._dims[key])
         self._shape[self._dims[key]] = val_size
         vals_shape = np.copy(ones_ndim)
         vals_shape[self._dims[key]] = val_size
-- 
2.43.0


From ed2619df20215c5eedc96f9f64dcd8a524cdeaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:28 +0000
Subject: [PATCH 32/97] fix: read the names of variables within parentheses

---
 probayes/pd_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index c623774..afd0203 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -31,10 +31,10 @@ def str_margcond(name=None):
   if lt_paren >= 0 or rt_paren >= 0:
     assert lt_paren >= 0 and rt_paren > lt_paren, \
       "Unmatched parenthesis in name"
-    marg_str = marg_str[lt_paren:1:rt_paren]
+    marg_str = marg_str[lt_paren+1:rt_paren]
   cond_str = ''
   if '|' in marg_str:
-    split_str = name.split('|')
+    split_str = marg_str.split('|')
     assert len(split_str) == 2, "Ambiguous name: {}".format(name)
     marg_str, cond_str = split_str
   marg_strs = []
-- 
2.43.0


From 241aa2d39188fa369c47b8311486869f349907b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:28 +0000
Subject: [PATCH 33/97] fix: concatenate distributions that differ along one
 dimension in summate

---
 probayes/pd_utils.py | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index afd0203..ae7c0f8 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -334,8 +334,6 @@ def summate(*args):
   if not len(args):
     return None
   pscales = [arg.pscale for arg in args]
-  vals = [dict(arg) for arg in args]
-  probs = [arg.prob for arg in args]
 
   # Check pscales are the same
   pscale = pscales[0]
@@ -382,31 +380,23 @@ def summate(*args):
     return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
   # 2. all identical but in one dimension: concatenate in that dimension
-  # TODO: fix the remaining code of this function below
-  sum_vals = collections.OrderedDict(args[0])
-  sum_dims = [None] * (len(args) - 1)
-  for i, arg in enumerate(args):
-    if i == 0:
-      continue
-    for key in marg_keys:
-      if sum_dims[i-1] is not None:
-        continue
-      elif not arg.singleton(key):
-        key_vals = arg[key]
-        if key_vals.size == sum_vals[key].size:
-          if np.allclose(key_vals, sum_vals[key]):
-            continue
-        sum_dims[i-1] = arg.dims[key]
-  assert len(set(sum_dims)) > 1, "Cannot find unique concatenation axis"
-  sum_dim = sum_dims[0]
   sum_dims = args[0].dims
-  key = marg_keys[sum_dim]
-  sum_prob = np.copy(probs[0])
-  for i, val in enumerate(vals):
-    if i == 0:
-      continue
-    sum_vals[key] = np.concatenate([sum_vals[key], val[key]], axis=sum_dim)
-    sum_prob = np.concatenate([sum_prob, probs[i]], axis=sum_dim)
+  args = [args[0]] + [arg.redim(sum_dims) for arg in args[1:]]
+  axes = set()
+  for arg in args[1:]:
+    for key in sum_keys:
+      if not same_values(arg[key], args[0][key]):
+        assert key in marg_keys, "Mismatch in values for {}".format(key)
+        axes.add(sum_dims[key])
+  assert len(axes) == 1 and None not in axes, \
+      "Cannot find unique concatenation axis"
+  sum_dim = list(axes)[0]
+  sum_vals = collections.OrderedDict(args[0])
+  for key in sum_keys:
+    if sum_dims[key] == sum_dim:
+      assert key in marg_keys, "Cannot concatenate along {}".format(key)
+      sum_vals[key] = np.concatenate([arg[key] for arg in args], axis=sum_dim)
+  sum_prob = np.concatenate([arg.prob for arg in args], axis=sum_dim)
   return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From ababa10c1e7075d4d92ca4a2aaa6959a3e7efabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:01 +0000
Subject: [PATCH 34/97] fix: separate the conditional variables named by
 PD.remarginalise

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 5ad3f8a..155a3d5 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -692,7 +692,7 @@ class PD (Distribution):
           marg_str[-1] = key + "=[]"
     rem_name = ','.join(marg_str)
     if '|' in self._name:
-      rem_name += self._name.split('|')[1]
+      rem_name += '|' + self._name.split('|')[1]
     cond_keys = list(self._cond.keys())
     if cond_keys:
       for key in cond_keys:
-- 
2.43.0


From d90d10392f3dd98f469e2d3e6e8fdacff2a289ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:01 +0000
Subject: [PATCH 35/97] fix: keep the dimensions of conditional variables in
 PD.remarginalise

---
 probayes/pd.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 155a3d5..80d5b51 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -672,9 +672,16 @@ class PD (Distribution):
         indices[dim] = np.maximum(0, np.minimum(len(edges)-1, \
                                      np.digitize(rav_vals, edges)-1))
 
+    # Dimensions of conditional variables follow those of the distribution
+    cond_dims = sorted(set(self._dims[key] for key in self._cond.keys()
+                           if self._dims[key] is not None))
+    for dim in cond_dims:
+      indices.append(np.ravel(np.indices(self._shape)[dim]))
+    shape = list(shape) + [self._shape[dim] for dim in cond_dims]
+
     # Iterate through every self.prob value
     rav_prob = np.ravel(rescale(self._prob, self._pscale, 1.))
-    rem_prob = np.zeros(distribution.shape, dtype=float)
+    rem_prob = np.zeros(shape, dtype=float)
     for i in range(self.size):
       rem_idx = tuple([idx[i] for idx in indices])
       rem_prob[rem_idx] += rav_prob[i]
@@ -697,7 +704,10 @@ class PD (Distribution):
     if cond_keys:
       for key in cond_keys:
         rem_vals.update({key: self[key]})
-        rem_dims.update({key: self._dims[key]})
+        dim = self._dims[key]
+        if dim is not None:
+          dim = distribution.ndim + cond_dims.index(dim)
+        rem_dims.update({key: dim})
 
     return PD(rem_name, rem_vals, dims=rem_dims,
               prob=rescale(rem_prob, 1., self._pscale),
-- 
2.43.0


From 947a6a36af031ccea5ca0b37cc1fdba6e2237556 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 18:57:13 +0000
Subject: [PATCH 36/97] fix: weight the Hastings ratio by
 q(pred|succ)/q(succ|pred) on any scale

---
 probayes/sp_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index f2fe3d5..1b60d0f 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -58,10 +58,9 @@ def hastings_scores(opqr, pscale=None):
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
       revp = rescale(revp.prob, pscale, 1.)
       if revp <= 0.:
-        return 1.
-      return min(1., div_prob(succ.prob * prop, 
-                              pred.prob * revp, 
-                              pscale, pscale, pscale=1.))
+        return 0.
+      ratio = div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.)
+      return min(1., ratio * revp / prop)
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From 7d54508b2a3c28db062c545c15bea2b43c107ecd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 18:57:13 +0000
Subject: [PATCH 37/97] fix: honour a zero log offset given to Prob.set_prob

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 371f837..1f3f980 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -133,7 +133,7 @@ class Prob (Expression, SympyProb):
     pscale is used.
     """
     pscale = None if 'pscale' not in kwds else kwds.pop('pscale')
-    self.pscale = pscale or self._pscale
+    self.pscale = self._pscale if pscale is None else pscale
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
-- 
2.43.0


From f662fdc4972b12d4b3fef2cd5fc245d6c204aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 18:57:13 +0000
Subject: [PATCH 38/97] fix: rescale to the scale requested of Prob.eval_prob

---
 probayes/prob.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 1f3f980..046e525 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -375,8 +375,8 @@ class Prob (Expression, SympyProb):
       prob = self._prob
 
     # Optionally rescale
-    if pscale:
-      return self.rescale(prob, kwds['pscale'])
+    if pscale is not None:
+      return self.rescale(prob, pscale=pscale)
     return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 1333eef8ea462c7e6f87cd99b1995afa0d299958 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 18:57:13 +0000
Subject: [PATCH 39/97] fix: accept a variable type given without a variable
 set to RV

---
 probayes/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 5c32a68..b8aaa79 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -105,7 +105,8 @@ class Variable (Icon):
     self.name = name
 
     # Allow positions of vtype and vset to be swapped
-    if isinstance(vtype, (list, tuple, set, range, np.ndarray)):
+    if isinstance(vtype, (list, tuple, set, range, np.ndarray)) or \
+        isinstance(vset, type):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-- 
2.43.0


From 6f52495342b7ec23b332194e518fcb4af8807613 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 18:57:13 +0000
Subject: [PATCH 40/97] fix: use the magnitude of the derivative of decreasing
 transformations

---
 probayes/rv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 96ad54c..dba9dd0 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -159,8 +159,8 @@ class RV (Variable, Prob):
       return
     prob = rescale(self._nlhv, 'log', self._pscale)
     if self._ufun is not None and self.no_ucov:
-      prob = prob + sympy.log(self._ufun.derinv.expr) if self._logp else \
-             prob * self._ufun.derinv.expr
+      derinv = sympy.Abs(self._ufun.derinv.expr)
+      prob = prob + sympy.log(derinv) if self._logp else prob * derinv
     super().set_prob(prob)
     self.set_tran(prob)
     self.__def_prob = True
-- 
2.43.0


From a54ceaba61dce91c35d9a8aa78f3bf60bb348946 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 18:57:13 +0000
Subject: [PATCH 41/97] fix: interpret Bernoulli probabilities on the scale of
 the variable

---
 probayes/rv.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index dba9dd0..5ee9093 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -144,10 +144,15 @@ class RV (Variable, Prob):
 
     # Reassign non-0.5 Bernoulli probabilities to a formal distribution
     if self._vtype in VTYPES[bool] and self.isscalar:
-      prob = float(self._prob)
-      if not np.isclose(prob, 0.5):
-        super().set_prob(bernoulli_prob(self.icon, bias=prob))
-        super().set_sfun(bernoulli_sfun, bias=prob)
+      bias = rescale(float(self._prob), self._pscale, 1.)
+      if not np.isclose(bias, 0.5):
+        prob = bernoulli_prob(self.icon, bias=bias)
+        if self._logp:
+          prob = sympy.log(prob) + rescale(1., 1., self._pscale)
+        elif self._pscale != 1.:
+          prob = prob * rescale(1., 1., self._pscale)
+        super().set_prob(prob)
+        super().set_sfun(bernoulli_sfun, bias=bias)
 
 #-------------------------------------------------------------------------------
   def _default_prob(self):
-- 
2.43.0


From cad9c1be21425fe0286051b8f0abcc849bf90371 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 42/97] fix: treat symbol-free transformed densities as scalar
 probabilities

---
 probayes/rv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/rv.py b/probayes/rv.py
index 5ee9093..257cc69 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -166,6 +166,8 @@ class RV (Variable, Prob):
     if self._ufun is not None and self.no_ucov:
       derinv = sympy.Abs(self._ufun.derinv.expr)
       prob = prob + sympy.log(derinv) if self._logp else prob * derinv
+      if not derinv.free_symbols:
+        prob = float(prob)
     super().set_prob(prob)
     self.set_tran(prob)
     self.__def_prob = True
-- 
2.43.0


From beea3b2c20489ea7a357360f22c00e2df55b6879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:17 +0000
Subject: [PATCH 43/97] fix: sample arrays of successors from transition
 matrices

---
 probayes/rv_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index b6087b9..8cc2215 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -71,7 +71,8 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
   succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
-  return vset[succ_idx], pred_idx, succ_idx
+  succ_vals = vset[succ_idx] if isscalar(succ_idx) else np.array(vset)[succ_idx]
+  return succ_vals, pred_idx, succ_idx
 
 #-------------------------------------------------------------------------------
 def lookup_square_matrix(col_vals, row_vals, sq_matrix, 
-- 
2.43.0


From 96f24d58f29983691e3f07f6e880e41fc2cef8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:17 +0000
Subject: [PATCH 44/97] fix: keep the variable set given to uniform_prob

---
 probayes/rv_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index 8cc2215..54cd81c 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -22,9 +22,11 @@ def uniform_prob(*args, prob=None, inside=None, pscale=1.):
   # Set inside function by vtype if not specified
   if not callable(inside):
     if vtype in VTYPES[float]:
-      inside = lambda x: np.logical_and(x >= min(inside), x <= max(inside))
+      lo, hi = min(inside), max(inside)
+      inside = lambda x: np.logical_and(x >= lo, x <= hi)
     else:
-      inside = lambda x: np.isin(x, inside)
+      vset = list(inside)
+      inside = lambda x: np.isin(x, vset)
 
   # If scalar, check within variable set
   p_zero = NEARLY_NEGATIVE_INF if use_logs else 0.
-- 
2.43.0


From bd534c990e7b461c9b7df45b05b9e56e285f588e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:17 +0000
Subject: [PATCH 45/97] fix: sample successors by probabilities whatever the
 scale of the matrix

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 257cc69..07c4494 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -415,7 +415,7 @@ class RV (Variable, Prob):
       if isunitset(succ_vals):
         succ_vals, pred_idx, succ_idx = matrix_cond_sample(pred_vals, 
                                                            succ_vals, 
-                                                           prob=prob, 
+                                                           prob=rescale(prob, self._pscale, 1.),
                                                            vset=self._vset) 
         kwargs.update({'pred_idx': pred_idx, 'succ_idx': succ_idx})
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
-- 
2.43.0


From 915bfc824addec6c078407aa7b9ec1fcd104fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:17 +0000
Subject: [PATCH 46/97] fix: evaluate scalar transitions on the scale of the
 variable

---
 probayes/rv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 07c4494..79af3f9 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -473,8 +473,8 @@ class RV (Variable, Prob):
       cond = uniform_prob(pred_vals,
                           succ_vals, 
                           prob=float(prob), 
-                          inside=self._inside) 
-                  
+                          inside=self._inside,
+                          pscale=self._pscale)
 
     # Handle discrete non-callables
     elif not self._tran.callable:
-- 
2.43.0


From b68ff36a4dacb51ecce10e7cadc24c0228f47c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:17 +0000
Subject: [PATCH 47/97] fix: sample successors of scalar transitions by inverse
 CDF

---
 probayes/rv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 79af3f9..ff6bd25 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -398,10 +398,10 @@ class RV (Variable, Prob):
             "Inverse CDF sampling for scalar probabilities unavailable for " + \
             "{} data type".format(self._vtype)
         cdf_val = list(succ_vals)[0]
-        lo, hi = min(self._limits), max(self._limits)
-        succ_val = lo*(1.-cdf_val) + hi*cdf_val
-        if self._ufun is not None:
-          succ_val = self.ufun[-1](succ_val)
+        lo, hi = min(self._ulims), max(self._ulims)
+        succ_vals = lo*(1.-cdf_val) + hi*cdf_val
+        if self._ufun is not None and not self.no_ucov:
+          succ_vals = self.ufun[-1](succ_vals)
 
       prob = self._tran() if self._tran is not None else None
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
-- 
2.43.0


From 0a642112041c88396a8df5fc318d2f123acb5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:17 +0000
Subject: [PATCH 48/97] fix: sample successors of callable transitions by
 inverse CDF

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index ff6bd25..b044a29 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -430,7 +430,7 @@ class RV (Variable, Prob):
         assert isscalar(pred_vals), \
             "Successor sampling only possible with scalar predecessors"
         succ_vals = list(succ_vals)[0]
-        if type(succ_vals) in VTYPES[int] or type(succ_vals) in VTYPES[np.uint]:
+        if type(succ_vals) in VTYPES[int]:
           lo, hi = min(self._ulims), max(self._ulims)
           kwds.update({self._name+"'": np.array([lo, hi], dtype=float)})
           lohi = self._tfun[0](**kwds)
-- 
2.43.0


From 861716a4e57fdef34e436d1e78f0bc28cc73b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:28 +0000
Subject: [PATCH 49/97] fix: give no dimension to continuous variables sampled
 by default

---
 probayes/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index ba2ee06..097acf7 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -8,7 +8,8 @@ import numpy as np
 
 from probayes.variable import Variable
 from probayes.variable_utils import parse_as_str_dict
-from probayes.vtypes import isscalar, isunitsetint, issingleton, isdimensionless
+from probayes.vtypes import VTYPES, isscalar, isunitsetint, issingleton, \
+                            isdimensionless
 from probayes.pscales import real_sqrt
 from probayes.ops import and_op, or_op
 from probayes.expression import Expression
@@ -418,7 +419,9 @@ class Field (NX_UNDIRECTED_GRAPH):
     for i, key in enumerate(self._keylist):
       new_dim = False
       if values_ref[key][1] is None: # i.e. not shared
-        if not isdimensionless(values[key]):
+        scalar_default = values[key] is None and \
+                         self._vars[key].vtype in VTYPES[float]
+        if not isdimensionless(values[key]) and not scalar_default:
           dims[key] = ndim
           new_dim = True
         seen_keys.add(key)
-- 
2.43.0


From 1f5b7661f4ed1655e3fb6275963c9a54c9646c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:11 +0000
Subject: [PATCH 50/97] fix: reserve the dimension shared by a scalar and an
 array

---
 probayes/field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 097acf7..2fd16be 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -431,8 +431,7 @@ class Field (NX_UNDIRECTED_GRAPH):
         for subkey in subkeys:
           dims[subkey] = ndim
           seen_keys.add(subkey)
-        if not isdimensionless(values[val_ref[0]][val_ref[1]]):
-          new_dim = True
+        new_dim = not all([isdimensionless(val) for val in values[val_ref[0]]])
       if new_dim:
         ndim += 1
 
-- 
2.43.0


From acb50bad771dd8097802f0dd7225b58230adaaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:11 +0000
Subject: [PATCH 51/97] fix: honour a zero log offset requested of rv_prod_rule

---
 probayes/rf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 484e4eb..1737a1d 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -13,7 +13,7 @@ def rv_prod_rule(*args, rvs, pscale=None):
   """
   values = args[0]
   pscales = [rv.pscale for rv in rvs]
-  pscale = pscale or prod_pscale(pscales)
+  pscale = prod_pscale(pscales) if pscale is None else pscale
   use_logs = iscomplex(pscale)
   probs = [rv.eval_prob(values[rv.name]) for rv in rvs]
   prob, pscale = prod_rule(*tuple(probs),
-- 
2.43.0


From 07535cafbbd89bde91fe9197d1bd0727eb80e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:05 +0000
Subject: [PATCH 52/97] fix: use only the methods of instantiated scipy
 distributions

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 046e525..75dd6a4 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -210,7 +210,7 @@ class Prob (Expression, SympyProb):
 
       # Iterate available methods
       for method in SCIPY_DIST_METHODS:
-        if hasattr(self._prob, method):
+        if hasattr(self._expr, method):
           call = functools.partial(Expression._partial_call, self, 
                                    getattr(self._expr, method),
                                    *self._args, **self._kwds)
-- 
2.43.0


From 2a31acd3118f3a5241162304a341f06354630e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:05 +0000
Subject: [PATCH 53/97] fix: evaluate multivariate scipy probabilities in the
 order of the variables

---
 probayes/prob.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 75dd6a4..bb783d9 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -347,15 +347,8 @@ class Prob (Expression, SympyProb):
       if self.__isscipy:
         prob = self._partials['logp'] if self._logp else self._partials['prob']
         if self.issmvar: # for mvar, convert dictionaries to arrays
-          vals = list(args[0].values())
-          if len(vals) == 1:
-            vals = np.array(vals)
-          else:
-            vals = vals[::-1]
-            if len(vals) > 2:
-              vals = vals[1:] + [vals[0]]
-            vals = np.stack(np.meshgrid(*tuple(vals)), axis=-1)
-          prob = prob(vals)
+          vals = np.broadcast_arrays(*tuple(args[0].values()))
+          prob = prob(np.stack(vals, axis=-1))
         else:
           prob = prob(*args)
 
-- 
2.43.0


From 187b3b52c6c0c8982375d13d93578dcf16954f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:32 +0000
Subject: [PATCH 54/97] fix: give no dimension to variables sampled jointly as
 scalars

---
 probayes/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 2fd16be..fa6ecb2 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -428,10 +428,10 @@ class Field (NX_UNDIRECTED_GRAPH):
       elif key not in seen_keys:
         val_ref = values_ref[key]
         subkeys = val_ref[0].split(',')
+        new_dim = not all([isdimensionless(val) for val in values[val_ref[0]]])
         for subkey in subkeys:
-          dims[subkey] = ndim
+          dims[subkey] = ndim if new_dim else None
           seen_keys.add(subkey)
-        new_dim = not all([isdimensionless(val) for val in values[val_ref[0]]])
       if new_dim:
         ndim += 1
 
-- 
2.43.0


From bcf3f37cf5f510028823a272c8b7252aa3ae75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 55/97] fix: set the deltas of the variables from a dictionary

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index fa6ecb2..a8e8e5a 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -267,7 +267,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Handle deltas and dictionaries
     if isinstance(self._delta, dict):
       self._delta = self._delta_type(**self._delta)
-    if isinstance(delta, self._delta_type):
+    if isinstance(self._delta, self._delta_type):
       assert not args, \
         "Optional args prohibited for dict/delta instance inputs"
       for i, var in enumerate(self._varlist):
-- 
2.43.0


From 66f79b8783bb5106941c8733e87df2b5c0a2c043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 56/97] fix: evaluate deltas passed to Field.eval_delta

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index a8e8e5a..37090ba 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -491,7 +491,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       delta = delta()
     elif isinstance(delta, self._delta_type):
       delta_dict = collections.OrderedDict()
-      variables = self.ret_vars(aslist=True)
+      variables = self._varlist
       for i, key in enumerate(self._keylist):
         delta_dict.update({key: variables[i].eval_delta(delta[i])})
       delta = self._delta_type(**delta_dict)
-- 
2.43.0


From 190e92400d071ded9d5083e7f249502ffec3b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 57/97] fix: accept fields in Field.subfield

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 37090ba..b5b4f78 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -616,7 +616,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     variables = []
     for vertex in vertices:
       if isinstance(vertex, Field):
-        variables += [vertex.ret_vars(aslist=True)]
+        variables += vertex.varlist
       elif isinstance(vertex, Variable):
         variables += [vertex]
       elif isinstance(vertex, str):
-- 
2.43.0


From a26833097723ed49487e828246629e939de9a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 58/97] fix: include the unscaled deltas of variables in
 spherical deltas

---
 probayes/field.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index b5b4f78..08e855a 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -504,14 +504,13 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Rule out possibility of all variables contained in unscaling argument
     assert isinstance(delta, tuple), \
         "Unknown delta type: {}".format(delta)
-    unscale = {} if not self._delta_args else self._delta_args
+    unscale = {} if not self._delta_args else self._delta_args[0]
     if not len(self._spherise):
       return self._delta_type(**unscale)
 
     # Spherical version
     delta = delta[0]
     spherise = self._spherise
-    keys = self._spherise.keys()
     rss = real_sqrt(np.sum(np.array(list(spherise.values()))**2))
     if self._delta_kwds['scale']:
       delta *= rss
@@ -520,7 +519,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     deltas = (deltas * delta) / rss_deltas
     delta_dict = collections.OrderedDict()
     idx = 0
-    for i, key in enumerate(keys):
+    for i, key in enumerate(self._keylist):
       if key in unscale:
         val = unscale[key]
       else:
-- 
2.43.0


From 0d7ab6eb55ae544229d49a4eeb23abb08d7d1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 59/97] fix: evaluate the delta of the only variable of a field

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 08e855a..16ee5fc 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -475,7 +475,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       if self._delta is None:
         variables = list(self._varlist)
         if len(variables) == 1 and variables[0]._delta is not None:
-          return variables[0]._delta
+          return self._delta_type(variables[0].eval_delta())
         return None
       elif isinstance(self._delta, Expression):
         delta = self._delta()
-- 
2.43.0


From 959dc967476840f6630f592b5a26daa17c5cb92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 60/97] fix: evaluate deltas before applying them to a field

---
 probayes/field.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 16ee5fc..bcece05 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -533,13 +533,14 @@ class Field (NX_UNDIRECTED_GRAPH):
 
 #-------------------------------------------------------------------------------
   def apply_delta(self, values, delta=None):
-    delta = delta or self._delta
+    if delta is None:
+      delta = self.eval_delta()
     if delta is None:
       return values
+    variables = self._varlist
+    if len(variables) == 1 and isinstance(delta, variables[0].Delta):
+      delta = self._delta_type(delta)
     if not isinstance(delta, self._delta_type):
-      variables = self._varlist
-      if len(variables) == 1 and isinstance(delta, variables[0].delta):
-        return variables[0].apply_delta(values, delta)
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
     bound = False if 'bound' not in self._delta_kwds \
-- 
2.43.0


From c56e64db559e696500605cf8d1b9d56f8c2a096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 61/97] fix: apply callable deltas of variables

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index b8aaa79..3b99be1 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -616,7 +616,7 @@ class Variable (Icon):
     if delta is None:
       return None
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta
       delta = delta()
     if isinstance(delta, self._Delta):
@@ -669,7 +669,7 @@ class Variable (Icon):
     default = delta is None
     delta = self._delta if default else delta
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta(values)
       delta = delta()
     elif self._vtype not in VTYPES[bool]:
-- 
2.43.0


From 8c72af0b0dd7346e6b424f9d8a0fc5c871350471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 62/97] fix: flip Boolean scalars with the probability of the
 delta

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 3b99be1..79028bb 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -690,8 +690,8 @@ class Variable (Icon):
         assert len(delta) == 1, "Tuple/list delta must contain one element"
         delta = delta[0]
         if isscalar(values) or orand:
-          vals = values if delta > np.random.uniform() > 0.5 \
-                 else np.logical_not(values)
+          vals = np.logical_not(values) if delta > np.random.uniform() \
+                 else values
         else:
           flip = delta > np.random.uniform(size=values.shape)
           vals = np.copy(values)
-- 
2.43.0


From cbf924297da30ad8ac06494ede9ca4d6e0a7719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 63/97] fix: keep correlated deltas scalar

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 06180db..155a8a8 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -344,7 +344,7 @@ class RF (Field, Prob):
     if self._tfun is None or self._tfun.isscalar:
       return delta
     elif not self._tfun.callable:
-      delta = self._tfun().dot(np.array(delta, dtype=float))
+      delta = self._tfun().dot(np.ravel(np.array(delta, dtype=float)))
       return self._delta_type(*delta)
     else:
       delta = self._tfun(delta)
-- 
2.43.0


From c5d19c9dbba528279fd74c8a69226f153d43f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:57 +0000
Subject: [PATCH 64/97] fix: keep conditional samples within the limits of the
 variable

---
 probayes/cond_cov.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 1e7621f..e353c55 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -16,7 +16,6 @@ class CondCov:
   _stdv = None # Conditional standard deviations
   _coef = None # Regression coefficients
   _lims = None  # Recentered limits (Nx2 array)
-  _cdfs = None  # cdf-limits
 
 #-------------------------------------------------------------------------------
   def __init__(self, mean, cov, lims):
@@ -35,8 +34,6 @@ class CondCov:
       cov = np.delete(np.delete(self._cov, (i), axis=1), (i), axis=0)
       self._coef[i] = ru.dot(np.linalg.inv(cov))
       self._stdv[i] = np.sqrt(self._cov[i, i] - float(self._coef[i].dot(ll)))
-    self._cdfs = np.array([scipy.stats.norm.cdf(lim, loc=0., scale=self._stdv[i]) \
-                          for i, lim in enumerate(self._lims)])
 
 #-------------------------------------------------------------------------------
   def interp(self, *args, cond_pdf=False):
@@ -54,11 +51,12 @@ class CondCov:
         dmu[i] = arg - self._mean[i]
     assert idx is not None, "No variable specified for interpolation"
     dmu = np.delete(dmu, (idx), axis=0)
-    lims = self._cdfs[idx]
+    offs = float(self._coef[idx].dot(dmu))
+    mean = self._mean[idx] + offs
+    stdv = self._stdv[idx]
+    lims = scipy.stats.norm.cdf(self._lims[idx], loc=offs, scale=stdv)
     number = list(args[idx])[0]
     cdf = uniform(lims[0], lims[1], number)
-    mean = self._mean[idx] + float(self._coef[idx].dot(dmu))
-    stdv = self._stdv[idx]
     vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
     if not cond_pdf:
       return vals
-- 
2.43.0


From d4206339dd081a6f60d5c66d9c2642e22be20464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:16 +0000
Subject: [PATCH 65/97] fix: step fields conditionally in the order of their
 variables

---
 probayes/rf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 155a8a8..392c438 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -435,7 +435,9 @@ class RF (Field, Prob):
         return self._tfun(values, *args, **kwds)
 
     # Support variable sampling one-or-more at-a-time
-    succ_vals = collections.OrderedDict(values)
+    succ_vals = collections.OrderedDict([(key, values[key]) \
+                    for key in self._keylist if key in values])
+    succ_vals.update(values)
 
     # For conditional functions, iterate through keys
     assert isinstance(self._tfun, CF), "Callable conditionals must be CF type"
-- 
2.43.0


From 5faec853097192437d9ac437577b874760fee500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:35 +0000
Subject: [PATCH 66/97] fix: remap all arguments of expressions before passing
 any

---
 probayes/expression.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 0000d44..2721b70 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -420,24 +420,30 @@ class Expression:
 
     # Callables with order wrapper
     if self.__order:
+      vals = {key: kwds.pop(key) for key in self.__order.keys()}
       for key, val in self.__order.items():
         if type(val) is int:
-          args[val] = kwds.pop(key)
+          args[val] = vals[key]
         elif val is None:
-          kwds.pop(key)
+          pass
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          kwds.update({val: vals[key]})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
       return expr(*tuple(args), **kwds)
 
     # Callables with delta wrapper
+    vals = dict(kwds)
+    for key in self.__delta.keys():
+      kwds.pop(key, None)
+      if key[-1] == "'":
+        kwds.pop(key[:-1], None)
     for key, val in self.__delta.items():
       if key[-1] != "'":
-        value = kwds.pop(key)
+        value = vals[key]
       else:
-        value = kwds.pop(key) - kwds.pop(key[:-1])
+        value = vals[key] - vals[key[:-1]]
       if type(val) is int:
         args[val] = value
       elif val is None:
-- 
2.43.0


From 1f6d4c91954dbd4e1dc7c6b15859980fb83dfa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:35 +0000
Subject: [PATCH 67/97] fix: remap all arguments of functions before passing
 any

---
 probayes/func.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/probayes/func.py b/probayes/func.py
index b299ede..1c493b7 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -292,24 +292,30 @@ class Func:
 
     # Callables with order wrapper
     if self.__order:
+      vals = {key: kwds.pop(key) for key in self.__order.keys()}
       for key, val in self.__order.items():
         if type(val) is int:
-          args[val] = kwds.pop(key)
+          args[val] = vals[key]
         elif val is None:
-          kwds.pop(key)
+          pass
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          kwds.update({val: vals[key]})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
       return func(*tuple(args), **kwds)
 
     # Callables with delta wrapper
+    vals = dict(kwds)
+    for key in self.__delta.keys():
+      kwds.pop(key, None)
+      if key[-1] == "'":
+        kwds.pop(key[:-1], None)
     for key, val in self.__delta.items():
       if key[-1] != "'":
-        value = kwds.pop(key)
+        value = vals[key]
       else:
-        value = kwds.pop(key) - kwds.pop(key[:-1])
+        value = vals[key] - vals[key[:-1]]
       if type(val) is int:
         args[val] = value
       elif val is None:
-- 
2.43.0


From 24127345a683ca5274e0ad4cbffb5777ff3f771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:48 +0000
Subject: [PATCH 68/97] fix: count the expressions of a tuple

---
 probayes/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/expression.py b/probayes/expression.py
index 2721b70..9c7b547 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -492,6 +492,8 @@ class Expression:
     """ Returns the number of expressions in the tuple set by set_expr() """
     if not self._ismulti:
       return None
+    if isinstance(self._expr, (dict, tuple)):
+      return len(self._expr)
     return len(self._partials)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 67b3b4c67aeade1b0767d885c6e1fa2206fde1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:48 +0000
Subject: [PATCH 69/97] fix: report the keys of a multiple expression

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 9c7b547..c524d00 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -467,7 +467,7 @@ class Expression:
    args and kwds. """
    assert not self._ismulti, \
        "Cannot call with multiple expression, use Expression[{}]()".format(
-           list(self._keys()))
+           list(self._keys))
    return self._partials[None](*args, **kwds)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 1287ef55a4d3e78a9dbd474d3fef940dcdcd0d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:06 +0000
Subject: [PATCH 70/97] fix: order the symbols of expressions by name

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 8e268b9..f2940bb 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -19,7 +19,7 @@ def collate_symbols(expr):
   assert isinstance(expr, sympy.Expr), \
     "Input type not Expr type but: {}".format(expr)
   symbols = collections.OrderedDict()
-  for putative_symbol in expr.free_symbols:
+  for putative_symbol in sorted(expr.free_symbols, key=str):
     symbol = putative_symbol
     while hasattr(symbol, 'symbol') and \
         hasattr(symbol, 'name'):
-- 
2.43.0


From 4bfaa2f7797b1b5bef57e3c43625f5c99beaf42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:42 +0000
Subject: [PATCH 71/97] fix: walk no further than the samples returned

---
 probayes/sp.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index 35bb45e..02b0666 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -3,6 +3,7 @@
 #-------------------------------------------------------------------------------
 import collections
 import inspect
+import itertools
 import warnings
 from probayes.sd import SD
 from probayes.expression import Expression
@@ -287,11 +288,6 @@ class SP (SD):
         "No stop specification set - this walk may proceed indefinitely")
     if stop is None: 
       return collections.deque([sample for sample in sampler])
-    steps = collections.deque()
-    for sample in sampler:
-      if len(steps) >= stop:
-        break
-      steps.append(sample)
-    return steps
+    return collections.deque(itertools.islice(sampler, stop))
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 352d12b668d97a9a7210acd126ecbeb326d3e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:42 +0000
Subject: [PATCH 72/97] fix: evaluate reverse transition probabilities by the
 reverse function

---
 probayes/rf.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 392c438..6845e26 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -530,12 +530,8 @@ class RF (Field, Prob):
     name = margcond_str(marg, cond)
     vals = collections.OrderedDict(dist)
     dims = dist.dims
-    # This next line needs to be modified to handle new API
-    """
     prob = dist.prob if self._sym_tran or self._tran is None \
-           else self._tran[1](dist)
-    """
-    prob = dist.prob
+           else self.eval_tran(vals, reverse=True)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
 
-- 
2.43.0


From 090ef271883b0c3d4919dc59bc19ec3bf221ab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:42 +0000
Subject: [PATCH 73/97] fix: adopt the symmetry of the transition of a subfield

---
 probayes/sd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/sd.py b/probayes/sd.py
index 77781c0..4e79f92 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -102,6 +102,7 @@ class SD (Dependence, RF):
     self._tran_obj = _tran
     self.set_prop_obj(self._tran_obj)
     self._tran = _tran.tran
+    self._sym_tran = _tran._sym_tran
     return self._tran
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 5bd2066e2fad29deffc1962f34a27f53bf0e0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:55 +0000
Subject: [PATCH 74/97] fix: accept values without suffix

---
 probayes/sd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 0fe7761..3b9f5c9 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -10,7 +10,7 @@ def desuffix(values, suffix="'"):
   suffix_found = any([key[-1] == suffix for key in values.keys()])
   vals = collections.OrderedDict()
   if not suffix_found:
-    vals.update({values})
+    vals.update(values)
     return vals
   for key, val in values.items():
     vals_key = key if key[-1] != suffix else key[:-1]
-- 
2.43.0


From 9fdf67b793d709a676a1a8e22d1956212646d0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:55 +0000
Subject: [PATCH 75/97] fix: keep the suffix flag from the evaluation of
 probabilities

---
 probayes/sd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/sd.py b/probayes/sd.py
index 4e79f92..0038cce 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -240,6 +240,7 @@ class SD (Dependence, RF):
       prop = self.propose(vals, **kwds)
 
     # Evaluation of probability
+    kwds.pop('suffix', None)
     vals = desuffix(prop)
     if len(args) > 1:
       assert isinstance(args[1], dict),\
-- 
2.43.0


From e903fcf7af67a899d44f4bbc693a0af426669538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:04 +0000
Subject: [PATCH 76/97] fix: pass arguments to lambdas taking them by name only

---
 probayes/expression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index c524d00..88acaaa 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -5,6 +5,7 @@ that an expression may comprise a constant by not being callable, and therefore
 not all expressions are functions.
 '''
 import types
+import inspect
 import collections
 import functools
 import sympy
@@ -398,8 +399,8 @@ class Expression:
 
     # Callables with neither order nor delta are straightforwards
     if not self.__order and not self.__delta:
-      if self._islambda and hasattr(expr, '__code__') and \
-          not expr.__code__.co_argcount: # Allow argument-free lambdas
+      if self._islambda and \
+          not inspect.signature(expr).parameters: # Allow argument-free lambdas
         assert not len(args), \
             "Unexpected entering of positional arguments: {}".format(args)
         return expr()
-- 
2.43.0


From b3af21540b0b8279839405d95023e9995d82c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:30 +0000
Subject: [PATCH 77/97] fix: read proposal probabilities on the scale of the
 proposal

---
 probayes/sp_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index 1b60d0f..75289bc 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -49,14 +49,14 @@ def hastings_scores(opqr, pscale=None):
     return None
   else:
     assert isscalar(prop.prob), "Proposal probability non-scalar"
-    prop = rescale(prop.prob, pscale, 1.)
+    prop = rescale(prop.prob, prop.pscale, 1.)
     if prop <= 0.:
       return None
     if revp is None:
       return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
-      revp = rescale(revp.prob, pscale, 1.)
+      revp = rescale(revp.prob, revp.pscale, 1.)
       if revp <= 0.:
         return 0.
       ratio = div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.)
-- 
2.43.0


From b9b3cea0aaf0c9ac9079e15889f9bcce2a805678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:08 +0000
Subject: [PATCH 78/97] fix: combine parallel dependences on the scale of the
 probabilities returned

---
 probayes/sd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 3b9f5c9..4c047e0 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -46,7 +46,7 @@ def arch_prob(arch, dims, **kwds):
   if serial:
     return probs[-1]
   pscales = [subarch.pscale for subarch in arch]
-  prob, pscale = prod_rule(*tuple(probs), pscales=pscales)
+  prob, _ = prod_rule(*tuple(probs), pscales=pscales, pscale=1.)
   return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 19b648db6f6f8f393826bf80b3d355e022737875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:08 +0000
Subject: [PATCH 79/97] fix: accept several fields conditioned on the last

---
 probayes/dependence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 8c60941..69905fc 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -94,7 +94,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
         for var in variables:
           NX_DIRECTED_GRAPH.add_node(self, var)
         return self._refresh(fields[0])
-      leafs_vars = fields[0].varlist
+      leafs_vars = list(fields[0].varlist)
       roots_vars = fields[-1].varlist
       if len(fields) > 2:
         for field in fields[1:-1]:
@@ -112,7 +112,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
           NX_DIRECTED_GRAPH.add_edge(self, roots_var, leafs_var)
       if len(fields) == 2:
         return self._refresh(fields[0], fields[1])
-      return self._refresh(self._field_cls(*tuple(leafs_var)), fields[-1])
+      return self._refresh(self._field_cls(*tuple(leafs_vars)), fields[-1])
 
     # At this point, all arguments must be dependences
     assert all(arg_aredep), "Cannot mix Dependences with other input types"
-- 
2.43.0


From 69af7b8a841ed1b223e5a93cfa4507cc1063b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:08 +0000
Subject: [PATCH 80/97] fix: combine random variables with dependences

---
 probayes/rv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index b044a29..44d15d7 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -554,11 +554,11 @@ class RV (Variable, Prob):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = RF(*tuple(leafs))
+      args = [RF(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
+        args += [roots]
       return SD(*args)
 
     if isinstance(other, RF):
-- 
2.43.0


From d61adcce32e0dbf5de09ca6c52235712f749208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:08 +0000
Subject: [PATCH 81/97] fix: combine variables with dependences

---
 probayes/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/ops.py b/probayes/ops.py
index 5da738a..8a32f6b 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -54,11 +54,11 @@ def and_op(self, other):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = fld(*tuple(leafs))
+      args = [fld(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
+        args += [roots]
       return dep(*args)
 
     if isinstance(other, Field):
-- 
2.43.0


From 225c67d72d29bffe8449a906f6697733b03c2de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:08 +0000
Subject: [PATCH 82/97] fix: return unconditional distributions as joint ones

---
 probayes/sd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 0038cce..d579652 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -154,7 +154,7 @@ class SD (Dependence, RF):
       return None
     joint = False if 'joint' not in kwds else kwds.pop('joint')
     dist = super().__call__(*args, **kwds)
-    if not joint:
+    if not joint or not self._roots:
       return dist
     vals = dist('cond')
     cond_dist = self._roots(vals)
-- 
2.43.0


From 4a6ce13493806313933a92e552d561b72fa6344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:39 +0000
Subject: [PATCH 83/97] fix: state the scale of combined dependences

---
 probayes/sd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index d579652..c59b5ed 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -82,7 +82,7 @@ class SD (Dependence, RF):
     prob = super().set_prob(prob, *args, **kwds)
     if prob is not None or not isinstance(self._arch, (list, tuple)):
       return prob
-    return super().set_prob(arch_prob, arch=self._arch, passdims=True)
+    return super().set_prob(arch_prob, arch=self._arch, passdims=True, pscale=1.)
 
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
-- 
2.43.0


From 979429fbfeac65111c7425df37bd9a2981185635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:15 +0000
Subject: [PATCH 84/97] fix: evaluate combined dependences at scalars

---
 probayes/sd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 4c047e0..a3ef79f 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -40,7 +40,7 @@ def arch_prob(arch, dims, **kwds):
   probs = [None] * len(arch)
   for i, subarch in enumerate(arch):
     keyset = subarch.keylist
-    vals = {key: values[key] for key in dimkeys if key in keyset}
+    vals = {key: val for key, val in values.items() if key in keyset}
     subdims = {key: dims[key] for key in dimkeys if key in keyset}
     probs[i] = subarch.eval_prob(vals, subdims)
   if serial:
-- 
2.43.0


From e7738d894b3a491fa5232c188d2c90253b2b646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:10 +0000
Subject: [PATCH 85/97] fix: add the baseline frequency to counts

---
 probayes/likelihoods.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/probayes/likelihoods.py b/probayes/likelihoods.py
index cad3fac..8c129cc 100644
--- a/probayes/likelihoods.py
+++ b/probayes/likelihoods.py
@@ -68,6 +68,7 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
   sequences = bool_2d.astype(int).tolist()
   for sequence in sequences:
     counts[tuple(sequence)] += 1
+  counts = counts + base_freq
   if col_labels is None:
     return counts
   assert len(col_labels) == cols, \
@@ -81,9 +82,7 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
     reshape[dim] = 2
     dims.update({lbl: dim})
     vals.update({lbl: np.array([False, True]).reshape(reshape)})
-  if base_freq:
-    base_freq += counts
-  rel_freq = counts / rows
+  rel_freq = counts / counts.sum()
 
   def _func_bool_perm_freq(spec=None, **kwds):
     assert 'dims' in kwds, \
-- 
2.43.0


From c0e7e5a46ea99f1427882899ab221d005fd035f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:10 +0000
Subject: [PATCH 86/97] fix: slice probabilities at scalars without dimensions

---
 probayes/rf_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 1737a1d..b22f044 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -104,8 +104,9 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
   if spec_dims is None:
     spec_dims = dims_from_vals(spec)
   else:
-    assert set(spec.keys()) == set(spec_dims.keys()), \
+    assert set(spec_dims.keys()) <= set(spec.keys()), \
         "Keys for spec and spec_dims unmatched"
+    spec_dims = {**{key: None for key in keys if key not in spec_dims}, **spec_dims}
   if vals_dims is None:
     vals_dims = dims_from_vals(vals)
   else:
-- 
2.43.0


From 00bc9dcbdff43524d751184a0c9782c7ad445927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:10 +0000
Subject: [PATCH 87/97] fix: slice probabilities in the order of the variables
 specified

---
 probayes/rf_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index b22f044..60871d0 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -154,7 +154,8 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if n_matches == 0:
         slices[dim] = slice(0, 0)
       elif n_matches == 1:
-        slices[dim] = np.nonzero(match)[0]
+        index = np.nonzero(match)[0][0]
+        slices[dim] = slice(index, index + 1)
       else:
         raise ValueError("Non-unique matches found")
     else:
@@ -162,6 +163,9 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
           "Ambiguous specification with values mismatch"
       dim = spec_dims[key]
       reshape[dim] = vals[key].size
-  return prob[tuple(slices)].reshape(reshape)
+  order = {vals_dims[key]: spec_dims[key] for key in keys
+           if vals_dims[key] is not None and spec_dims[key] is not None}
+  axes = sorted(range(vals_ndim+1), key=lambda dim: order.get(dim, -1))
+  return prob[tuple(slices)].transpose(axes).reshape(reshape)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From b5f4637735de108165db777f6332546126377fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:10 +0000
Subject: [PATCH 88/97] fix: infer dimensions for slicing probabilities

---
 probayes/rf_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 60871d0..90ae989 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -93,12 +93,13 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if isscalar(val):
         dims.update({key: None})
       else:
-        assert val.size == np.product(vals.shape), \
+        assert val.size == np.max(val.shape), \
             "Multiple non-singleton dimensions: {}".format(val.size)
         if val.size > 1:
           run_dim = np.argmax(val.shape)
         dims.update({key: run_dim})
         run_dim += 1
+    return dims
 
   # Default spec_dims and vals_dims if not given 
   if spec_dims is None:
-- 
2.43.0


From 66479698f80d481593e99def8774a4ddc33fc6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 89/97] fix: leave dimensions unchanged when writing
 distributions

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index ae7c0f8..9f2ab80 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -467,7 +467,7 @@ def write_serialised(path, serialised, aux_dict={}):
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
         if key == 'attrs':
-          attrs = dist_dict['attrs']
+          attrs = dist_dict['attrs'].copy()
           for k, v in attrs.items():
             if v is None:
               attrs[k] = 'None'
-- 
2.43.0


From 32c14164700030e5ba882f2a54f096d875041b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 90/97] fix: read distributions in the order they were written

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 9f2ab80..7717cdb 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -462,7 +462,7 @@ def write_serialised(path, serialised, aux_dict={}):
         f"Aux dict subkeys must be str, found {subkey}"
       assert isinstance(subval, np.ndarray), \
         f"Aux dict subvals must be NumPy arrays, found {type(subval)}"
-  with h5py.File(path, 'w', libver='latest') as hdf_write:
+  with h5py.File(path, 'w', libver='latest', track_order=True) as hdf_write:
     for dist_name, dist_dict in serialised.items():
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
-- 
2.43.0


From 01de87ea8c9abb572d502a4c632761b6478dbfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 91/97] fix: evaluate expressions elementwise over arrays
 without a numpy function

---
 probayes/expr.py | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index f2940bb..abcc869 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -184,7 +184,6 @@ class Expr:
     evalues = [None] * len(keys)
     ekeys = [None] * len(keys)
     isarray = [None] * len(keys)
-    vec_dim = [None] * len(keys)
     for i, key in enumerate(keys):
       if isinstance(values[key], bool): # Sympy doesn't like bool types
         values[key] = int(values[key])
@@ -192,11 +191,6 @@ class Expr:
       evalues[i] = values[key]
       _etype = type(evalues[i])
       isarray[i] = _etype is np.ndarray
-      if isarray[i]:
-        non_sing = np.array(evalues[i].shape) > 1
-        non_sing_sum = non_sing.sum()
-        if non_sing_sum > 0:
-          vec_dim[i] = int(np.nonzero(non_sing)[0][0])
       if etype is None: 
         if _etype in self._efun.keys():
           etype = _etype
@@ -224,23 +218,11 @@ class Expr:
     if any(isarray) and np.ndarray not in self._efun:
       efun = self._efun[None]
 
-      vec_dims = np.array([dim for dim in vec_dim if dim is not None])
-      # Is a sort required (meshgrid seems to prefer reverse order)?
-      if len(vec_dims) > 1 and np.max(np.diff(vec_dims)) > 0:
-        values = sort_ordered_dict(values, vec_dim, reverse=True)
-        evalues = list(values.values())
-      mesh_values = [val for i, val in enumerate(evalues) if isarray[i]]
-      mesh_grid = np.meshgrid(*tuple(mesh_values), copy=False)
-      revalues = collections.OrderedDict()
-      shape = None
-      mesh_idx = -1
-      for i, key in enumerate(keys):
-        if isarray[i]:
-          mesh_idx += 1
-          shape = mesh_grid[mesh_idx].shape
-          revalues.update({key: np.ravel(mesh_grid[mesh_idx])})
-        else:
-          revalues.update({key: values[key]})
+      # Broadcast arrays elementwise as would a NumPy eval func
+      mesh_keys = [key for i, key in enumerate(keys) if isarray[i]]
+      mesh_grid = np.broadcast_arrays(*[values[key] for key in mesh_keys])
+      shape = mesh_grid[0].shape
+      revalues = {key: np.ravel(val) for key, val in zip(mesh_keys, mesh_grid)}
       size = int(np.prod(shape))
       vals = dict(values)
       reval = [None] * size
-- 
2.43.0


From ff330ee388e578426c7e6a31e42d45d2da7cdff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:18 +0000
Subject: [PATCH 92/97] fix: pass positional arguments of scipy distributions
 after the values

---
 probayes/prob.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index bb783d9..d948d28 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -203,9 +203,11 @@ class Prob (Expression, SympyProb):
       # Set remaining scipy-specific flag
       self._isiconic = False
 
-      # Instantiate multivariate scipy objects with pre-specified arguments
-      if self.__issmvar and is_scipy_stats_mvar(self._expr):
-        self._expr = self._expr(*self._args,  **self._kwds)
+      # Instantiate scipy objects with pre-specified arguments if multivariate or
+      # positional (since these follow values when evaluating probabilities)
+      if self._args or (self.__issmvar and is_scipy_stats_mvar(self._expr)):
+        if is_scipy_stats_dist(self._expr):
+          self._expr = self._expr(*self._args,  **self._kwds)
         self._args, self._kwds = (), {} # No longer used
 
       # Iterate available methods
-- 
2.43.0


From b8b3730017d32943727a8513553a9d72670e2245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:17 +0000
Subject: [PATCH 93/97] fix: draw whole-number list deltas from both ends of
 their range

np.random.randint excludes its upper limit, so [d] was never drawn as +d and
steps were biased downwards, contrary to the documented [-d, +d].
---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 79028bb..f73379c 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -634,7 +634,7 @@ class Variable (Icon):
       if self._vtype in VTYPES[bool]:
         pass
       elif self._vtype in VTYPES[int]:
-        delta = np.random.randint(-delta, delta)
+        delta = np.random.randint(-delta, delta + 1)
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-- 
2.43.0


From 6581fe5a677a0db63c228d5502993f502b71c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:17 +0000
Subject: [PATCH 94/97] fix: sample all of a discrete set when asked for few
 random values

A request {-n} below the size of the set only ever gave its first n values,
and one above it always repeated the first ones most.
---
 probayes/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index f73379c..51e500f 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -573,6 +573,7 @@ class Variable (Icon):
             indices = np.arange(number, dtype=int) % self._length
           else:
             indices = np.random.permutation(-number) % self._length
+            indices = np.random.permutation(self._length)[indices]
           values = values[indices]
         return Distribution(self._name, {self.name: values})
        
-- 
2.43.0


From cab431e770b32700542de478079c52e52c9c8cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:36 +0000
Subject: [PATCH 95/97] fix: refuse unknown variables among those given jointly

Only the last name of a joint key was checked, so values for the others were
silently ignored and an unknown variable entered the dimensions.
---
 probayes/field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index bcece05..099d827 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -344,9 +344,10 @@ class Field (NX_UNDIRECTED_GRAPH):
       else:
         seen_keys.append(key)
       if not pass_all:
-        assert seen_keys[-1] in self._keyset, \
-            "Unrecognised key {} among available Variables {}".format(
-                seen_keys[-1], self._keyset)
+        for subkey in key.split(','):
+          assert subkey in self._keyset, \
+              "Unrecognised key {} among available Variables {}".format(
+                  subkey, self._keyset)
 
     # Default values
     def_val = None
-- 
2.43.0


From 15f7f93d9c85c6c4215442fca04cbd31342f28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 96/97] fix: drop the sampling functions of a distribution when
 another probability is set

---
 probayes/prob.py | 5 +++++
 probayes/rv.py   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/probayes/prob.py b/probayes/prob.py
index d948d28..f47218e 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -134,6 +134,11 @@ class Prob (Expression, SympyProb):
     """
     pscale = None if 'pscale' not in kwds else kwds.pop('pscale')
     self.pscale = self._pscale if pscale is None else pscale
+
+    # The functions of a distribution set previously do not apply to this one
+    if self.__isscipy or self.__issympy:
+      self.set_pfun()
+      self.set_sfun()
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
diff --git a/probayes/rv.py b/probayes/rv.py
index 44d15d7..3df2804 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -129,6 +129,8 @@ class RV (Variable, Prob):
     'pscale' is a reserved keyword. See Prob.pscale for explanation of how 
     pscale is used.
     """
+    if hasattr(self._sfun, 'expr') and self._sfun.expr == bernoulli_sfun:
+      super().set_sfun()
     super().set_prob(prob, *args, **kwds)
     if self._prob is None:
       self._default_prob()
-- 
2.43.0


From 4edecd27191827c4a393ef1c44560cb8a41e3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:57 +0000
Subject: [PATCH 97/97] fix: take deltas given by variable name in the form
 they are given

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 099d827..3bbed53 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -299,7 +299,7 @@ class Field (NX_UNDIRECTED_GRAPH):
           assert np.isfinite(self._lengths[i]), \
               "Cannot scale by infinite length for Variable {}".format(key)
           delta = val * self._lengths[i]
-        if urand:
+        if urand and key not in unscale:
           delta = [delta]
         delta_dict.update({key: delta})
       self._delta = self._delta_type(**delta_dict)
-- 
2.43.0

