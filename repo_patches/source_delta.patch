From 170efab7fdfa8fafe5136845f768ad73485537f5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:07:40 +0000
Subject: [PATCH 01/21] fix: do not modify the dictionary a NrwalConfig is
 built from

---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3c05990..fcf6314 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -326,6 +326,9 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
+        # never modify a dictionary that belongs to the caller
+        config = copy.deepcopy(config)
+
         if 'equation_directory' not in config:
             msg = ('NrwalConfig using default "equation_directory": {}'
                    .format(cls.DEFAULT_DIR))
-- 
2.43.0


From 94e83912ea731a81047516a76760c75a5bee02fd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:07:40 +0000
Subject: [PATCH 02/21] fix: do not leak default variables of one directory to
 its siblings

---
 NRWAL/handlers/directories.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 4774d09..13d6c61 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -534,8 +534,9 @@ class EquationDirectory:
             their locally-defined default variables.
         """
 
-        if var_group is None:
-            var_group = {}
+        # copy so that variables of one directory do not leak to the caller
+        # and from there to the sibling directories
+        var_group = {} if var_group is None else dict(var_group)
 
         if 'variables' in self.keys() and not force_update:
             # pylint: disable=E1101
-- 
2.43.0


From be69febb146e1e6ef3c01943c36e3347c5b0bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:07:40 +0000
Subject: [PATCH 03/21] fix: pass force_update on to the lower level
 directories

---
 NRWAL/handlers/directories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 13d6c61..c053756 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -548,7 +548,9 @@ class EquationDirectory:
         self._default_variables.update(copy.deepcopy(var_group))
 
         for v in self.values():
-            if isinstance(v, (EquationDirectory, EquationGroup, Equation)):
+            if isinstance(v, EquationDirectory):
+                v.set_default_variables(var_group, force_update=force_update)
+            elif isinstance(v, (EquationGroup, Equation)):
                 v.set_default_variables(var_group)
 
     @property
-- 
2.43.0


From 619cff5a6aa5e56a1324703b417b79f54d900490 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:07:41 +0000
Subject: [PATCH 04/21] fix: evaluate NrwalConfig with the current inputs, not
 with old outputs

---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index fcf6314..0c118c9 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -984,6 +984,9 @@ class NrwalConfig:
         if inputs is not None:
             self.inputs = inputs
 
+        # results of a previous evaluation do not belong to these inputs
+        self.reset_output()
+
         if not self.solvable:
             msg = ('Cannot evaluate NrwalConfig, missing the following '
                    'input args: {}'.format(self.missing_inputs))
-- 
2.43.0


From 73fb046346d04dcb6193efa93b1ec14eed660639 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:07:41 +0000
Subject: [PATCH 05/21] fix: sums of groups or directories and replaced
 equations share no state with their source

---
 NRWAL/handlers/directories.py | 2 +-
 NRWAL/handlers/equations.py   | 6 +++---
 NRWAL/handlers/groups.py      | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index c053756..721c953 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -294,7 +294,7 @@ class EquationDirectory:
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._eqns.update(other._eqns)
+        out._eqns.update(copy.deepcopy(other._eqns))
         out.set_default_variables(other._default_variables)
 
         return out
diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 639215c..1537e9c 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -31,9 +31,9 @@ class Equation:
             Equation object. These inputs can still be overwritten at runtime.
         """
 
-        self._default_variables = default_variables
-        if self._default_variables is None:
-            self._default_variables = {}
+        self._default_variables = {}
+        if default_variables is not None:
+            self._default_variables.update(default_variables)
 
         self._str = None
         self._base_name = name
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 6ee945b..ec9dee1 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -109,7 +109,7 @@ class AbstractGroup(ABC):
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._group.update(other._group)
+        out._group.update(copy.deepcopy(other._group))
         out.set_default_variables(other._default_variables)
 
         return out
-- 
2.43.0


From 0418dfad275ac333b434be7c5392a6721b1f6c0f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:07:41 +0000
Subject: [PATCH 06/21] fix: config entries that refer to the same equation
 stay separate

---
 NRWAL/handlers/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 0c118c9..b210c40 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -518,8 +518,10 @@ class NrwalConfig:
             variables input. This Equation is ready to be evaluated.
         """
 
+        # Objects from the library or from other config entries are copied so
+        # that each config entry can be named and updated on its own.
         if isinstance(expression, (Equation, EquationGroup)):
-            out = expression
+            out = copy.deepcopy(expression)
 
         elif Equation.is_num(expression):
             # Parse number as Equation object
@@ -540,11 +542,11 @@ class NrwalConfig:
             config_key, _, sub_key = expression.partition('::')
             temp = cls._parse_expression(config_key, config, eqn_dir, gvars,
                                          name=name)
-            out = temp[sub_key]
+            out = copy.deepcopy(temp[sub_key])
 
         else:
             try:
-                out = eqn_dir[expression]
+                out = copy.deepcopy(eqn_dir[expression])
             except KeyError:
                 out = Equation(expression)
 
-- 
2.43.0


From b0b87e9a42361c32c9b4369c2fae92043ad4922c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:07:41 +0000
Subject: [PATCH 07/21] fix: raise the documented KeyError for unknown keys
 with interp_extrap_power

---
 NRWAL/handlers/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index ec9dee1..33676f8 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -240,7 +240,7 @@ class AbstractGroup(ABC):
             if eqn_key in out:
                 out = out[eqn_key]
 
-            elif (self._interp_extrap_power or self._interp_extrap_year
+            elif ((self._interp_extrap_power or self._interp_extrap_year)
                     and len(nn_eqns) > 1):
                 x1, x3 = nn_values[0:2]
                 y1, y3 = nn_eqns[0:2]
-- 
2.43.0


From a1633d2d6d3b2fd35127d77a6cfff8ed54f336dd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:07:41 +0000
Subject: [PATCH 08/21] fix: printing an Equation does not freeze its later
 printed form

---
 NRWAL/handlers/equations.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 1537e9c..1893f7a 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -269,9 +269,10 @@ class Equation:
         return str(self)
 
     def __str__(self):
-        if self._str is None:
+        out = self._str
+        if out is None:
             if self.is_num(self._eqn) and not any(self.variables):
-                self._str = str(self._eqn)
+                out = str(self._eqn)
 
             else:
                 vars_str = [v for v in self.variables
@@ -287,11 +288,11 @@ class Equation:
                     vars_str += base_str + kw_str
 
                 if self._base_name is None:
-                    self._str = 'Equation({})'.format(vars_str)
+                    out = 'Equation({})'.format(vars_str)
                 else:
-                    self._str = '{}({})'.format(self._base_name, vars_str)
+                    out = '{}({})'.format(self._base_name, vars_str)
 
-        return self._str
+        return out
 
     def __contains__(self, arg):
         return arg in self._eqn
-- 
2.43.0


From f4ba5e12fee51f8b1d180324a5ef54d273a85e94 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:07:41 +0000
Subject: [PATCH 09/21] fix: insert equations of the same group for whole
 variable names only

---
 NRWAL/handlers/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 33676f8..37e05ce 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -752,7 +752,10 @@ class EquationGroup(AbstractGroup):
                     continue
                 for var in [v for v in eqn.variables if v in group]:
                     repl_str = '({})'.format(group[var].full)
-                    new_eqn = eqn.full.replace(var, repl_str)
+                    # only whole names, not e.g. "area" in "area_total"
+                    pattern = r'(?<![\w.]){}(?![\w.])'.format(re.escape(var))
+                    new_eqn = re.sub(pattern, lambda _, s=repl_str: s,
+                                     eqn.full)
                     group[group_key] = eqn = eqn.replace_equation(new_eqn)
                     working = True
 
-- 
2.43.0


From ae9f525fb5c98c9a937897e5d0deadb7d74e3eef Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:07:41 +0000
Subject: [PATCH 10/21] fix: make NrwalConfig objects copyable and picklable

---
 NRWAL/handlers/config.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index b210c40..e31c1e5 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -739,7 +739,16 @@ class NrwalConfig:
         out : int | float | np.ndarray | Equation
             Requested data prioritized from the outputs then the config.
         """
-        return self[attr]
+        # plain attributes are not yet available while an object is being
+        # restored from a copy or pickle
+        if attr in ('_outputs', '_config'):
+            raise AttributeError(attr)
+
+        try:
+            return self[attr]
+        except KeyError as e:
+            msg = 'NrwalConfig has no attribute or entry "{}"'.format(attr)
+            raise AttributeError(msg) from e
 
     def __str__(self):
         s = ['NrwalConfig object with equation directory: "{}"'
-- 
2.43.0


From b05461da0294b46e54158295c490b2f978ed9558 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:08:02 +0000
Subject: [PATCH 11/21] fix: a rejected update of the NrwalConfig inputs leaves
 the inputs unchanged

---
 NRWAL/handlers/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index e31c1e5..02708a8 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -804,6 +804,7 @@ class NrwalConfig:
             elif isinstance(arg, pd.DataFrame):
                 keys = arg.columns.values
 
+            new = {}
             for k in keys:
                 if isinstance(arg, dict):
                     v = arg[k]
@@ -816,7 +817,10 @@ class NrwalConfig:
                 elif isinstance(v, int):
                     v = float(v)
 
-                self._inputs[k] = v
+                new[k] = v
+
+            # only accept the new inputs once all of them are known to be good
+            self._inputs.update(Equation._check_input_args(new))
 
         else:
             msg = ('Cannot set inputs as datatype "{}". '
@@ -824,8 +828,6 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
-        Equation._check_input_args(self._inputs)
-
     @property
     def outputs(self):
         """Get the outputs dictionary.
-- 
2.43.0


From 420937ae6597acbf479cb96e13a4d70beabfdff3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 12/21] fix: solve NrwalConfig entries only after the entries
 they depend on

---
 NRWAL/handlers/config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 02708a8..e3b207a 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1013,6 +1013,11 @@ class NrwalConfig:
                         or Equation.is_num(v)):
                     pass
                 elif isinstance(v, Equation):
+                    unsolved = set(self.to_be_solved) - {k}
+                    if k in self._outputs or unsolved & set(v.variables):
+                        # already solved or has to wait for other entries
+                        continue
+
                     kwargs = copy.deepcopy(self.global_variables)
                     kwargs.update(self.inputs)
                     kwargs.update(self._outputs)
-- 
2.43.0


From 2d2327dc34cdd6cdeba2409e7024c9d7b86480cf Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:08:40 +0000
Subject: [PATCH 13/21] fix: do not skip a subdirectory that cannot be accessed
 while loading a directory

---
 NRWAL/handlers/directories.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 721c953..6a6fc78 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -4,6 +4,7 @@ Handler objects to interface with NRWAL equation directories
 """
 import copy
 import os
+import stat
 import logging
 
 from NRWAL.handlers.equations import Equation
@@ -462,7 +463,7 @@ class EquationDirectory:
         for name in sorted(os.listdir(eqn_dir)):
             path = os.path.join(eqn_dir, name)
 
-            is_directory = os.path.isdir(path)
+            is_directory = cls._is_dir(path)
             type_check = name.endswith(('.json', '.yml', '.yaml'))
             variables_file = (
                 type_check and os.path.splitext(name)[0] == 'variables')
@@ -508,6 +509,15 @@ class EquationDirectory:
 
         return eqns
 
+    @staticmethod
+    def _is_dir(path):
+        """Check if path is a directory. In contrast to os.path.isdir() this
+        does not report a directory that cannot be accessed as missing."""
+        try:
+            return stat.S_ISDIR(os.stat(path).st_mode)
+        except FileNotFoundError:
+            return False
+
     def head(self, n=5):
         """Return the first n lines of the directory string representation"""
         return '\n'.join(str(self).split('\n')[:n])
-- 
2.43.0


From 5f48510c83a183f4376f841d0f904bd38f71f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:10:03 +0000
Subject: [PATCH 14/21] fix: subtract and divide from left to right in config
 expressions

---
 NRWAL/handlers/config.py | 69 ++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 28 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index e3b207a..e6bbc20 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -4,6 +4,7 @@ NRWAL config framework.
 """
 import copy
 import logging
+import re
 import pandas as pd
 import numpy as np
 import yaml
@@ -630,26 +631,13 @@ class NrwalConfig:
                 # subsequent operators will be found in the recursive
                 # call to _parse_expression()
 
-                expr_short = expr.replace(' ', '')
-                iop = expr_short.index(ops)
+                locs = cls._find_operator(expr, ops)
 
-                if ops == '-' and iop > 0 and expr_short[iop - 1] in op_map:
-                    # operation (e.g. * ^ /) on a minus sign (e.g. *-var)
-                    pass
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') == 1:
-                    # ignore leading minus sign (negative number)
-                    out = cls._parse_expression_part(expr[1:], config, eqn_dir,
-                                                     gvars)
-                    out = Equation(-1) * out
-                    break
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') > 1:
-                    # negative variable minus another variable - ignore first
-                    # negative when splitting string
-                    split = expr[1:].partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    v1 = '-' + v1
+                if any(locs):
+                    # subtract and divide from left to right: a - b - c is
+                    # (a - b) - c, so the last operator is the one to split at
+                    iop = locs[-1] if ops in ('-', '/') else locs[0]
+                    v1, v2 = expr[:iop].strip(), expr[iop + 1:].strip()
                     out1 = cls._parse_expression_part(v1, config, eqn_dir,
                                                       gvars)
                     out2 = cls._parse_expression_part(v2, config, eqn_dir,
@@ -657,15 +645,12 @@ class NrwalConfig:
                     out = fun(out1, out2)
                     break
 
-                else:
-                    # normal operation on two numbers / variables
-                    split = expr.partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
+                elif ops == '-' and expr.strip().startswith(ops):
+                    # leading minus sign (negative number)
+                    v1 = expr.strip()[1:].strip()
+                    out = cls._parse_expression_part(v1, config, eqn_dir,
+                                                     gvars)
+                    out = Equation(-1) * out
                     break
 
         if out is None:
@@ -675,6 +660,34 @@ class NrwalConfig:
 
         return out
 
+    @staticmethod
+    def _find_operator(expr, ops):
+        """Find the locations in an expression where an operator connects two
+        operands, i.e. where it is not a sign (-var, a * -var) and not part of
+        a number (1e-3).
+
+        Parameters
+        ----------
+        expr : str
+            Expression without parentheses, with "^" for powers.
+        ops : str
+            Single character arithmetic operator.
+
+        Returns
+        -------
+        locs : list
+            Indices of the operator in expr.
+        """
+        locs = []
+        for i, char in enumerate(expr):
+            before = expr[:i].rstrip()
+            is_sign = not before or before[-1] in '+-*/^'
+            is_exponent = re.search(r'(^|[^\w.])[0-9.]+[eE]$', expr[:i])
+            if char == ops and not is_sign and not is_exponent:
+                locs.append(i)
+
+        return locs
+
     @classmethod
     def _parse_expression_part(cls, expr_part, config, eqn_dir, gvars):
         """Parse a part of an expression that contains arithmetic ops
-- 
2.43.0


From 0004ebc5a814aa3122348ef9604e2b5afa63013b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:10:03 +0000
Subject: [PATCH 15/21] fix: subtract and divide from left to right in group
 and directory keys

---
 NRWAL/handlers/groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 37e05ce..4fe1b79 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -176,7 +176,11 @@ class AbstractGroup(ABC):
 
         for op_str, op_fun in op_map.items():
             if op_str in key:
-                split_keys = key.partition(op_str)
+                if op_str in ('-', '/'):
+                    # evaluate from left to right: a - b - c = (a - b) - c
+                    split_keys = key.rpartition(op_str)
+                else:
+                    split_keys = key.partition(op_str)
                 k1 = split_keys[0].strip()
                 k2 = split_keys[2].strip()
 
-- 
2.43.0


From c38a6b94aeeba0c0cdeb1395105f80d2de432a9d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:10:03 +0000
Subject: [PATCH 16/21] fix: raise negative constants to a power as a whole

---
 NRWAL/handlers/equations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 1893f7a..da03706 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -141,6 +141,8 @@ class Equation:
         arg2 = other._eqn
         if not self.is_num(arg1) and not self.is_variable(arg1):
             arg1 = '({})'.format(arg1)
+        elif operator == '**' and arg1.strip().startswith('-'):
+            arg1 = '({})'.format(arg1)
         if not self.is_num(arg2) and not self.is_variable(arg2):
             arg2 = '({})'.format(arg2)
 
-- 
2.43.0


From 6d7a69784266db14ad02de21020b260fba77c387 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:10:03 +0000
Subject: [PATCH 17/21] fix: parse doubled parentheses in config expressions

---
 NRWAL/handlers/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index e6bbc20..824fea2 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -608,8 +608,12 @@ class NrwalConfig:
             if 'np.' not in pk and 'pd.' not in pk:
                 pk = pk.lstrip('(').rstrip(')')
 
-            gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
-                                                gvars, name=name)
+            if isinstance(gvars.get(pk), Equation):
+                # nested parentheses: ((expression))
+                gvars[wkey] = gvars[pk]
+            else:
+                gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
+                                                    gvars, name=name)
 
         if expression in gvars:
             return gvars[expression]
-- 
2.43.0


From 7e433417da2f8d89e81da51cd5447946548df5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Tue, 17 Nov 2026 22:10:07 +0000
Subject: [PATCH 18/21] fix: find numpy methods that follow other parentheses
 in config expressions

---
 NRWAL/utilities/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/utilities/utilities.py b/NRWAL/utilities/utilities.py
index 229f1f3..71be73d 100644
--- a/NRWAL/utilities/utilities.py
+++ b/NRWAL/utilities/utilities.py
@@ -70,7 +70,8 @@ def find_np_pd_methods(s):
     elif 'pd.' in s:
         start = s.index('pd.')
 
-    paren_ind = find_parens(s)
+    # parentheses of the method, not ones that open before it
+    paren_ind = [x for x in find_parens(s) if x[0] > start]
     np_paren = np.argmin([x[0] for x in paren_ind])
     end = paren_ind[np_paren][1]
 
-- 
2.43.0


From 542958b9995da109be0bd3ef8d06568231bd4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:06 +0000
Subject: [PATCH 19/21] fix: do not copy parts of config expressions in
 parentheses into the default variables

---
 NRWAL/handlers/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 824fea2..17180d7 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -554,6 +554,10 @@ class NrwalConfig:
         if isinstance(out, Equation) and name is not None:
             out._base_name = name
             out._str = None
+
+        # equations in gvars are parts of the expressions in parentheses, these
+        # are not variables (and would be copied into each other over and over)
+        gvars = {k: v for k, v in gvars.items() if not isinstance(v, Equation)}
         if isinstance(out, (Equation, EquationGroup)):
             out.set_default_variables(gvars)
         elif isinstance(out, EquationDirectory):
-- 
2.43.0


From baa247435349a6e6a8cdd60fe0687e14aab04023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:34 +0000
Subject: [PATCH 20/21] fix: solve NrwalConfig entries that depend on each
 other in long chains

---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 17180d7..f2d17fe 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -1073,8 +1073,9 @@ class NrwalConfig:
                     logger.error(msg)
                     raise TypeError(msg)
 
+            # every pass solves at least one more entry
             i += 1
-            if i > 100:
+            if i > len(self._config):
                 msg = ('NRWAL compute failed! The following config keys were '
                        'never solved: {}'.format(self.to_be_solved))
                 logger.error(msg)
-- 
2.43.0


From b3c3e7ff578454f6537371abd0055dc02c1ed4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:25 +0000
Subject: [PATCH 21/21] fix: a config entry with a falsy name counts as solved
 before it is

"no: x * 2" in a yaml config is an entry named False; any() over the names of
unsolved entries is False then, so that the config reported itself solved and
evaluate() never computed the entry.
---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index f2d17fe..25f2c75 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -956,7 +956,8 @@ class NrwalConfig:
         -------
         bool
         """
-        return not any(self.to_be_solved)
+        # names can be falsy, e.g. "no" is read as False from a yaml file
+        return len(self.to_be_solved) == 0
 
     def get(self, key, default_value):
         """Attempt to get a key from the NrwalConfig, return
-- 
2.43.0

