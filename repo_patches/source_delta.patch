From 015045a1080498b9bcee5252a0ab1d1e7e791109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 01/68] fix: derivative of pressure ratio equation for pr1, pr2
 as variable

Component.pr_deriv always used the attribute pr (missing in components
with pr1/pr2) and the inlet index for the outlet connection.
---
 src/tespy/components/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/component.py b/src/tespy/components/component.py
index f72daae..90ec2f3 100644
--- a/src/tespy/components/component.py
+++ b/src/tespy/components/component.py
@@ -1081,13 +1081,13 @@ class Component:
         """
         pr = self.get_attr(pr)
         i = self.inl[inconn]
-        o = self.outl[inconn]
+        o = self.outl[outconn]
         if i.p.is_var:
             self.jacobian[k, i.p.J_col] = pr.val
         if o.p.is_var:
             self.jacobian[k, o.p.J_col] = -1
         if pr.is_var:
-            self.jacobian[k, self.pr.J_col] = i.p.val_SI
+            self.jacobian[k, pr.J_col] = i.p.val_SI
 
     def calc_zeta(self, i, o):
         if abs(i.m.val_SI) <= 1e-4:
-- 
2.43.0


From e817ea42d359e1cca6d899c9482cab96e035d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 02/68] fix: Valve dp_char derivatives for param='pr'

The characteristic's argument depends on inlet and outlet pressure then,
which the derivatives ignored.
---
 src/tespy/components/piping/valve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/piping/valve.py b/src/tespy/components/piping/valve.py
index 2365d5f..a4efc44 100644
--- a/src/tespy/components/piping/valve.py
+++ b/src/tespy/components/piping/valve.py
@@ -239,7 +239,7 @@ class Valve(Component):
         o = self.outl[0]
         if self.is_variable(i.m, increment_filter):
             self.jacobian[k, i.m.J_col] = self.numeric_deriv(f, 'm', i)
-        if self.dp_char.param == 'v':
+        if self.dp_char.param in ['v', 'pr']:
             if self.is_variable(i.p, increment_filter):
                 self.jacobian[k, i.p.J_col] = self.numeric_deriv(
                     self.dp_char_func, 'p', i
@@ -252,7 +252,10 @@ class Valve(Component):
             if self.is_variable(i.p, increment_filter):
                 self.jacobian[k, i.p.J_col] = 1
 
-        if self.is_variable(o.p):
+        if self.dp_char.param == 'pr':
+            if self.is_variable(o.p, increment_filter):
+                self.jacobian[k, o.p.J_col] = self.numeric_deriv(f, 'p', o)
+        elif self.is_variable(o.p):
             self.jacobian[k, o.p.J_col] = -1
 
     def initialise_source(self, c, key):
-- 
2.43.0


From 0c2da841c1246eaea2abe00ed3e01b18de9f960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 03/68] fix: heat exchanger mass flow derivative with both
 sides in one branch

For an internal heat exchanger both inlets share one mass flow variable;
the second side's contribution overwrote the first one's.
---
 src/tespy/components/heat_exchangers/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/base.py b/src/tespy/components/heat_exchangers/base.py
index 446e83d..854e9f4 100644
--- a/src/tespy/components/heat_exchangers/base.py
+++ b/src/tespy/components/heat_exchangers/base.py
@@ -374,10 +374,14 @@ class HeatExchanger(Component):
         k : int
             Position of derivatives in Jacobian matrix (k-th equation).
         """
+        for i in self.inl:
+            if self.is_variable(i.m, increment_filter):
+                self.jacobian[k, i.m.J_col] = 0
         for _c_num, i in enumerate(self.inl):
             o = self.outl[_c_num]
+            # both sides may belong to the same mass flow branch
             if self.is_variable(i.m, increment_filter):
-                self.jacobian[k, i.m.J_col] = o.h.val_SI - i.h.val_SI
+                self.jacobian[k, i.m.J_col] += o.h.val_SI - i.h.val_SI
             if self.is_variable(i.h, increment_filter):
                 self.jacobian[k, i.h.J_col] = -i.m.val_SI
             if self.is_variable(o.h, increment_filter):
-- 
2.43.0


From 32f01d52ad505714c5edbd6590d600d84b2f00c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 04/68] fix: sign of pressure difference in Hazen-Williams
 equation

copysign(p_in - p_out, m) is the absolute pressure difference with the
sign of the mass flow: reversed flow had no solution and a pressure rise
with positive flow was accepted.
---
 src/tespy/components/heat_exchangers/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 18b6b24..4a8b59e 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -451,7 +451,7 @@ class SimpleHeatExchanger(Component):
         v_o = o.calc_vol(T0=o.T.val_SI)
 
         return (
-            math.copysign(i.p.val_SI - o.p.val_SI, i.m.val_SI)
+            (i.p.val_SI - o.p.val_SI) * math.copysign(1, i.m.val_SI)
             - (
                 10.67 * abs(i.m.val_SI) ** 1.852 * self.L.val /
                 (self.ks_HW.val ** 1.852 * self.D.val ** 4.871)
-- 
2.43.0


From 2bbd76889f792c560d9bb6b92df526d8af89f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:55 +0000
Subject: [PATCH 05/68] fix: Separator with fixed pressure or enthalpy at an
 outlet

The derivatives were written for outlet states which are no variables,
crashing the solver.
---
 src/tespy/components/nodes/separator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/nodes/separator.py b/src/tespy/components/nodes/separator.py
index 17473fc..ff5ddf5 100644
--- a/src/tespy/components/nodes/separator.py
+++ b/src/tespy/components/nodes/separator.py
@@ -348,8 +348,10 @@ class Separator(NodeBase):
             # for fluid in i.fluid.is_var:
             #     self.jacobian[k, i.fluid.J_col[fluid]] = dT_dfluid_in[fluid]
             args = (o.p.val_SI, o.h.val_SI, o.fluid_data, o.mixing_rule)
-            self.jacobian[k, o.p.J_col] = -dT_mix_dph(*args)
-            self.jacobian[k, o.h.J_col] = -dT_mix_pdh(*args)
+            if self.is_variable(o.p):
+                self.jacobian[k, o.p.J_col] = -dT_mix_dph(*args)
+            if self.is_variable(o.h):
+                self.jacobian[k, o.h.J_col] = -dT_mix_pdh(*args)
             # for fluid in o.fluid.is_var:
             #     self.jacobian[k, o.fluid.J_col[fluid]] = -dT_mix_ph_dfluid(o)
             k += 1
-- 
2.43.0


From 40adf4eb319327d5e0e7b2334343b7fea8f871f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:51 +0000
Subject: [PATCH 06/68] fix: reported zeta value for reversed flow

The zeta equation uses |m| * m, the post-processing used m ** 2, so the
reported value had the wrong sign for negative mass flow.
---
 src/tespy/components/component.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tespy/components/component.py b/src/tespy/components/component.py
index 90ec2f3..50798af 100644
--- a/src/tespy/components/component.py
+++ b/src/tespy/components/component.py
@@ -1090,12 +1090,14 @@ class Component:
             self.jacobian[k, pr.J_col] = i.p.val_SI
 
     def calc_zeta(self, i, o):
-        if abs(i.m.val_SI) <= 1e-4:
+        if abs(i.m.val_SI) < 1e-4:
             return 0
         else:
             return (
-                (i.p.val_SI - o.p.val_SI) * math.pi ** 2
-                / (4 * i.m.val_SI ** 2 * (i.vol.val_SI + o.vol.val_SI))
+                (i.p.val_SI - o.p.val_SI) * math.pi ** 2 / (
+                    4 * abs(i.m.val_SI) * i.m.val_SI
+                    * (i.vol.val_SI + o.vol.val_SI)
+                )
             )
 
     def zeta_func(self, zeta='', inconn=0, outconn=0):
-- 
2.43.0


From 321fe07e2b5481ad2611d66b86091c37cd0c08af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:51 +0000
Subject: [PATCH 07/68] fix: kA post-processing if in- and outlet enclose the
 ambient temperature

The logarithm of a negative number raised ValueError instead of
reporting nan.
---
 src/tespy/components/heat_exchangers/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 4a8b59e..287331e 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -897,7 +897,7 @@ class SimpleHeatExchanger(Component):
 
             if (ttd_1 / ttd_2) < 0:
                 td_log = np.nan
-            if ttd_1 > ttd_2:
+            elif ttd_1 > ttd_2:
                 td_log = (ttd_1 - ttd_2) / math.log(ttd_1 / ttd_2)
             elif ttd_1 < ttd_2:
                 td_log = (ttd_2 - ttd_1) / math.log(ttd_2 / ttd_1)
-- 
2.43.0


From 7d01fb9cdd7a81338883b12818896cc62187010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:51 +0000
Subject: [PATCH 08/68] fix: Condenser ttd_min equation refers to the
 saturation temperature

As ttd_u and the reported ttd_min do; a specified ttd_min was not the
reported one for superheated inlets.
---
 .../components/heat_exchangers/condenser.py   | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/condenser.py b/src/tespy/components/heat_exchangers/condenser.py
index e417621..1cf4c1d 100644
--- a/src/tespy/components/heat_exchangers/condenser.py
+++ b/src/tespy/components/heat_exchangers/condenser.py
@@ -49,7 +49,7 @@ class Condenser(HeatExchanger):
     - :py:meth:`tespy.components.heat_exchangers.condenser.Condenser.kA_char_func`
     - :py:meth:`tespy.components.heat_exchangers.condenser.Condenser.ttd_u_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.ttd_l_func`
-    - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.ttd_min_func`
+    - :py:meth:`tespy.components.heat_exchangers.condenser.Condenser.ttd_min_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.eff_cold_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.eff_hot_func`
     - :py:meth:`tespy.components.heat_exchangers.base.HeatExchanger.eff_max_func`
@@ -468,6 +468,26 @@ class Condenser(HeatExchanger):
             r' + T_\mathrm{out,2}')
         return generate_latex_eq(self, latex, label)
 
+    def ttd_min_func(self):
+        r"""
+        Equation for minimum terminal temperature difference.
+
+        Returns
+        -------
+        residual : float
+            Residual value of equation.
+
+            .. math::
+
+                ttd_{l} = T_{out,1} - T_{in,2}
+                ttd_{u} = T_{sat} \left(p_{in,1}\right) - T_{out,2}
+                0 = ttd_{min} - \text{min}\left(ttd_{u}, ttd_{l}\right)
+        """
+        ttd_l = self.outl[0].calc_T() - self.inl[1].calc_T()
+        ttd_u = self.inl[0].calc_T_sat() - self.outl[1].calc_T()
+
+        return self.ttd_min.val - min(ttd_l, ttd_u)
+
     def calc_parameters(self):
         r"""Postprocessing parameter calculation."""
         self.Q.val = self.inl[0].m.val_SI * (
-- 
2.43.0


From 081135f18f35cc757615be1433bafbf0a82530f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:21 +0000
Subject: [PATCH 09/68] fix: fluid composition derivatives of the referenced
 temperature

The factor of the reference was missing, and the own contribution got
lost if both connections share their fluid composition.
---
 src/tespy/connections/connection.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 9e41375..85f7e75 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -776,10 +776,14 @@ class Connection:
                 dT_mix_pdh(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data, ref.obj.mixing_rule)
             ) * ref.factor
         for fluid in ref.obj.fluid.is_var:
-            if not self._increment_filter[ref.obj.fluid.J_col[fluid]]:
-                self.jacobian[k, ref.obj.fluid.J_col[fluid]] = -dT_mix_ph_dfluid(
-                    ref.obj.p.val_SI, ref.obj.h.val_SI, fluid, ref.obj.fluid_data, ref.obj.mixing_rule
-                )
+            col = ref.obj.fluid.J_col[fluid]
+            deriv = -dT_mix_ph_dfluid(
+                ref.obj.p.val_SI, ref.obj.h.val_SI, fluid, ref.obj.fluid_data, ref.obj.mixing_rule
+            ) * ref.factor
+            # both connections may share the same fluid composition variables
+            if col == self.fluid.J_col.get(fluid):
+                deriv += self.jacobian[k, col]
+            self.jacobian[k, col] = deriv
 
     def calc_viscosity(self, T0=None):
         try:
-- 
2.43.0


From d1ffd322c46513897bbd502b86fe5510505be587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:21 +0000
Subject: [PATCH 10/68] fix: volumetric flow derivatives for mixtures

The mixing rule was not passed, and the specific volume was used as
starting value for the temperature iteration; specifying v for a mixture
with variable pressure or enthalpy raised an error.
---
 src/tespy/connections/connection.py           | 18 ++++++++++++++----
 src/tespy/tools/fluid_properties/functions.py |  4 ++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 85f7e75..546d59c 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -805,9 +805,13 @@ class Connection:
         if self.m.is_var:
             self.jacobian[k, self.m.J_col] = self.calc_vol(T0=self.T.val_SI)
         if self.p.is_var:
-            self.jacobian[k, self.p.J_col] = dv_mix_dph(self.p.val_SI, self.h.val_SI, self.fluid_data) * self.m.val_SI
+            self.jacobian[k, self.p.J_col] = dv_mix_dph(
+                self.p.val_SI, self.h.val_SI, self.fluid_data, self.mixing_rule, self.T.val_SI
+            ) * self.m.val_SI
         if self.h.is_var:
-            self.jacobian[k, self.h.J_col] = dv_mix_pdh(self.p.val_SI, self.h.val_SI, self.fluid_data) * self.m.val_SI
+            self.jacobian[k, self.h.J_col] = dv_mix_pdh(
+                self.p.val_SI, self.h.val_SI, self.fluid_data, self.mixing_rule, self.T.val_SI
+            ) * self.m.val_SI
 
     def v_ref_func(self, k, **kwargs):
         ref = self.v_ref.ref
@@ -827,12 +831,18 @@ class Connection:
             )
         if ref.obj.p.is_var:
             self.jacobian[k, ref.obj.p.J_col] = -(
-                dv_mix_dph(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data)
+                dv_mix_dph(
+                    ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data,
+                    ref.obj.mixing_rule, ref.obj.T.val_SI
+                )
                 * ref.obj.m.val_SI * ref.factor
             )
         if ref.obj.h.is_var:
             self.jacobian[k, ref.obj.h.J_col] = -(
-                dv_mix_pdh(ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data)
+                dv_mix_pdh(
+                    ref.obj.p.val_SI, ref.obj.h.val_SI, ref.obj.fluid_data,
+                    ref.obj.mixing_rule, ref.obj.T.val_SI
+                )
                 * ref.obj.m.val_SI * ref.factor
             )
 
diff --git a/src/tespy/tools/fluid_properties/functions.py b/src/tespy/tools/fluid_properties/functions.py
index 0ef9d58..dfa0f92 100644
--- a/src/tespy/tools/fluid_properties/functions.py
+++ b/src/tespy/tools/fluid_properties/functions.py
@@ -233,14 +233,14 @@ def v_mix_ph(p, h, fluid_data, mixing_rule=None, T0=None):
 def dv_mix_dph(p, h, fluid_data, mixing_rule=None, T0=None):
     d = 1e-1
     upper = v_mix_ph(p + d, h, fluid_data, mixing_rule=mixing_rule, T0=T0)
-    lower = v_mix_ph(p - d, h, fluid_data, mixing_rule=mixing_rule, T0=upper)
+    lower = v_mix_ph(p - d, h, fluid_data, mixing_rule=mixing_rule, T0=T0)
     return (upper - lower) / (2 * d)
 
 
 def dv_mix_pdh(p, h, fluid_data, mixing_rule=None, T0=None):
     d = 1e-1
     upper = v_mix_ph(p, h + d, fluid_data, mixing_rule=mixing_rule, T0=T0)
-    lower = v_mix_ph(p, h - d, fluid_data, mixing_rule=mixing_rule, T0=upper)
+    lower = v_mix_ph(p, h - d, fluid_data, mixing_rule=mixing_rule, T0=T0)
     return (upper - lower) / (2 * d)
 
 
-- 
2.43.0


From 820e4cb37fcc2ae0591285b5531bcac5af8f4da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:21 +0000
Subject: [PATCH 11/68] fix: mass flow derivative of the referenced volumetric
 flow in one branch

---
 src/tespy/connections/connection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 546d59c..427589c 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -826,9 +826,11 @@ class Connection:
 
         ref = self.v_ref.ref
         if ref.obj.m.is_var:
-            self.jacobian[k, ref.obj.m.J_col] = -(
-                ref.obj.calc_vol(T0=ref.obj.T.val_SI) * ref.factor
-            )
+            deriv = -ref.obj.calc_vol(T0=ref.obj.T.val_SI) * ref.factor
+            # both connections may share the same mass flow variable
+            if ref.obj.m.J_col == self.m.J_col:
+                deriv += self.jacobian[k, self.m.J_col]
+            self.jacobian[k, ref.obj.m.J_col] = deriv
         if ref.obj.p.is_var:
             self.jacobian[k, ref.obj.p.J_col] = -(
                 dv_mix_dph(
-- 
2.43.0


From b7664064636249c4809f938db4a8d409e9051b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:21 +0000
Subject: [PATCH 12/68] fix: derivative of the fluid balance equation

---
 src/tespy/connections/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 427589c..cd6de74 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -898,7 +898,7 @@ class Connection:
 
     def fluid_balance_deriv(self, k, **kwargs):
         for f in self.fluid.is_var:
-            self.jacobian[k, self.fluid.J_col[f]] = -self.fluid.val[f]
+            self.jacobian[k, self.fluid.J_col[f]] = -1
 
     def calc_s(self):
         try:
-- 
2.43.0


From 1cb6448d60f396dffb8abdb3155c7f3b72624c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:21 +0000
Subject: [PATCH 13/68] fix: unit of Td_bp in presolving of connection states

A temperature difference given in Fahrenheit or Rankine was taken as
Kelvin if the pressure is specified, too.
---
 src/tespy/connections/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index cd6de74..d68457c 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -653,7 +653,7 @@ class Connection:
                 self.T._solved = True
             elif self.Td_bp.is_set:
                 T_sat = T_sat_p(self.p.val_SI, self.fluid_data)
-                self.h.val_SI = h_mix_pT(self.p.val_SI, T_sat + self.Td_bp.val, self.fluid_data)
+                self.h.val_SI = h_mix_pT(self.p.val_SI, T_sat + self.Td_bp.val_SI, self.fluid_data)
                 self.h._solved = True
                 self.Td_bp._solved = True
             elif self.x.is_set:
-- 
2.43.0


From 67cd440bd50ffc9e6e48cfd3277f69e4e5638e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:21 +0000
Subject: [PATCH 14/68] fix: keep the vapor mass fraction if no boiling point
 difference exists

---
 src/tespy/connections/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index d68457c..f51f9df 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -961,7 +961,7 @@ class Connection:
                 if not self.Td_bp.is_set:
                     self.Td_bp.val_SI = self.calc_Td_bp()
             except ValueError:
-                self.x.val_SI = np.nan
+                self.Td_bp.val_SI = np.nan
 
         if _converged:
             self.vol.val_SI = self.calc_vol()
-- 
2.43.0


From d192d85c76090ef36da8cfbc8c7312a5877451fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:53 +0000
Subject: [PATCH 15/68] fix: keep the network units when reading starting
 values from init_path

---
 src/tespy/networks/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index c57adc9..c3e7ebb 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1552,8 +1552,10 @@ class Network:
 
         for prop in ['m', 'p', 'h']:
             data = c.get_attr(prop)
-            data.val0 = float(conn[prop])
-            data.unit = conn[prop + '_unit']
+            val_SI = hlp.convert_to_SI(
+                prop, float(conn[prop]), conn[prop + '_unit']
+            )
+            data.val0 = hlp.convert_from_SI(prop, val_SI, data.unit)
 
         for fluid in c.fluid.is_var:
             c.fluid.val[fluid] = float(conn[fluid])
-- 
2.43.0


From daf9f856872e2e2c45b2d68a1f3b21049e700064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:38 +0000
Subject: [PATCH 16/68] fix: numeric derivative of mass fractions close to zero

---
 src/tespy/tools/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tespy/tools/helpers.py b/src/tespy/tools/helpers.py
index 4ea3a9b..033bb27 100644
--- a/src/tespy/tools/helpers.py
+++ b/src/tespy/tools/helpers.py
@@ -428,6 +428,7 @@ def _numeric_deriv(obj, func, dx, conn=None, **kwargs):
         else:
             conn.fluid.val[dx] = 1
 
+        upper = conn.fluid.val[dx]
         conn.build_fluid_data()
         exp = func(**kwargs)
 
@@ -436,13 +437,15 @@ def _numeric_deriv(obj, func, dx, conn=None, **kwargs):
         else:
             conn.fluid.val[dx] = 0
 
+        lower = conn.fluid.val[dx]
         conn.build_fluid_data()
         exp -= func(**kwargs)
 
         conn.fluid.val[dx] = val
         conn.build_fluid_data()
 
-        deriv = exp / (2 * d)
+        # the step is shorter than 2 * d close to zero
+        deriv = exp / (upper - lower)
 
     elif dx in ['m', 'p', 'h']:
 
-- 
2.43.0


From eeae42bceff0eba3788650456ccefae55cf25968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 17/68] fix: inlet guide vane angle must not modify the
 characteristic map

---
 src/tespy/components/turbomachinery/compressor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tespy/components/turbomachinery/compressor.py b/src/tespy/components/turbomachinery/compressor.py
index 5bce0f5..380835d 100644
--- a/src/tespy/components/turbomachinery/compressor.py
+++ b/src/tespy/components/turbomachinery/compressor.py
@@ -381,8 +381,8 @@ class Compressor(Turbomachine):
 
         yarr, zarr = self.char_map_pr.char_func.evaluate_x(x)
         # value manipulation with igva
-        yarr *= (1 - self.igva.val / 100)
-        zarr *= (1 - self.igva.val / 100)
+        yarr = yarr * (1 - self.igva.val / 100)
+        zarr = zarr * (1 - self.igva.val / 100)
         pr = self.char_map_pr.char_func.evaluate_y(y, yarr, zarr)
 
         return (o.p.val_SI / i.p.val_SI) - pr * self.pr.design
@@ -484,8 +484,8 @@ class Compressor(Turbomachine):
 
         yarr, zarr = self.char_map_eta_s.char_func.evaluate_x(x)
         # value manipulation with igva
-        yarr *= (1 - self.igva.val / 100)
-        zarr *= (1 - self.igva.val ** 2 / 10000)
+        yarr = yarr * (1 - self.igva.val / 100)
+        zarr = zarr * (1 - self.igva.val ** 2 / 10000)
         eta = self.char_map_eta_s.char_func.evaluate_y(y, yarr, zarr)
 
         return (
@@ -674,7 +674,7 @@ class Compressor(Turbomachine):
                 y = (self.inl[0].m.val_SI * self.inl[0].p.design) / (
                     self.inl[0].m.design * self.inl[0].p.val_SI * x)
                 yarr = data.char_func.get_domain_errors_x(x, self.label)
-                yarr *= (1 - self.igva.val / 100)
+                yarr = yarr * (1 - self.igva.val / 100)
                 data.char_func.get_domain_errors_y(y, yarr, self.label)
 
     def exergy_balance(self, T0):
-- 
2.43.0


From 72a7281e2c87d4a655bccae8bef66788cb8d7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 18/68] fix: lower limit in the CharLine range message

---
 src/tespy/tools/characteristics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/tools/characteristics.py b/src/tespy/tools/characteristics.py
index 99d9440..959115e 100644
--- a/src/tespy/tools/characteristics.py
+++ b/src/tespy/tools/characteristics.py
@@ -142,8 +142,8 @@ class CharLine:
             logger.warning(msg)
         elif x < self.x[0]:
             msg = (
-                "Operating point belpw characteristic line range: X="
-                f"{round(x, 3)} with minimum of {self.x[1]} at component {c}."
+                "Operating point below characteristic line range: X="
+                f"{round(x, 3)} with minimum of {self.x[0]} at component {c}."
             )
             logger.warning(msg)
 
-- 
2.43.0


From 7ef21346eefddc5f96ad518d4bdc9acf812072c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:54 +0000
Subject: [PATCH 19/68] fix: derivative of the implicit bus value equation
 misses the component value

---
 src/tespy/tools/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/helpers.py b/src/tespy/tools/helpers.py
index 033bb27..d529e3b 100644
--- a/src/tespy/tools/helpers.py
+++ b/src/tespy/tools/helpers.py
@@ -507,7 +507,7 @@ def bus_char_evaluation(component_value, char_func, reference_value, bus_value,
 def bus_char_derivative(component_value, char_func, reference_value, bus_value, **kwargs):
     """Calculate derivative for bus char evaluation."""
     d = 1e-3
-    return (1 - (
+    return (1 - component_value * (
         1 / char_func.evaluate((bus_value + d) / reference_value) -
         1 / char_func.evaluate((bus_value - d) / reference_value)
     ) / (2 * d))
-- 
2.43.0


From 882c2517383237c19ee0c1041bdde8cef40fafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:54 +0000
Subject: [PATCH 20/68] fix: WaterElectrolyzer heat on bus misses derivative to
 inlet enthalpy, adds outlet twice

---
 src/tespy/components/reactors/water_electrolyzer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index d1299a0..8f17301 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -1012,10 +1012,10 @@ class WaterElectrolyzer(Component):
                     bus.jacobian[i.m.J_col] = 0
                 bus.jacobian[i.m.J_col] -= self.numeric_deriv(f, 'm', i, bus=bus)
 
-            if o.h.is_var:
-                if o.h.J_col not in bus.jacobian:
-                    bus.jacobian[o.h.J_col] = 0
-                bus.jacobian[o.h.J_col] -= self.numeric_deriv(f, 'h', o, bus=bus)
+            if i.h.is_var:
+                if i.h.J_col not in bus.jacobian:
+                    bus.jacobian[i.h.J_col] = 0
+                bus.jacobian[i.h.J_col] -= self.numeric_deriv(f, 'h', i, bus=bus)
 
             if o.h.is_var:
                 if o.h.J_col not in bus.jacobian:
-- 
2.43.0


From bb368e4403178d2f45bd0eee49c2b0452a13508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:00 +0000
Subject: [PATCH 21/68] fix: FuelCell counts its mass flow equations by a
 non-existent outlet

---
 src/tespy/components/reactors/fuel_cell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/reactors/fuel_cell.py b/src/tespy/components/reactors/fuel_cell.py
index 403f39b..ab40e1d 100644
--- a/src/tespy/components/reactors/fuel_cell.py
+++ b/src/tespy/components/reactors/fuel_cell.py
@@ -185,7 +185,7 @@ class FuelCell(Component):
     def get_mandatory_constraints(self):
         num_mass_eq = (
             (self.inl[1].m.is_var or self.outl[1].m.is_var)
-            + (self.inl[1].m.is_var or self.outl[2].m.is_var)
+            + (self.inl[2].m.is_var or self.outl[1].m.is_var)
         )
         return {
             'mass_flow_constraints': {
-- 
2.43.0


From 4c95b85a9c256f0ae5c8eb5ce06c5d9cbb641f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:00 +0000
Subject: [PATCH 22/68] fix: element balance of the combustion chamber for
 excess fuel

---
 src/tespy/components/combustion/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index baf43a8..0e6a9d8 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -530,13 +530,14 @@ class CombustionChamber(Component):
 
            \dot{m}_{H_{exc,m}} = \begin{cases}
            0 & \lambda \geq 1\\
-           4 \cdot \left( \dot{m}_{O_2,m,stoich} -
-           \dot{m}_{O_2,m}\right) & \lambda < 1
+           \dot{m}_{H_m} \cdot \left(1 - \frac{\dot{m}_{O_2,m}}
+           {\dot{m}_{O_2,m,stoich}}\right) & \lambda < 1
             \end{cases}
 
            \dot{m}_{C_{exc,m}} = \begin{cases}
            0 & \lambda \geq 1\\
-           \dot{m}_{O_2,m,stoich} - \dot{m}_{O_2,m} & \lambda < 1
+           \dot{m}_{C_m} \cdot \left(1 - \frac{\dot{m}_{O_2,m}}
+           {\dot{m}_{O_2,m,stoich}}\right) & \lambda < 1
             \end{cases}
 
         Equation for fuels
@@ -548,8 +549,8 @@ class CombustionChamber(Component):
 
             \dot{m}_{f,exc,m} = \begin{cases}
             0 & \lambda \geq 1\\
-            \dot{m}_{f,m} - \frac{\dot{m}_{O_2,m}}
-            {n_{C,fuel} + 0.25 \cdot n_{H,fuel}}
+            \dot{m}_{f,m} \cdot \left(1 - \frac{\dot{m}_{O_2,m}}
+            {\dot{m}_{O_2,m,stoich}}\right) & \lambda < 1
             \end{cases}
 
         Equation for oxygen
@@ -632,8 +633,8 @@ class CombustionChamber(Component):
         ###################################################################
         # calculate excess fuel if lambda is lower than 1
         if self.lamb.val < 1:
-            n_h_exc = (n_oxygen_stoich - n_oxygen) * 4
-            n_c_exc = (n_oxygen_stoich - n_oxygen)
+            n_h_exc = n_h * (1 - n_oxygen / n_oxygen_stoich)
+            n_c_exc = n_c * (1 - n_oxygen / n_oxygen_stoich)
         else:
             n_h_exc = 0
             n_c_exc = 0
-- 
2.43.0


From 710ec1f7821395a47555a11fdf9b472a89009fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:42 +0000
Subject: [PATCH 23/68] fix: specific volume of humid gas averages densities by
 mass instead of volumes

v_mix_pT_ideal_cond weighted the densities of the condensed water and of the
gas phase with the mass of the phases. The specific volumes add up by mass.
---
 src/tespy/tools/fluid_properties/mixtures.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tespy/tools/fluid_properties/mixtures.py b/src/tespy/tools/fluid_properties/mixtures.py
index 50eb7cf..759fcf8 100644
--- a/src/tespy/tools/fluid_properties/mixtures.py
+++ b/src/tespy/tools/fluid_properties/mixtures.py
@@ -153,16 +153,16 @@ def v_mix_pT_ideal_cond(p=None, T=None, fluid_data=None, **kwargs):
         mass_fractions_gas, molar_fraction_gas, mass_liquid, molar_liquid = cond_check(p, T, fluid_data, water_alias)
         if mass_liquid == 0:
             return v_mix_pT_ideal(p, T, fluid_data, **kwargs)
-        d = 0
+        d_gas = 0
         for fluid, data in fluid_data.items():
             if _is_larger_than_precision(data["mass_fraction"]):
                 if fluid == water_alias:
-                    d += fluid_data[water_alias]["wrapper"].d_QT(0, T) * mass_liquid
-                    d += fluid_data[water_alias]["wrapper"].d_QT(1, T) * (1 - mass_liquid)
+                    d_liquid = fluid_data[water_alias]["wrapper"].d_QT(0, T)
+                    d_gas += fluid_data[water_alias]["wrapper"].d_QT(1, T)
                 else:
                     pp = p * molar_fraction_gas[fluid]
-                    d += data["wrapper"].d_pT(pp, T) * (1 - mass_liquid)
-        return 1 / d
+                    d_gas += data["wrapper"].d_pT(pp, T)
+        return mass_liquid / d_liquid + (1 - mass_liquid) / d_gas
     else:
         return v_mix_pT_ideal(p, T, fluid_data, **kwargs)
 
-- 
2.43.0


From e7d4b2cc25c052bb69f06bcd3ebed9f43729b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:08 +0000
Subject: [PATCH 24/68] fix: rows of the system of equations shift when an
 object has no derivatives

---
 src/tespy/networks/network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index c3e7ebb..c5b6dc2 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -2402,7 +2402,7 @@ class Network:
                 columns = [k[1] for k in cp.jacobian]
                 data = list(cp.jacobian.values())
                 self.jacobian[rows, columns] = data
-                sum_eq += cp.num_eq
+            sum_eq += cp.num_eq
 
             cp.it += 1
 
@@ -2420,7 +2420,7 @@ class Network:
                 columns = [k[1] for k in c.jacobian]
                 data = list(c.jacobian.values())
                 self.jacobian[rows, columns] = data
-                sum_eq += c.num_eq
+            sum_eq += c.num_eq
 
             c.it += 1
 
@@ -2437,7 +2437,7 @@ class Network:
                 columns = [k for k in ude.jacobian]
                 data = list(ude.jacobian.values())
                 self.jacobian[sum_eq, columns] = data
-                sum_eq += 1
+            sum_eq += 1
 
     def solve_busses(self):
         r"""
-- 
2.43.0


From 21ff8e0002acf2e0617659eb4085660dd61534b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:43 +0000
Subject: [PATCH 25/68] fix: fluid branches connected over several other
 branches are not merged

---
 src/tespy/networks/network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index c5b6dc2..02c65e5 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -747,13 +747,17 @@ class Network:
         for branch_name, branch_data in self.fluid_wrapper_branches.items():
             if branch_name not in merged:
                 continue
-            for ob_name, ob_data in self.fluid_wrapper_branches.items():
-                if ob_name != branch_name:
+            found = True
+            while found:
+                found = False
+                for ob_name, ob_data in list(merged.items()):
+                    if ob_name == branch_name:
+                        continue
                     common_connections = list(
                         set(branch_data["connections"])
                         & set(ob_data["connections"])
                     )
-                    if len(common_connections) > 0 and ob_name in merged:
+                    if len(common_connections) > 0:
                         merged[branch_name]["connections"] = list(
                             set(branch_data["connections"] + ob_data["connections"])
                         )
-- 
2.43.0


From 9d48a2e44f2250cf11b583babc3c92d32b939f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:43 +0000
Subject: [PATCH 26/68] fix: connections of a branch keep sharing their
 composition after solving

---
 src/tespy/networks/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 02c65e5..74c80a4 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -765,7 +765,7 @@ class Network:
                             set(branch_data["components"] + ob_data["components"])
                         )
                         del merged[ob_name]
-                        break
+                        found = True
 
         self.fluid_wrapper_branches = merged
 
-- 
2.43.0


From 6ae59acc2003e71336290819e908ce2d64eae9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:43 +0000
Subject: [PATCH 27/68] fix: aborted calculation leaves connections sharing
 their specifications

---
 src/tespy/networks/network.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 74c80a4..3091790 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1137,7 +1137,7 @@ class Network:
                 c.m.unit = unit
                 del c._m_tmp
             if hasattr(c, "_fluid_tmp"):
-                val = c.fluid.val
+                val = c.fluid.val.copy()
                 c.fluid = c._fluid_tmp
                 c.fluid.val = val
                 del c._fluid_tmp
@@ -1968,18 +1968,23 @@ class Network:
         )
         logger.debug(msg)
 
-        self.initialise()
+        try:
+            self.initialise()
 
-        if init_only:
-            self.reset_topology_reduction_specifications()
-            return
+            if init_only:
+                self.reset_topology_reduction_specifications()
+                return
 
-        msg = 'Starting solver.'
-        logger.info(msg)
+            msg = 'Starting solver.'
+            logger.info(msg)
 
-        self.solve_determination()
+            self.solve_determination()
 
-        self.solve_loop(print_results=print_results)
+            self.solve_loop(print_results=print_results)
+        except Exception:
+            # connections must not keep on sharing their specifications
+            self.reset_topology_reduction_specifications()
+            raise
 
         if not prepare_fast_lane:
             self.reset_topology_reduction_specifications()
-- 
2.43.0


From a0f066e8953209d39a2c5972b7f9488ba1f2200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:42 +0000
Subject: [PATCH 28/68] fix: delete components from a network that has not been
 initialised yet

---
 src/tespy/networks/network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 3091790..98a80e6 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -560,9 +560,11 @@ class Network:
                 comp not in self.conns["target"].values
             ):
                 self.comps.drop(comp.label, inplace=True)
-                self.results[comp.__class__.__name__].drop(
-                    comp.label, inplace=True, errors="ignore"
-                )
+                comp_type = comp.__class__.__name__
+                if comp_type in self.results:
+                    self.results[comp_type].drop(
+                        comp.label, inplace=True, errors="ignore"
+                    )
                 msg = f"Deleted component {comp.label} from network."
                 logger.debug(msg)
 
-- 
2.43.0


From 1090793a8e1e2100a41f567d181259ca4e3ddf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:23 +0000
Subject: [PATCH 29/68] fix: fuel exergy of simple heat exchanger cooled below
 ambient temperature

---
 src/tespy/components/heat_exchangers/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index 287331e..d7179d0 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -1073,7 +1073,7 @@ class SimpleHeatExchanger(Component):
                 }
             elif self.inl[0].T.val_SI <= T0 and self.outl[0].T.val_SI <= T0:
                 self.E_P = self.outl[0].Ex_therm - self.inl[0].Ex_therm
-                self.E_F = self.outl[0].Ex_therm - self.outl[0].Ex_therm + (
+                self.E_F = self.outl[0].Ex_therm - self.inl[0].Ex_therm + (
                     self.inl[0].Ex_mech - self.outl[0].Ex_mech)
                 self.E_bus = {
                     "chemical": 0, "physical": 0, "massless": self.E_P
-- 
2.43.0


From 29b611e5bdef538e487a984a8e51a01f134caba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:23 +0000
Subject: [PATCH 30/68] fix: exergy balance of water electrolyzer: cooling
 inlet and bus exergy

---
 src/tespy/components/reactors/water_electrolyzer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/reactors/water_electrolyzer.py b/src/tespy/components/reactors/water_electrolyzer.py
index 8f17301..f107354 100644
--- a/src/tespy/components/reactors/water_electrolyzer.py
+++ b/src/tespy/components/reactors/water_electrolyzer.py
@@ -1172,10 +1172,12 @@ class WaterElectrolyzer(Component):
         self.E_P = (
             self.outl[1].Ex_chemical + self.outl[2].Ex_chemical
             - self.inl[1].Ex_chemical + self.outl[0].Ex_physical
-            + self.inl[0].Ex_physical
+            - self.inl[0].Ex_physical
         )
         self.E_F = self.P.val
 
         self.E_D = self.E_F - self.E_P
         self.epsilon = self._calc_epsilon()
-        self.E_bus = self.P.val
+        self.E_bus = {
+            "chemical": 0, "physical": 0, "massless": self.P.val
+        }
-- 
2.43.0


From 41e2dfa2dc9ec6b38e6275bcdd4ce450a458ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:23 +0000
Subject: [PATCH 31/68] fix: exergy balance of combustion engine and bus exergy
 of combustion components

---
 src/tespy/components/combustion/base.py   | 4 +++-
 src/tespy/components/combustion/engine.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index 0e6a9d8..ec2d231 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -1402,4 +1402,6 @@ class CombustionChamber(Component):
 
         self.E_D = self.E_F - self.E_P
         self.epsilon = self._calc_epsilon()
-        self.E_bus = np.nan
+        self.E_bus = {
+            "chemical": np.nan, "physical": np.nan, "massless": np.nan
+        }
diff --git a/src/tespy/components/combustion/engine.py b/src/tespy/components/combustion/engine.py
index 238daa6..1fe048a 100644
--- a/src/tespy/components/combustion/engine.py
+++ b/src/tespy/components/combustion/engine.py
@@ -1486,7 +1486,9 @@ class CombustionEngine(CombustionChamber):
 
         self.E_P = (
             self.outl[2].Ex_physical - (self.inl[3].Ex_physical + self.inl[2].Ex_physical)
-            - self.P.val + (self.outl[1] - self.inl[1]) + (self.outl[0] - self.inl[0])
+            - self.P.val
+            + (self.outl[1].Ex_physical - self.inl[1].Ex_physical)
+            + (self.outl[0].Ex_physical - self.inl[0].Ex_physical)
         )
         self.E_F = (
             self.inl[3].Ex_chemical + self.inl[2].Ex_chemical
@@ -1495,5 +1497,5 @@ class CombustionEngine(CombustionChamber):
         self.E_D = self.E_F - self.E_P
         self.epsilon = self._calc_epsilon()
         self.E_bus = {
-            "chemical": np.nan, "physical": np.nan, "massless": -self.P.val
+            "chemical": 0, "physical": 0, "massless": -self.P.val
         }
-- 
2.43.0


From 374c40f322b887d91d5561ddc5253877bcf152d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:43 +0000
Subject: [PATCH 32/68] fix: entropy balance of combustion components fails for
 missing reference entropy

---
 src/tespy/components/combustion/base.py      |  2 +-
 src/tespy/tools/fluid_properties/mixtures.py | 22 +++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index ec2d231..863929f 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -1384,7 +1384,7 @@ class CombustionChamber(Component):
         )
 
         for i in self.inl:
-            self.S_Qcomb -= i.m.val_SI * (
+            self.S_comb -= i.m.val_SI * (
                 i.s.val_SI - s_mix_pT(p_ref, T_ref, i.fluid_data, "forced-gas")
             )
 
diff --git a/src/tespy/tools/fluid_properties/mixtures.py b/src/tespy/tools/fluid_properties/mixtures.py
index 759fcf8..e3e0c94 100644
--- a/src/tespy/tools/fluid_properties/mixtures.py
+++ b/src/tespy/tools/fluid_properties/mixtures.py
@@ -121,6 +121,25 @@ def s_mix_pT_ideal_cond(p=None, T=None, fluid_data=None, **kwargs):
         return s_mix_pT_ideal(p, T, fluid_data, **kwargs)
 
 
+def s_mix_pT_forced_gas(p=None, T=None, fluid_data=None, **kwargs):
+    molar_fractions = get_molar_fractions(fluid_data)
+
+    s = 0
+    for fluid, data in fluid_data.items():
+
+        if _is_larger_than_precision(data["mass_fraction"]):
+            pp = p * molar_fractions[fluid]
+            if fluid == "H2O" and pp >= data["wrapper"]._p_min:
+                if T <= data["wrapper"].T_sat(pp):
+                    s += data["wrapper"].s_QT(1, T) * data["mass_fraction"]
+                else:
+                    s += data["wrapper"].s_pT(pp, T) * data["mass_fraction"]
+            else:
+                s += data["wrapper"].s_pT(pp, T) * data["mass_fraction"]
+
+    return s
+
+
 def s_mix_pT_incompressible(p=None, T=None, fluid_data=None, **kwargs):
 
     s = 0
@@ -359,7 +378,8 @@ H_MIX_PT_DIRECT = {
 S_MIX_PT_DIRECT = {
     "ideal": s_mix_pT_ideal,
     "ideal-cond": s_mix_pT_ideal_cond,
-    "incompressible": s_mix_pT_incompressible
+    "incompressible": s_mix_pT_incompressible,
+    "forced-gas": s_mix_pT_forced_gas
 }
 
 
-- 
2.43.0


From 282b1f875e8713cb51ce1269a4d7172095e31c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:43 +0000
Subject: [PATCH 33/68] fix: exergy analysis fails for streams of different
 category between two groups

---
 src/tespy/tools/analyses.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tespy/tools/analyses.py b/src/tespy/tools/analyses.py
index 5a246c9..d004889 100644
--- a/src/tespy/tools/analyses.py
+++ b/src/tespy/tools/analyses.py
@@ -663,7 +663,9 @@ class ExergyAnalysis:
         )
         for fkt_group, data in self.sankey_data.items():
             if group_label in data.index:
-                value += data.loc[idx[group_label, :], self.exergy_cats].values
+                value += data.loc[
+                    idx[group_label, :], self.exergy_cats
+                ].sum().values
         return value
 
     def single_group_input(self, group_label, group_data):
-- 
2.43.0


From 9c39906ef209d79598b6eab225a8e5e0a8fb9222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 34/68] fix: composition of connections of a loaded network
 cannot be changed

---
 src/tespy/networks/network_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tespy/networks/network_reader.py b/src/tespy/networks/network_reader.py
index f75ee03..07303f2 100644
--- a/src/tespy/networks/network_reader.py
+++ b/src/tespy/networks/network_reader.py
@@ -369,6 +369,7 @@ def _construct_connections(data, comps):
         for f, engine in conn["fluid"]["engine"].items():
             conn["fluid"]["engine"][f] = wrapper_registry.items[engine]
 
+        conn["fluid"]["is_set"] = set(conn["fluid"]["is_set"])
         conns[label].fluid.set_attr(**conn["fluid"])
         conns[label]._create_fluid_wrapper()
 
-- 
2.43.0


From f4cf7c4c2035cf446bbd05800965375fcbba0d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 35/68] fix: loading a network activates references that are
 not set

---
 src/tespy/networks/network_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tespy/networks/network_reader.py b/src/tespy/networks/network_reader.py
index 07303f2..770cd6a 100644
--- a/src/tespy/networks/network_reader.py
+++ b/src/tespy/networks/network_reader.py
@@ -383,6 +383,7 @@ def _construct_connections(data, comps):
                     conn[arg]["delta"]
                 )
                 conns[label].set_attr(**{param: ref})
+                conns[label].get_attr(arg).is_set = conn[arg]["is_set"]
 
     return conns
 
-- 
2.43.0


From ab1bf27288b9a69c2498dd693af214873e68c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 36/68] fix: local_offdesign of connections is lost on export

---
 src/tespy/connections/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index f51f9df..5d1b63e 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -589,8 +589,8 @@ class Connection:
     def _serializable():
         return [
             "source_id", "target_id",
-            "design_path", "design", "offdesign", "local_design", "local_design",
-            "printout", "mixing_rule"
+            "design_path", "design", "offdesign", "local_design",
+            "local_offdesign", "printout", "mixing_rule"
         ]
 
     def _create_fluid_wrapper(self):
-- 
2.43.0


From f0449a728a72b1cb32e15f7d7be5ef09851a7a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 37/68] fix: starting values of fluid compositions are lost on
 export

---
 src/tespy/tools/data_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/data_containers.py b/src/tespy/tools/data_containers.py
index fae107d..78e05b5 100644
--- a/src/tespy/tools/data_containers.py
+++ b/src/tespy/tools/data_containers.py
@@ -364,7 +364,7 @@ class FluidComposition(DataContainer):
         }
 
     def _serialize(self):
-        export = {"val": self.val}
+        export = {"val": self.val, "val0": self.val0}
         export["is_set"] = list(self.is_set)
         export["engine"] = {k: e.__name__ for k, e in self.engine.items()}
         export["back_end"] = {k: b for k, b in self.back_end.items()}
-- 
2.43.0


From 6bfbca5ecfa4c310e869f1bfd8b8e2dfe2b9c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 38/68] fix: networks with unregistered component classes
 cannot be loaded

---
 src/tespy/components/heat_exchangers/movingboundary.py | 2 ++
 src/tespy/components/heat_exchangers/simple.py         | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/tespy/components/heat_exchangers/movingboundary.py b/src/tespy/components/heat_exchangers/movingboundary.py
index a95d0db..ae8b1bd 100644
--- a/src/tespy/components/heat_exchangers/movingboundary.py
+++ b/src/tespy/components/heat_exchangers/movingboundary.py
@@ -14,6 +14,7 @@ import math
 
 import numpy as np
 
+from tespy.components.component import component_registry
 from tespy.components.heat_exchangers.base import HeatExchanger
 from tespy.tools.data_containers import ComponentProperties as dc_cp
 from tespy.tools.fluid_properties import T_mix_ph
@@ -23,6 +24,7 @@ from tespy.tools.global_vars import ERR
 from tespy.tools.logger import logger
 
 
+@component_registry
 class MovingBoundaryHeatExchanger(HeatExchanger):
     r"""
     Class for counter current heat exchanger with UA sections.
diff --git a/src/tespy/components/heat_exchangers/simple.py b/src/tespy/components/heat_exchangers/simple.py
index d7179d0..d8b3d9b 100644
--- a/src/tespy/components/heat_exchangers/simple.py
+++ b/src/tespy/components/heat_exchangers/simple.py
@@ -1162,6 +1162,7 @@ class SimpleHeatExchanger(Component):
         }
 
 
+@component_registry
 class HeatExchangerSimple(SimpleHeatExchanger):
 
     def __init__(self, label, **kwargs):
-- 
2.43.0


From 2f72626bb4bd74ab87e91ed0f06e17f838df5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 39/68] fix: saved results are not found for labels that look
 like numbers

---
 src/tespy/networks/network.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 98a80e6..107f918 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1322,9 +1322,7 @@ class Network:
                     )
                     logger.debug(msg)
                     if path not in _local_design_paths:
-                        _local_design_paths[path] = pd.read_csv(
-                            path, sep=';', decimal='.', index_col=0
-                        )
+                        _local_design_paths[path] = self._read_csv(path)
                     data = _local_design_paths[path].loc[cp.label]
                     # write data
                     self.init_comp_design_params(cp, data)
@@ -1411,8 +1409,7 @@ class Network:
                 f"from path {path}."
             )
             logger.debug(msg)
-            df = pd.read_csv(path, sep=';', decimal='.', index_col=0)
-            df.index = df.index.astype(str)
+            df = self._read_csv(path)
 
             # iter through all components of this type and set data
             _individual_design_paths = {}
@@ -1429,11 +1426,8 @@ class Network:
                     )
                     logger.debug(msg)
                     if path_c not in _individual_design_paths:
-                        _individual_design_paths[path_c] = pd.read_csv(
-                            path_c, sep=';', decimal='.', index_col=0
-                        )
-                        _individual_design_paths[path_c].index = (
-                            _individual_design_paths[path_c].index.astype(str)
+                        _individual_design_paths[path_c] = (
+                            self._read_csv(path_c)
                         )
                     data = _individual_design_paths[path_c].loc[comp.label]
 
@@ -1854,8 +1848,13 @@ class Network:
             f"Reading design point information for connections from {path}."
         )
         logger.debug(msg)
-        df = pd.read_csv(path, index_col=0, delimiter=';', decimal='.')
-        return df
+        return Network._read_csv(path)
+
+    @staticmethod
+    def _read_csv(path):
+        r"""Read saved results, labels are kept exactly as saved."""
+        df = pd.read_csv(path, sep=';', decimal='.', converters={0: str})
+        return df.set_index(df.columns[0])
 
     def solve(self, mode, init_path=None, design_path=None,
               max_iter=50, min_iter=4, init_only=False, init_previous=True,
-- 
2.43.0


From 91c0fa32452b8110a5665ee4a770aa8f43548a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 40/68] fix: export leaves components and busses of an earlier
 export behind

---
 src/tespy/networks/network.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 107f918..ba1a06f 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -2793,7 +2793,13 @@ class Network:
         logger.debug('Connection information exported to %s.', fn)
 
     def export_components(self, fn):
-        for c in self.comps["comp_type"].unique():
+        # components of a previous export to the same path
+        types = self.comps["comp_type"].unique()
+        for fname in os.listdir(fn):
+            if fname.endswith(".json") and fname[:-5] not in types:
+                os.remove(os.path.join(fn, fname))
+
+        for c in types:
             components = {}
             for cp in self.comps.loc[self.comps["comp_type"] == c, "object"]:
                 components.update(cp._serialize())
@@ -2804,11 +2810,10 @@ class Network:
             logger.debug('Component information exported to %s.', fname)
 
     def export_busses(self, fn):
-        if len(self.busses) > 0:
-            busses = {}
-            for bus in self.busses.values():
-                busses.update(bus._serialize())
-            fn = os.path.join(fn, 'busses.json')
-            with open(fn, "w", encoding="utf-8") as f:
-                json.dump(busses, f, indent=4)
-            logger.debug('Bus information exported to %s.', fn)
+        busses = {}
+        for bus in self.busses.values():
+            busses.update(bus._serialize())
+        fn = os.path.join(fn, 'busses.json')
+        with open(fn, "w", encoding="utf-8") as f:
+            json.dump(busses, f, indent=4)
+        logger.debug('Bus information exported to %s.', fn)
-- 
2.43.0


From b8470b1df55eceafa835d84175e3feef6438292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:03 +0000
Subject: [PATCH 41/68] fix: networks with values of numpy integer type cannot
 be exported

---
 src/tespy/networks/network.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index ba1a06f..a422e2e 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -2782,6 +2782,13 @@ class Network:
                 json.dump(bus_data, f, indent=4)
             logger.debug('Bus information saved to %s.', fn)
 
+    @staticmethod
+    def _to_builtin(value):
+        r"""Replace values of numpy data types for export."""
+        if isinstance(value, np.generic):
+            return value.item()
+        raise TypeError(f"{type(value)} cannot be exported.")
+
     def export_connections(self, fn):
         connections = {}
         for c in self.conns["object"]:
@@ -2789,7 +2796,7 @@ class Network:
 
         fn = os.path.join(fn, "connections.json")
         with open(fn, "w", encoding="utf-8") as f:
-            json.dump(connections, f, indent=4)
+            json.dump(connections, f, indent=4, default=self._to_builtin)
         logger.debug('Connection information exported to %s.', fn)
 
     def export_components(self, fn):
@@ -2806,7 +2813,7 @@ class Network:
 
             fname = os.path.join(fn, f"{c}.json")
             with open(fname, "w", encoding="utf-8") as f:
-                json.dump(components, f, indent=4)
+                json.dump(components, f, indent=4, default=self._to_builtin)
             logger.debug('Component information exported to %s.', fname)
 
     def export_busses(self, fn):
@@ -2815,5 +2822,5 @@ class Network:
             busses.update(bus._serialize())
         fn = os.path.join(fn, 'busses.json')
         with open(fn, "w", encoding="utf-8") as f:
-            json.dump(busses, f, indent=4)
+            json.dump(busses, f, indent=4, default=self._to_builtin)
         logger.debug('Bus information exported to %s.', fn)
-- 
2.43.0


From 0a61a04025a91f0b321c844a85d6254310838325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:51 +0000
Subject: [PATCH 42/68] fix: design mass flow is lost when the specified mass
 flow moves within a branch

---
 src/tespy/networks/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index a422e2e..369c359 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1134,9 +1134,11 @@ class Network:
             if hasattr(c, "_m_tmp"):
                 value = c.m.val_SI
                 unit = c.m.unit
+                design = c.m.design
                 c.m = c._m_tmp
                 c.m.val_SI = value
                 c.m.unit = unit
+                c.m.design = design
                 del c._m_tmp
             if hasattr(c, "_fluid_tmp"):
                 val = c.fluid.val.copy()
-- 
2.43.0


From 37e7370d1a62bba3e36aaef9e0df46f9deaf603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:51 +0000
Subject: [PATCH 43/68] fix: starting values of the composition are lost with
 the first calculation

---
 src/tespy/networks/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 369c359..8e3f8e2 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1040,6 +1040,7 @@ class Network:
             if len(fluid_specs) == 0:
                 main_conn._fluid_tmp = dc_flu()
                 main_conn._fluid_tmp.val = main_conn.fluid.val.copy()
+                main_conn._fluid_tmp.val0 = main_conn.fluid.val0.copy()
                 main_conn._fluid_tmp.is_set = main_conn.fluid.is_set.copy()
                 main_conn._fluid_tmp.is_var = main_conn.fluid.is_var.copy()
                 main_conn._fluid_tmp.wrapper = main_conn.fluid.wrapper.copy()
@@ -1102,6 +1103,7 @@ class Network:
 
                 main_conn._fluid_tmp = dc_flu()
                 main_conn._fluid_tmp.val = main_conn.fluid.val.copy()
+                main_conn._fluid_tmp.val0 = main_conn.fluid.val0.copy()
                 main_conn._fluid_tmp.is_set = main_conn.fluid.is_set.copy()
                 main_conn._fluid_tmp.is_var = main_conn.fluid.is_var.copy()
                 main_conn._fluid_tmp.wrapper = main_conn.fluid.wrapper.copy()
-- 
2.43.0


From 67319868a26367d80ebed6eaf595bde6842f9cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:41 +0000
Subject: [PATCH 44/68] fix: local offdesign of connections does not use the
 design values

---
 src/tespy/networks/network.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 8e3f8e2..d4cd3f2 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1247,6 +1247,14 @@ class Network:
         # connections
         self._conn_variables = []
         _local_designs = {}
+        # unset all design values before reading any: connections of a branch
+        # share their mass flow
+        for c in self.conns['object']:
+            c.m.design = np.nan
+            c.p.design = np.nan
+            c.h.design = np.nan
+            c.fluid.design = {}
+
         for c in self.conns['object']:
             # read design point information of connections with
             # local_offdesign activated from their respective design path
@@ -1263,10 +1271,6 @@ class Network:
                 # unset design parameters
                 for var in c.design:
                     c.get_attr(var).is_set = False
-                # set offdesign parameters
-                for var in c.offdesign:
-                    c.get_attr(var).is_set = True
-
                 # read design point information
                 msg = (
                     "Reading individual design point information for "
@@ -1281,13 +1285,13 @@ class Network:
                 # write data to connections
                 self.init_conn_design_params(c, df)
 
-            else:
-                # unset all design values
-                c.m.design = np.nan
-                c.p.design = np.nan
-                c.h.design = np.nan
-                c.fluid.design = {}
+                # set offdesign parameters
+                for var in c.offdesign:
+                    param = c.get_attr(var)
+                    param.is_set = True
+                    param.val_SI = param.design
 
+            else:
                 c.new_design = True
 
                 # switch connections to design mode
-- 
2.43.0


From f371a32ebd73f3ef75c0d7d7276303f3eebff371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:08 +0000
Subject: [PATCH 45/68] fix: specifying nan does not unset a connection
 parameter

---
 src/tespy/connections/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 5d1b63e..0a90c75 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -516,7 +516,11 @@ class Connection:
         except (TypeError, ValueError):
             is_numeric = False
 
-        if value is None:
+        unset = value is None or (
+            is_numeric and key in self.property_data
+            and np.isnan(float(value))
+        )
+        if unset:
             self.get_attr(key).set_attr(is_set=False)
 
             if f"{key}_ref" in self.property_data:
-- 
2.43.0


From b4fba10aa9011865ce688b592e2b1dcc70eb05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 46/68] fix: saturation pressure of the iapws wrapper

---
 src/tespy/tools/fluid_properties/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index fd1d727..ddc0008 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -374,7 +374,7 @@ class IAPWSWrapper(FluidPropertyWrapper):
         if T > self._T_crit:
             T = self._T_crit * 0.99
 
-        return self.AS(T=T / 1e6, x=0).P * 1e6
+        return self.AS(T=T, x=0).P * 1e6
 
     def Q_ph(self, p, h):
         p = self._make_p_subcritical(p)
-- 
2.43.0


From 1acd559ba7323cdc6f39b36cc88c417d1ddc0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 47/68] fix: molar mass of the iapws wrapper is in g/mol

---
 src/tespy/tools/fluid_properties/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/fluid_properties/wrappers.py b/src/tespy/tools/fluid_properties/wrappers.py
index ddc0008..a10b284 100644
--- a/src/tespy/tools/fluid_properties/wrappers.py
+++ b/src/tespy/tools/fluid_properties/wrappers.py
@@ -332,7 +332,7 @@ class IAPWSWrapper(FluidPropertyWrapper):
         self._p_max = 100e6
         self._p_crit = iapws._iapws.Pc * 1e6
         self._T_crit = iapws._iapws.Tc
-        self._molar_mass = iapws._iapws.M
+        self._molar_mass = iapws._iapws.M / 1000
 
     def _is_below_T_critical(self, T):
         return T < self._T_crit
-- 
2.43.0


From c6b42af99e03e5fc167d1939ee4de20d47377217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 48/68] fix: starting value of a reference overwrites a state
 fixed by other specifications

---
 src/tespy/networks/network.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index d4cd3f2..90c0666 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1714,7 +1714,12 @@ class Network:
                 if self.specifications["Ref"].loc[c.label].any():
                     for key in self.specifications["Ref"].columns:
                         prop = key.split("_ref")[0]
-                        if c.get_attr(key).is_set and not c.get_attr(prop).is_set:
+                        # do not overwrite values, which are no variables
+                        if prop in ['m', 'p', 'h']:
+                            is_free = c.get_attr(prop).is_var
+                        else:
+                            is_free = not c.get_attr(prop).is_set
+                        if c.get_attr(key).is_set and is_free:
                             c.get_attr(prop).val_SI = (
                                 c.get_attr(key).ref.obj.get_attr(prop).val_SI
                                 * c.get_attr(key).ref.factor
-- 
2.43.0


From 9baa71a75977c64df22168a5376d8e9b1c8a59d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 49/68] fix: enthalpy is corrected into the wrong phase if the
 saturation enthalpy is negative

---
 src/tespy/connections/connection.py | 4 ++--
 src/tespy/networks/network.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 0a90c75..af13b28 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -1035,12 +1035,12 @@ class Connection:
         if (self.Td_bp.val_SI > 0 or (self.state.val == 'g' and self.state.is_set)):
             h = self.fluid.wrapper[fluid].h_pQ(self.p.val_SI, 1)
             if self.h.val_SI < h:
-                self.h.val_SI = h * 1.01
+                self.h.val_SI = h + abs(h) * 0.01
                 logger.debug(self._property_range_message('h'))
         elif (self.Td_bp.val_SI < 0 or (self.state.val == 'l' and self.state.is_set)):
             h = self.fluid.wrapper[fluid].h_pQ(self.p.val_SI, 0)
             if self.h.val_SI > h:
-                self.h.val_SI = h * 0.99
+                self.h.val_SI = h - abs(h) * 0.01
                 logger.debug(self._property_range_message('h'))
 
     def check_temperature_bounds(self):
diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 90c0666..1e670ee 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1737,12 +1737,12 @@ class Network:
                         (c.state.val == 'g' and c.state.is_set)):
                     h = fp.h_mix_pQ(c.p.val_SI, 1, c.fluid_data)
                     if c.h.val_SI < h:
-                        c.h.val_SI = h * 1.001
+                        c.h.val_SI = h + abs(h) * 0.001
                 elif ((c.Td_bp.val_SI < 0 and c.Td_bp.is_set) or
                       (c.state.val == 'l' and c.state.is_set)):
                     h = fp.h_mix_pQ(c.p.val_SI, 0, c.fluid_data)
                     if c.h.val_SI > h:
-                        c.h.val_SI = h * 0.999
+                        c.h.val_SI = h - abs(h) * 0.001
 
         msg = 'Generic fluid property specification complete.'
         logger.debug(msg)
-- 
2.43.0


From dffba077411bece96ada36c49b8a90e8795522dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 50/68] fix: superheating of a previous calculation overrules
 the specified state

---
 src/tespy/connections/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index af13b28..7fd0b36 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -1032,12 +1032,14 @@ class Connection:
 
     def check_two_phase_bounds(self, fluid):
 
-        if (self.Td_bp.val_SI > 0 or (self.state.val == 'g' and self.state.is_set)):
+        if ((self.Td_bp.val_SI > 0 and self.Td_bp.is_set)
+                or (self.state.val == 'g' and self.state.is_set)):
             h = self.fluid.wrapper[fluid].h_pQ(self.p.val_SI, 1)
             if self.h.val_SI < h:
                 self.h.val_SI = h + abs(h) * 0.01
                 logger.debug(self._property_range_message('h'))
-        elif (self.Td_bp.val_SI < 0 or (self.state.val == 'l' and self.state.is_set)):
+        elif ((self.Td_bp.val_SI < 0 and self.Td_bp.is_set)
+                or (self.state.val == 'l' and self.state.is_set)):
             h = self.fluid.wrapper[fluid].h_pQ(self.p.val_SI, 0)
             if self.h.val_SI > h:
                 self.h.val_SI = h - abs(h) * 0.01
-- 
2.43.0


From b090901fa9ec87473eec37a63854bfc2549d4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 51/68] fix: pump moves a volumetric flow within its
 characteristic to the lower limit

---
 src/tespy/components/turbomachinery/pump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/turbomachinery/pump.py b/src/tespy/components/turbomachinery/pump.py
index 43ed38d..814410b 100644
--- a/src/tespy/components/turbomachinery/pump.py
+++ b/src/tespy/components/turbomachinery/pump.py
@@ -434,7 +434,7 @@ class Pump(Turbomachine):
 
             if expr > self.flow_char.char_func.x[-1] and i.m.is_var:
                 i.m.val_SI = self.flow_char.char_func.x[-1] / vol
-            elif expr < self.flow_char.char_func.x[1] and i.m.is_var:
+            elif expr < self.flow_char.char_func.x[0] and i.m.is_var:
                 i.m.val_SI = self.flow_char.char_func.x[0] / vol
             else:
                 pass
-- 
2.43.0


From a557b634a078ee1a32c6aa906ce068a2937539b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 52/68] fix: combustion chamber fails if only the air inlet has
 good starting values

---
 src/tespy/components/combustion/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tespy/components/combustion/base.py b/src/tespy/components/combustion/base.py
index 863929f..12cf20e 100644
--- a/src/tespy/components/combustion/base.py
+++ b/src/tespy/components/combustion/base.py
@@ -1258,6 +1258,7 @@ class CombustionChamber(Component):
         # additional checks for performance improvement
         if self.lamb.val < 2 and not self.lamb.is_set:
             # search fuel and air inlet
+            air_tmp = None
             for i in inl:
                 fuel_found = False
                 if not i.good_starting_values:
@@ -1273,7 +1274,7 @@ class CombustionChamber(Component):
                     if fuel < 0.75:
                         air_tmp = i.m.val_SI
 
-            if fuel_found:
+            if fuel_found and air_tmp is not None:
                 fuel_inlet.m.val_SI = air_tmp / 25
 
     @staticmethod
-- 
2.43.0


From ca6c2d221fc4a619c9c611d1c1c554e55f765a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 53/68] fix: individuals at a constraint are listed as invalid

---
 src/tespy/tools/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/optimization.py b/src/tespy/tools/optimization.py
index 4154d1a..4f79ac6 100644
--- a/src/tespy/tools/optimization.py
+++ b/src/tespy/tools/optimization.py
@@ -228,7 +228,7 @@ class OptimizationProblem:
             individual += 1
 
         self.individuals['valid'] = (
-            self.individuals[self.constraint_list] < 0
+            self.individuals[self.constraint_list] <= 0
         ).all(axis='columns')
 
     def run(self, algo, pop, num_ind, num_gen):
-- 
2.43.0


From 57604d5aa7f5828ad1e359547b4dc45a3076e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:56 +0000
Subject: [PATCH 54/68] fix: changing engine or back end of a fluid after a
 calculation has no effect

---
 src/tespy/connections/connection.py | 7 +++++++
 src/tespy/networks/network.py       | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 7fd0b36..a5f5465 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -481,12 +481,19 @@ class Connection:
                     self.fluid.is_set.add(fluid)
                     if fluid in self.fluid.is_var:
                         self.fluid.is_var.remove(fluid)
+                    # a different back end requires a new wrapper
+                    if self.fluid.back_end.get(fluid) != back_end:
+                        self.fluid.wrapper.pop(fluid, None)
                     self.fluid.back_end[fluid] = back_end
 
         elif key == "fluid0":
             self.fluid.val0.update(value)
 
         elif key == "fluid_engines":
+            # a different engine requires a new wrapper
+            for fluid, wrapper in list(self.fluid.wrapper.items()):
+                if type(wrapper) is not value.get(fluid, CoolPropWrapper):
+                    del self.fluid.wrapper[fluid]
             self.fluid.engine = value
 
         elif key == "fluid_balance":
diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 1e670ee..5214320 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -967,8 +967,12 @@ class Network:
                             c.fluid.val[f] = c.fluid.val0[f]
 
                 for f, engine in engines.items():
+                    if c.fluid.engine.get(f, engine) is not engine:
+                        c.fluid.wrapper.pop(f, None)
                     c.fluid.engine[f] = engine
                 for f, back_end in back_ends.items():
+                    if c.fluid.back_end.get(f, back_end) != back_end:
+                        c.fluid.wrapper.pop(f, None)
                     c.fluid.back_end[f] = back_end
 
                 c._create_fluid_wrapper()
-- 
2.43.0


From 47c57aac8c227a325fb8b36de2252a38b477061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:57 +0000
Subject: [PATCH 55/68] fix: the mixing rule cannot be changed after a
 calculation

---
 src/tespy/connections/connection.py | 2 ++
 src/tespy/networks/network.py       | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index a5f5465..b630d89 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -271,6 +271,7 @@ class Connection:
         self.property_data0 = [x + '0' for x in self.property_data.keys()]
         self.__dict__.update(self.property_data)
         self.mixing_rule = None
+        self._inherited_mixing_rule = None
         msg = (
             f"Created connection from {self.source.label} ({self.source_id}) "
             f"to {self.target.label} ({self.target_id})."
@@ -454,6 +455,7 @@ class Connection:
 
             elif key == "mixing_rule":
                 self.mixing_rule = kwargs[key]
+                self._inherited_mixing_rule = None
 
             # invalid keyword
             else:
diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 5214320..ef9cb15 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -929,6 +929,7 @@ class Network:
             mixing_rules = [
                 c.mixing_rule for c in all_connections
                 if c.mixing_rule is not None
+                and c.mixing_rule != c._inherited_mixing_rule
             ]
             mixing_rule = set(mixing_rules)
             if len(mixing_rule) > 1:
@@ -953,6 +954,9 @@ class Network:
                 raise hlp.TESPyNetworkError(msg)
 
             for c in all_connections:
+                # remember rules not specified by the user
+                if c.mixing_rule in (None, c._inherited_mixing_rule):
+                    c._inherited_mixing_rule = list(mixing_rule)[0]
                 c.mixing_rule = list(mixing_rule)[0]
                 c._potential_fluids = potential_fluids
                 if num_potential_fluids == 1:
-- 
2.43.0


From b8b0fb6700f0d573f431563df61ebc1625565a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:57 +0000
Subject: [PATCH 56/68] fix: results replace the specified temperature and
 volumetric flow

---
 src/tespy/connections/connection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index b630d89..7163b8a 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -930,6 +930,11 @@ class Connection:
             data.deriv(k, **data.func_params)
 
     def calc_results(self):
+        # results do not replace the values specified by the user
+        specified = {
+            prop: self.get_attr(prop).val_SI for prop in ["T", "v"]
+            if self.get_attr(prop).is_set
+        }
         self.T.val_SI = self.calc_T()
         number_fluids = get_number_of_fluids(self.fluid_data)
         _converged = True
@@ -982,8 +987,9 @@ class Connection:
             self.s.val_SI = self.calc_s()
 
         for prop in fpd.keys():
+            value = specified.get(prop, self.get_attr(prop).val_SI)
             self.get_attr(prop).val = convert_from_SI(
-                prop, self.get_attr(prop).val_SI, self.get_attr(prop).unit
+                prop, value, self.get_attr(prop).unit
             )
 
         self.m.val0 = self.m.val
-- 
2.43.0


From e9945aa718f232ceb20b775bc26d67110aae934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:57 +0000
Subject: [PATCH 57/68] fix: results of an unfinished calculation replace
 specified values

---
 src/tespy/networks/network.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index ef9cb15..380d25b 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -2521,6 +2521,15 @@ class Network:
         """Process the component results."""
         # components
         for cp in self.comps['object']:
+            # the results of an unfinished calculation do not replace the
+            # values specified by the user
+            specified = {}
+            if not self.converged:
+                specified = {
+                    param: data.val for param, data in cp.parameters.items()
+                    if isinstance(data, dc_cp) and data.func is not None
+                    and data.is_set and not data.is_var
+                }
             cp.calc_parameters()
             cp.check_parameter_bounds()
 
@@ -2533,6 +2542,9 @@ class Network:
                 else:
                     self.results[key].loc[cp.label, param] = np.nan
 
+            for param, val in specified.items():
+                cp.get_attr(param).val = val
+
     def process_busses(self):
         """Process the bus results."""
         # busses
@@ -2561,7 +2573,8 @@ class Network:
                 result = [cmp_val, bus_val, eff, design_value]
                 self.results[b.label].loc[cp.label] = result
 
-            b.P.val = float(self.results[b.label]['bus value'].sum())
+            if self.converged or not b.P.is_set:
+                b.P.val = float(self.results[b.label]['bus value'].sum())
 
     def print_results(self, colored=True, colors=None, print_results=True):
         r"""Print the calculations results to prompt."""
-- 
2.43.0


From 9180efdd5154b9cf4dacd7ec6a5b6a5e19de45c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:51 +0000
Subject: [PATCH 58/68] fix: printing the results of a network never solved
 fails with a KeyError

---
 src/tespy/networks/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 380d25b..b027dd1 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -2590,7 +2590,7 @@ class Network:
         }
         coloring.update(colors)
 
-        if not hasattr(self, 'results'):
+        if 'Connection' not in self.results:
             msg = (
                 'It is not possible to print the results of a network, that '
                 'has never been solved successfully. Results DataFrames are '
-- 
2.43.0


From 31e7281f96bcf06d49dc66aa016ded2770fb6baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:51 +0000
Subject: [PATCH 59/68] fix: printed results show values specified after the
 calculation

---
 src/tespy/networks/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index b027dd1..484b5e8 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -2633,7 +2633,7 @@ class Network:
                 for col in df.columns:
                     if conn.get_attr(col).is_set:
                         df.loc[c, col] = (
-                            coloring['set'] + str(conn.get_attr(col).val) +
+                            coloring['set'] + df.loc[c, col] +
                             coloring['end'])
 
         if len(df) > 0:
-- 
2.43.0


From ce89c0cc20cd14bcc2b7e435e863620597c67acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:51 +0000
Subject: [PATCH 60/68] fix: vapor mass fraction and phase of an earlier pure
 fluid kept for mixtures

---
 src/tespy/connections/connection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tespy/connections/connection.py b/src/tespy/connections/connection.py
index 7163b8a..8fe95f2 100644
--- a/src/tespy/connections/connection.py
+++ b/src/tespy/connections/connection.py
@@ -939,6 +939,11 @@ class Connection:
         number_fluids = get_number_of_fluids(self.fluid_data)
         _converged = True
         if number_fluids > 1:
+            # these are available for pure fluids only
+            for prop in ["x", "Td_bp"]:
+                if not self.get_attr(prop).is_set:
+                    self.get_attr(prop).val_SI = np.nan
+            self.phase.val = np.nan
             h_from_T = h_mix_pT(self.p.val_SI, self.T.val_SI, self.fluid_data, self.mixing_rule)
             if abs(h_from_T - self.h.val_SI) > ERR ** .5 and abs((h_from_T - self.h.val_SI) / self.h.val_SI) > ERR ** .5:
                 self.T.val_SI = np.nan
-- 
2.43.0


From 083833451e2d2e732dbe549ed1df4c53a2fac86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:51 +0000
Subject: [PATCH 61/68] fix: specified characteristics groups are lost when
 exporting

---
 src/tespy/tools/data_containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tespy/tools/data_containers.py b/src/tespy/tools/data_containers.py
index 78e05b5..37036c8 100644
--- a/src/tespy/tools/data_containers.py
+++ b/src/tespy/tools/data_containers.py
@@ -441,6 +441,9 @@ class GroupedComponentCharacteristics(DataContainer):
             'num_eq': 0, 'latex': None, 'func_params': {}
         }
 
+    def _serialize(self):
+        return {'is_set': self.is_set}
+
 
 class FluidProperties(DataContainer):
     """
-- 
2.43.0


From 794c92e5cb47a1cf82783f6092457819b958341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:51 +0000
Subject: [PATCH 62/68] fix: bad datatypes for parameter groups of components
 are ignored

---
 src/tespy/components/component.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tespy/components/component.py b/src/tespy/components/component.py
index 50798af..73e3c2c 100644
--- a/src/tespy/components/component.py
+++ b/src/tespy/components/component.py
@@ -220,6 +220,15 @@ class Component:
                         logger.error(msg)
                         raise TypeError(msg)
 
+                # groups are only specified by dictionaries
+                else:
+                    msg = (
+                        f"Bad datatype for keyword argument {key} for "
+                        f"component {self.label}."
+                    )
+                    logger.error(msg)
+                    raise TypeError(msg)
+
             elif key in ['design', 'offdesign']:
                 if not isinstance(kwargs[key], list):
                     msg = (
-- 
2.43.0


From 225f1a4481c7beb5796d6f6756340bf3c8078167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:57 +0000
Subject: [PATCH 63/68] fix: documenting a model with references fails

---
 src/tespy/tools/document_models.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/tespy/tools/document_models.py b/src/tespy/tools/document_models.py
index 0db50a2..7320a1e 100644
--- a/src/tespy/tools/document_models.py
+++ b/src/tespy/tools/document_models.py
@@ -234,7 +234,7 @@ def document_connections(nw, rpt):
         LaTeX code for all connections.
     """
 
-    ref_data = {'m': [], 'p': [], 'h': [], 'T': []}
+    ref_data = {'m': [], 'p': [], 'h': [], 'T': [], 'v': []}
 
     cols = nw.results['Connection'].columns
     property_cols = [c for c in cols[~cols.isin(nw.all_fluids)] if "unit" not in c]
@@ -259,11 +259,11 @@ def document_connections(nw, rpt):
                 ref_dict = {'label': c.label.replace('_', r'\_')}
                 ref_dict.update(
                     {'reference':
-                     c.get_attr(param).val.obj.label.replace('_', r'\_'),
-                     'factor in -': c.get_attr(param).val.factor,
+                     c.get_attr(param).ref.obj.label.replace('_', r'\_'),
+                     'factor in -': c.get_attr(param).ref.factor,
                      'delta in ' + hlp.latex_unit(
                          nw.get_attr(param.split("_ref")[0] + '_unit')):
-                     c.get_attr(param).val.delta})
+                     c.get_attr(param).ref.delta})
 
                 ref_data[param.split("_ref")[0]] += [ref_dict]
 
@@ -450,7 +450,7 @@ def document_connection_ref(df, property, c):
     latex += r'\subsection{Equation applied}' + '\n\n'
     eq = (
         r'0 = \text{value} - \text{value}_\mathrm{ref} '
-        r'\cdot \mathrm{factor} + \text{delta}')
+        r'\cdot \mathrm{factor} - \text{delta}')
     latex += generate_latex_eq(c, eq, 'ref') + '\n\n'
     return latex
 
@@ -937,8 +937,9 @@ def create_latex_table(df, caption, col_fmt=None):
     latex : str
         LaTeX code for table.
     """
-    df['label'] = df.index.astype('str')
-    df['label'] = df['label'].str.replace('_', r'\_')
+    if 'label' not in df.columns:
+        df['label'] = df.index.astype('str')
+        df['label'] = df['label'].str.replace('_', r'\_')
     df.set_index('label', inplace=True)
     try:
         df.replace({'nan': '-'}, inplace=True)
-- 
2.43.0


From c1e6a9458069eba4b0321eead31b345708285057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:57 +0000
Subject: [PATCH 64/68] fix: documenting a model with bus characteristics fails

---
 src/tespy/tools/document_models.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tespy/tools/document_models.py b/src/tespy/tools/document_models.py
index 7320a1e..54fb336 100644
--- a/src/tespy/tools/document_models.py
+++ b/src/tespy/tools/document_models.py
@@ -492,7 +492,7 @@ def document_ude(nw, path):
             local_path = (
                 'figures/UDE_CharLine_' +
                 ude_data.label.replace(' ', '_') + '_' + str(i) + '.pdf')
-            figname = path + local_path
+            figname = os.path.join(path, local_path)
             label = 'UDE_CharLine_' + ude_data.label + '_' + str(i)
             xlabel = '$X$'
             ylabel = r'$f\left(X\right)$'
@@ -507,7 +507,7 @@ def document_ude(nw, path):
             local_path = (
                 'figures/UDE_CharMap_' +
                 ude_data.label.replace(' ', '_') + '_' + str(i) + '.pdf')
-            figname = path + local_path
+            figname = os.path.join(path, local_path)
             label = 'UDE_CharLine_' + ude_data.label + '_' + str(i)
             xlabel = '$Y$'
             ylabel = r'$f\left(Y,\vec{Y},\vec{Z}\right)$'
@@ -582,7 +582,7 @@ def get_component_mandatory_constraints(cp, component_list, path):
                 local_path = (
                     'figures/' + cp + '_CharLine_' + label + '_' +
                     component.label.replace(' ', '_') + '.pdf')
-                figname = path + local_path
+                figname = os.path.join(path, local_path)
                 xlabel = r'$X$'
                 ylabel = r'$f\left(X\right)$'
                 component.get_attr(data['char']).char_func.plot(
@@ -817,7 +817,8 @@ def document_busses(nw, rpt):
                         'label':
                             'Bus_CharLine_' + cp.label + nw.mode
                     }
-                    figname = rpt['path'] + chars_plotted[key]['path']
+                    figname = os.path.join(
+                        rpt['path'], chars_plotted[key]['path'])
                     if nw.mode == 'design':
                         xlabel = (
                             r'Energy flow ratio $X$ ($X=1$ in design mode)')
-- 
2.43.0


From b5921e94f7c96d6f40d2fcdeb0cc683ed8ff2ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:57 +0000
Subject: [PATCH 65/68] fix: specifications of a branch are documented at all
 of its connections

---
 src/tespy/networks/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tespy/networks/network.py b/src/tespy/networks/network.py
index 484b5e8..53fda0f 100644
--- a/src/tespy/networks/network.py
+++ b/src/tespy/networks/network.py
@@ -1767,6 +1767,8 @@ class Network:
         # variables 0 to 9: fluid properties
         local_vars = list(fpd.keys())
         row = [c.get_attr(var).is_set for var in local_vars]
+        # mass flow and composition are shared within a branch
+        row[local_vars.index('m')] = getattr(c, '_m_tmp', c.m).is_set
         # write information to specifaction dataframe
         self.specifications['Connection'].loc[c.label, local_vars] = row
 
@@ -1776,7 +1778,8 @@ class Network:
 
         # variables 9 to last but one: fluid mass fractions
         fluids = list(self.all_fluids)
-        row = [True if f in c.fluid.is_set else False for f in fluids]
+        is_set = getattr(c, '_fluid_tmp', c.fluid).is_set
+        row = [True if f in is_set else False for f in fluids]
         self.specifications['Connection'].loc[c.label, fluids] = row
 
         # last one: fluid balance specification
-- 
2.43.0


From b7d7c5f8d090691701f8cab6fa0b85d4c6866b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:57 +0000
Subject: [PATCH 66/68] fix: specified parameters without an equation are not
 documented

---
 src/tespy/tools/document_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/tools/document_models.py b/src/tespy/tools/document_models.py
index 54fb336..5c958c7 100644
--- a/src/tespy/tools/document_models.py
+++ b/src/tespy/tools/document_models.py
@@ -703,7 +703,7 @@ def get_component_specifications(nw, cp, rpt):
         if any(specs[col]) and col not in group_elements:
             data = nw.get_comp(row).get_attr(col)
             if data.latex is None:
-                df_data[col] = np.nan
+                col_headers[col] = col.replace('_', r'\_')
             else:
                 col_headers[col] = (
                     col.replace('_', r'\_') +
-- 
2.43.0


From 2b4a4643b4cef0ce01e610a80d87ab5d1e34dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:57 +0000
Subject: [PATCH 67/68] fix: equations activated by a flag are not documented

---
 src/tespy/tools/document_models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tespy/tools/document_models.py b/src/tespy/tools/document_models.py
index 5c958c7..f6ed989 100644
--- a/src/tespy/tools/document_models.py
+++ b/src/tespy/tools/document_models.py
@@ -20,6 +20,7 @@ from tespy.tools import helpers as hlp
 from tespy.tools.data_containers import ComponentCharacteristicMaps as dc_cm
 from tespy.tools.data_containers import ComponentCharacteristics as dc_cc
 from tespy.tools.data_containers import ComponentProperties as dc_cp
+from tespy.tools.data_containers import SimpleDataContainer as dc_simple
 from tespy.tools.global_vars import fluid_property_data as fpd
 from tespy.tools.logger import check_git_branch
 from tespy.tools.logger import check_version
@@ -712,6 +713,13 @@ def get_component_specifications(nw, cp, rpt):
         else:
             col_headers[col] = col.replace('_', r'\_')
 
+    # equations activated by a flag do not have a column
+    components = nw.comps[nw.comps['comp_type'] == cp]['object']
+    for key, data in components.iloc[0].parameters.items():
+        if isinstance(data, dc_simple) and data.latex is not None:
+            if any(c.get_attr(key).is_set for c in components):
+                equations += data.latex(key, **data.func_params) + '\n\n'
+
     df_data.dropna(how='all', axis=1, inplace=True)
     df_data.rename(columns=col_headers, inplace=True)
 
-- 
2.43.0


From d306b55c5adbd93b7f9439cf5ae7b4131dbc375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:18 +0000
Subject: [PATCH 68/68] fix: fluid deviation of cycle closers ignores or misses
 fluids of one side

---
 src/tespy/components/basics/cycle_closer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tespy/components/basics/cycle_closer.py b/src/tespy/components/basics/cycle_closer.py
index e1a455d..9d47bcd 100644
--- a/src/tespy/components/basics/cycle_closer.py
+++ b/src/tespy/components/basics/cycle_closer.py
@@ -173,5 +173,5 @@ class CycleCloser(Component):
         # calculate deviation in fluid composition
         d1 = self.inl[0].fluid.val
         d2 = self.outl[0].fluid.val
-        diff = [d1[key] - d2[key] for key in d1.keys()]
+        diff = [d1.get(key, 0) - d2.get(key, 0) for key in {**d1, **d2}]
         self.fluid_deviation.val = np.linalg.norm(diff)
-- 
2.43.0

