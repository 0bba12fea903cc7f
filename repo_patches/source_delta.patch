From 4fed23fa7c7ce82cd72085f923133ae46cc37814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 01/25] fix: potentials with features: include the feature in
 d4V and in the slow-roll parameters

---
 primpy/potentials.py | 63 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 5d8c4a7..3ccd51d 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -1298,6 +1298,11 @@ class FeatureFunction(ABC):
     def d3F(x, x0, a, b):
         """Feature function 3rd derivative."""
 
+    @staticmethod
+    @abstractmethod
+    def d4F(x, x0, a, b):
+        """Feature function 4th derivative."""
+
 
 class GaussianDip(FeatureFunction):
     """Gaussian: `F(x) = -a * exp(-(x-x0)**2 / (2*b**2))`."""
@@ -1322,6 +1327,12 @@ class GaussianDip(FeatureFunction):
         """`F'''(x) = a/b**6 * (x-x0) * ((x-x0)**2 - 3*b**2) * exp(-(x-x0)**2 / (2*b**2))`."""
         return a / b**6 * (x - x0) * ((x - x0)**2 - 3 * b**2) * np.exp(-(x - x0)**2 / (2 * b**2))
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        r"""`F''''(x0+d) = -a/b**8 * (3*b**4 - 6*b**2*d**2 + d**4) * exp(-d**2/(2*b**2))`."""
+        return (-a / b**8 * (3 * b**4 - 6 * b**2 * (x - x0)**2 + (x - x0)**4)
+                * np.exp(-(x - x0)**2 / (2 * b**2)))
+
 
 class TanhStep(FeatureFunction):
     """Tanh step function: `F(x) = a * tanh((x - x0) / b)`."""
@@ -1349,6 +1360,12 @@ class TanhStep(FeatureFunction):
         tanh = np.tanh((x - x0) / b)
         return -2 * a / b**3 * (1 - 4 * tanh**2 + 3 * tanh**4)
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = 8*a/b**4 * tanh((x-x0)/b) * (2-5*tanh((x-x0)/b)**2+3*tanh((x-x0)/b)**4)`."""
+        tanh = np.tanh((x - x0) / b)
+        return 8 * a / b**4 * tanh * (2 - 5 * tanh**2 + 3 * tanh**4)
+
 
 class FeaturePotential(InflationaryPotential, FeatureFunction):
     """Inflationary potential with a feature: `V(phi) = V0(phi) * (1+F(phi))`."""
@@ -1411,6 +1428,52 @@ class FeaturePotential(InflationaryPotential, FeatureFunction):
         d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
         return d3V0 * (1 + F) + 3 * d2V0 * dF + 3 * dV0 * d2F + V0 * d3F
 
+    def d4V(self, phi):
+        r"""Fourth derivative of the inflationary potential with a feature.
+
+        .. math::
+            V''''(\phi) = V_0''''(\phi) * (1 + F(\phi))
+                         + 4 * V_0'''(\phi) * F'(\phi)
+                         + 6 * V_0''(\phi) * F''(\phi)
+                         + 4 * V_0'(\phi) * F'''(\phi)
+                         + V_0(\phi) * F''''(\phi)
+        """
+        V0 = super().V(phi)
+        dV0 = super().dV(phi)
+        d2V0 = super().d2V(phi)
+        d3V0 = super().d3V(phi)
+        d4V0 = super().d4V(phi)
+        F = super().F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        dF = super().dF(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d2F = super().d2F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d4F = super().d4F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        return d4V0 * (1 + F) + 4 * d3V0 * dF + 6 * d2V0 * d2F + 4 * dV0 * d3F + V0 * d4F
+
+    # The closed forms of the featureless base potential do not apply to the potential slow-roll
+    # parameters, so use their definitions in terms of the derivatives of the full potential.
+    def get_epsilon_1V(self, phi):  # noqa: D102
+        return (self.dV(phi) / self.V(phi))**2 / 2
+
+    def get_epsilon_2V(self, phi):  # noqa: D102
+        V = self.V(phi)
+        return 2 * ((self.dV(phi) / V)**2 - self.d2V(phi) / V)
+
+    def get_epsilon_3V(self, phi):  # noqa: D102
+        V = self.V(phi)
+        u = self.dV(phi) / V
+        du = self.d2V(phi) / V - u**2
+        d2u = self.d3V(phi) / V - 3 * u * du - u**3
+        return -u * d2u / du
+
+    def get_epsilon_4V(self, phi):  # noqa: D102
+        V = self.V(phi)
+        u = self.dV(phi) / V
+        du = self.d2V(phi) / V - u**2
+        d2u = self.d3V(phi) / V - 3 * u * du - u**3
+        d3u = self.d4V(phi) / V - 4 * u * d2u - 3 * du**2 - 6 * u**2 * du - u**4
+        return -u * (du / u + d3u / d2u - d2u / du)
+
 
 class StarobinskyGaussianDipPotential(FeaturePotential, StarobinskyPotential, GaussianDip):
     """Starobinsky potential with a Gaussian dip."""
-- 
2.43.0


From b96d4be64b0ef86e7b13e165961c3329551b8858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 02/25] fix: third time derivative of the inflaton in curved
 universes

---
 primpy/time/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/time/inflation.py b/primpy/time/inflation.py
index 5b6d8a9..1df001b 100644
--- a/primpy/time/inflation.py
+++ b/primpy/time/inflation.py
@@ -77,7 +77,7 @@ class InflationEquationsT(InflationEquations):
     @staticmethod
     def get_d3phi(H, dH, d2H, dphi, d2phi, dV, d2V):  # noqa: D102
         # here: d3phi/dt3
-        return -3 * H * d2phi - d2V * dphi + 3 * dphi**3 / 2
+        return -3 * H * d2phi - d2V * dphi - 3 * dH * dphi
 
     @staticmethod
     def get_d4phi(H, dH, d2H, d3H, dphi, d2phi, d3phi, dV, d2V, d3V):  # noqa: D102
-- 
2.43.0


From 16d8e59d1e70b2890cbd596d6d6de8493f57c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 03/25] fix: refuse a primordial curvature density whose sign
 does not match the geometry

---
 primpy/initialconditions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 8aef2fd..b84eeed 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -58,6 +58,11 @@ class SlowRollIC(InitialConditions):
                 raise InflationStartError(
                     "Primordial curvature for open universes has to be Omega_Ki < 1, "
                     "but Omega_Ki = %g was requested." % self.Omega_Ki, geometry="open")
+            if equations.K * self.Omega_Ki >= 0:
+                raise InflationStartError(
+                    "Primordial curvature has to be Omega_Ki > 0 for open (K=-1) and Omega_Ki < 0 "
+                    "for closed (K=+1) universes and cannot be requested for flat universes, but "
+                    "Omega_Ki = %g was requested with K = %g." % (self.Omega_Ki, equations.K))
             self.N_i = np.log(3 * equations.K / self.V_i * (1 - 1 / self.Omega_Ki)) / 2
             self.aH2_i = -equations.K / self.Omega_Ki
             self.aH_i = np.sqrt(self.aH2_i)
@@ -132,6 +137,11 @@ class InflationStartIC(InitialConditions):
                 raise InflationStartError(
                     "Primordial curvature for open universes has to be Omega_Ki < 1, "
                     "but Omega_Ki = %g was requested." % self.Omega_Ki, geometry="open")
+            if equations.K * self.Omega_Ki >= 0:
+                raise InflationStartError(
+                    "Primordial curvature has to be Omega_Ki > 0 for open (K=-1) and Omega_Ki < 0 "
+                    "for closed (K=+1) universes and cannot be requested for flat universes, but "
+                    "Omega_Ki = %g was requested with K = %g." % (self.Omega_Ki, equations.K))
             self.N_i = np.log(2 * equations.K / self.V_i * (1 - 1 / self.Omega_Ki)) / 2
             self.aH_i = np.sqrt(-equations.K / self.Omega_Ki)
         else:
-- 
2.43.0


From 9a55eb5d4bdd670e5a79651dc5eb1b92f7923109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 04/25] fix: recognise a terminal start-of-inflation event in
 classification and warning

---
 primpy/exceptionhandling.py |  2 +-
 primpy/inflation.py         | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/primpy/exceptionhandling.py b/primpy/exceptionhandling.py
index 97615b4..7bbaf52 100644
--- a/primpy/exceptionhandling.py
+++ b/primpy/exceptionhandling.py
@@ -121,7 +121,7 @@ class InflationStartWarning(InflationWarning):
         events = kwargs.pop('events', None)
         if events is None:
             self.message = "%s. %s" % (self.header, message)
-        elif 'Inflation_dir+1_term1' not in events and 'Inflation_dir+1_term0' not in events:
+        elif 'Inflation_dir1_term1' not in events and 'Inflation_dir1_term0' not in events:
             extra_info = ("Not tracking `InflationEvent`. Events tracked are %s. In order to "
                           "determine the start of inflation `_N_beg`, make sure to track the "
                           "event `InflationEvent(equations, direction=+1)` defined in "
diff --git a/primpy/inflation.py b/primpy/inflation.py
index a206ed5..f8bb5c7 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -416,13 +416,14 @@ class InflationEquations(Equations, ABC):
             sol._N_beg = sol._N[0]
             sol.H_beg = self.H(sol.x[0], sol.y[:, 0])
         # Case 2: there is a transition from non-inflating to inflating
-        elif ('Inflation_dir1_term0' in sol._N_events and
-              np.size(sol._N_events['Inflation_dir1_term0']) > 0):
-            sol._N_beg = sol._N_events['Inflation_dir1_term0'][0]
-            sol.H_beg = self.H(sol.x_events['Inflation_dir1_term0'][0],
-                               sol.y_events['Inflation_dir1_term0'][0])
         else:
-            self.vwarn(InflationStartWarning("", events=sol._N_events))
+            for key in ['Inflation_dir1_term0', 'Inflation_dir1_term1']:
+                if key in sol._N_events and np.size(sol._N_events[key]) > 0:
+                    sol._N_beg = sol._N_events[key][0]
+                    sol.H_beg = self.H(sol.x_events[key][0], sol.y_events[key][0])
+                    break
+            else:
+                self.vwarn(InflationStartWarning("", events=sol._N_events))
         sol._logaH_beg = sol._N_beg + np.log(sol.H_beg)
 
     def postprocessing_inflation_end(self, sol):
-- 
2.43.0


From e15c1aa2716ab720c082b0b1d9f036e6aaf341d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 05/25] fix: shooting for N_tot or N_star reports success only
 when the target is reached

---
 primpy/initialconditions.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index b84eeed..ccdc349 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -176,6 +176,21 @@ class InflationStartIC(InitialConditions):
             y0[self.equations.idx['eta']] = self.eta_i
 
 
+def shoot(phii2diff, ivp_kwargs, phi_i_bracket, name, **kwargs):
+    """Find the `phi_i` for which the target quantity `name` is reached, or raise."""
+    try:
+        output = root_scalar(phii2diff, args=(ivp_kwargs,), bracket=phi_i_bracket, **kwargs)
+    except ValueError as error:
+        raise PrimpyError("Shooting for `%s` failed in the bracket `phi_i_bracket=%s`: %s"
+                          % (name, phi_i_bracket, error)) from error
+    # root finding also converges on jumps, e.g. from collapse to more than the target
+    difference = phii2diff(output.root, ivp_kwargs)
+    if not np.abs(difference) < 1e-3:
+        raise PrimpyError("Shooting for `%s` failed: closest approach at `phi_i=%.15g` misses the "
+                          "target by %g." % (name, output.root, difference))
+    return output
+
+
 # noinspection PyPep8Naming
 class ISIC_Nt(InflationStartIC):
     """Inflation start initial conditions given `N_tot` and either of `N_i` or `Omega_Ki`."""
@@ -222,7 +237,7 @@ class ISIC_Nt(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N_tot, phi_i))
                 return sol._N[-1] - ic.N_i
             elif (np.size(sol._N_events['Collapse']) > 0 or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 return 0 - self.N_tot
             elif 'step size' in sol.message:
@@ -232,10 +247,10 @@ class ISIC_Nt(InflationStartIC):
                 raise PrimpyError("`solve_ivp` failed with message: %s" % sol.message)
 
         if isinstance(self.equations, InflationEquationsN):
-            output = root_scalar(phii2Ntot, args=(ivp_kwargs,), bracket=self.phi_i_bracket,
-                                 rtol=1e-6, xtol=1e-6)
+            output = shoot(phii2Ntot, ivp_kwargs, self.phi_i_bracket, 'N_tot',
+                           rtol=1e-6, xtol=1e-6)
         else:
-            output = root_scalar(phii2Ntot, args=(ivp_kwargs,), bracket=self.phi_i_bracket)
+            output = shoot(phii2Ntot, ivp_kwargs, self.phi_i_bracket, 'N_tot')
         self.vprint(output)
         phi_i_new = output.root
         super(ISIC_Nt, self).__init__(equations=self.equations,
@@ -303,12 +318,12 @@ class ISIC_NsOk(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N0, phi_i))
                 return sol._N[-1]
             elif (np.size(sol._N_events['Collapse']) > 0 or sol.N_tot <= self.N_star or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 if sol.N_tot <= self.N_star:
                     self.vwarn(InflationWarning("Insufficient inflation: N_tot = %g < %g = N_star"
                                                 % (sol.N_tot, self.N_star)))
-                elif sol._N_events['Inflation_dir-1_term1'] == sol._N[0]:
+                elif np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
                     self.vwarn(InflationWarning("Universe has ended early: _N[0]=%g, _N_events=%s"
                                                 % (sol._N[0], sol._N_events)))
                 return 0 - self.N_star
@@ -319,10 +334,10 @@ class ISIC_NsOk(InflationStartIC):
                 raise PrimpyError("`solve_ivp` failed with message: %s" % sol.message)
 
         if isinstance(self.equations, InflationEquationsN):
-            output = root_scalar(phii2Nstar, args=(ivp_kwargs,), bracket=self.phi_i_bracket,
-                                 rtol=1e-6, xtol=1e-6)
+            output = shoot(phii2Nstar, ivp_kwargs, self.phi_i_bracket, 'N_star',
+                           rtol=1e-6, xtol=1e-6)
         else:
-            output = root_scalar(phii2Nstar, args=(ivp_kwargs,), bracket=self.phi_i_bracket)
+            output = shoot(phii2Nstar, ivp_kwargs, self.phi_i_bracket, 'N_star')
         self.vprint(output)
         phi_i_new = output.root
         super(ISIC_NsOk, self).__init__(equations=self.equations,
-- 
2.43.0


From e61a36e0a42e30da9a78b0d923b77a82d55dd0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 06/25] fix: duration of reheating from w_reh and rho_reh_GeV
 in curved universes

---
 primpy/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index f8bb5c7..efff1b3 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -806,7 +806,7 @@ class InflationEquations(Equations, ABC):
                         sol.w_reh = w_reh
                         sol.rho_reh_GeV = rho_reh_GeV
                         sol.rho_reh_mp4 = rho_reh_GeV**4 / mp_GeV * lp_iGeV**3
-                        sol.DeltaN_reh = -(1+w_reh) / 3 * np.log(2/3 * sol.rho_reh_mp4 / sol.V_end)
+                        sol.DeltaN_reh = np.log(3/2*sol.V_end/sol.rho_reh_mp4) / (3*(1+w_reh))
                         sol.DeltaN_minus1 = sol.DeltaN_reh / 4 * (1 - 3 * w_reh)
                         sol.N0 += sol.DeltaN_minus1
                         sol._N_reh = sol._N_end + sol.DeltaN_reh
-- 
2.43.0


From e17f671304ed288cc9ab5cedb7aa3d03e28daaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 07/25] fix: undetermined reheating density is nan in Planck
 units, too, for Omega_K0 calibration

---
 primpy/inflation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index efff1b3..5efc287 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -752,6 +752,7 @@ class InflationEquations(Equations, ABC):
                     sol.N0 = np.log(sol.a0)
                     if rho_reh_GeV is None:
                         sol.rho_reh_GeV = np.nan
+                        sol.rho_reh_mp4 = np.nan
                         sol._N_reh = np.nan
                         sol.w_reh = np.nan
                         sol.DeltaN_reh = np.nan
-- 
2.43.0


From 498e07ea430745e577eb4e4c6228c25e9f9a22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 08/25] fix: refuse over-determined calibration requests
 instead of ignoring arguments

---
 primpy/inflation.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 5efc287..f7dc67d 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -547,6 +547,10 @@ class InflationEquations(Equations, ABC):
                         if N_star is None or N_star <= 0:
                             raise ValueError(f"For calibration_method='N_star' N_star>0 must be "
                                              f"given, but got N_star={N_star}.")
+                        if DeltaN_minus1 is not None:
+                            raise ValueError(f"For calibration_method='N_star' DeltaN_minus1 is a "
+                                             f"derived parameter and must be None, but got "
+                                             f"DeltaN_minus1={DeltaN_minus1}.")
                         if N_star > sol.N_tot:
                             raise InsufficientInflationError(
                                 f"The total number of e-folds of inflation N_tot={sol.N_tot} is "
@@ -612,6 +616,10 @@ class InflationEquations(Equations, ABC):
                             )
 
                     elif calibration_method == 'reheating':  # derive _N_cross from reheating
+                        if N_star is not None:
+                            raise ValueError(f"For calibration_method='reheating' N_star is a "
+                                             f"derived parameter and must be None, but got "
+                                             f"N_star={N_star}.")
                         if (DeltaN_reh is not None and DeltaN_reh < 0 or
                                 w_reh is not None and w_reh < -1/3):
                             raise ValueError(f"DeltaN_reh must be positive (end of reheating "
@@ -746,6 +754,11 @@ class InflationEquations(Equations, ABC):
                     elif np.sign(Omega_K0) != -sol.K:
                         raise ValueError(f"The global geometry needs to match, but "
                                          f"Omega_K0={Omega_K0} whereas K={sol.K}.")
+                    if w_reh is not None or DeltaN_reh is not None or DeltaN_minus1 is not None:
+                        raise ValueError(f"For calibration_method='Omega_K0' only rho_reh_GeV may "
+                                         f"be given to specify reheating, but got w_reh={w_reh}, "
+                                         f"DeltaN_reh={DeltaN_reh}, and "
+                                         f"DeltaN_minus1={DeltaN_minus1}.")
                     sol.Omega_K0 = Omega_K0
                     sol.a0_Mpc = c / (h * 100 * 1e3) * np.sqrt(-sol.K / Omega_K0)
                     sol.a0 = sol.a0_Mpc * Mpc_m / lp_m
@@ -793,6 +806,10 @@ class InflationEquations(Equations, ABC):
                         sol.rho_reh_mp4 = 3/2 * sol.V_end
                         sol.rho_reh_GeV = (sol.rho_reh_mp4 * mp_GeV / lp_iGeV**3)**(1/4)
                         sol._N_reh = sol._N_end
+                    elif DeltaN_minus1 is not None:
+                        raise ValueError(f"For curved universes DeltaN_minus1 is a derived "
+                                         f"parameter and must be None (or zero for instant "
+                                         f"reheating), but got DeltaN_minus1={DeltaN_minus1}.")
                     elif w_reh is not None and DeltaN_reh is not None and rho_reh_GeV is None:
                         # reheating from w_reh and DeltaN_reh
                         sol.w_reh = w_reh
-- 
2.43.0


From 25a426e7992b6a15e9016271da423b04330ac982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 09/25] fix: a calibration does not depend on what was
 calibrated or attempted before

---
 primpy/inflation.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index f7dc67d..678eec6 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1,5 +1,6 @@
 """General setup for equations for cosmic inflation."""
 from warnings import warn
+from functools import wraps
 from abc import ABC
 import numpy as np
 from scipy.special import zeta
@@ -460,7 +461,24 @@ class InflationEquations(Equations, ABC):
         sol.N_tot = sol._N_end - sol._N_beg
         if np.isfinite(sol._N_beg) and np.isfinite(sol._N_end):
             sol.inflation_mask = (sol._N_beg < sol._N) & (sol._N < sol._N_end)
-
+        uncalibrated = {key: sol[key] for key in ('_N_end', 'inflation_mask') if key in sol}
+        calibrated = set()  # names of the attributes derived by previous calibrations
+
+        def keep_previous_calibration_on_failure(calibrate):
+            """Leave an existing calibration as it was if a new one fails."""
+            @wraps(calibrate)
+            def wrapper(*args, **kwargs):
+                previous = dict(sol)
+                try:
+                    return calibrate(*args, **kwargs)
+                except Exception:
+                    sol.update(previous)
+                    raise
+                finally:
+                    calibrated.update(set(sol) - set(previous))
+            return wrapper
+
+        @keep_previous_calibration_on_failure
         def calibrate_scale_factor(
                 calibration_method='N_star' if self.K == 0 else 'Omega_K0',
                 Omega_K0=None, h=None,                                    # for curved universes
@@ -534,6 +552,13 @@ class InflationEquations(Equations, ABC):
             The remaining keyword arguments are passed to `derive_approx_power`.
 
             """
+            # start out from the uncalibrated solution
+            sol.update(uncalibrated)
+            if background is None:
+                for key in list(sol):
+                    if key in calibrated or key.startswith(('P_s_approx_', 'P_t_approx_')):
+                        del sol[key]
+
             if self.K == 0:  # flat universe
                 if Omega_K0 is not None and Omega_K0 != 0.0:
                     raise ValueError(f"For flat universes Omega_K0 must be 0, but got "
@@ -730,6 +755,11 @@ class InflationEquations(Equations, ABC):
                     sol._N_reh = background._N_reh
                     sol._N_end = background._N_end
                     sol.N_star = background.N_star
+                    sol.DeltaN_minus1 = background.DeltaN_minus1
+                    sol.DeltaN_reh = background.DeltaN_reh
+                    sol.w_reh = background.w_reh
+                    sol.rho_reh_GeV = background.rho_reh_GeV
+                    sol.rho_reh_mp4 = background.rho_reh_mp4
 
                 sol.a0_Mpc = np.exp(sol._logaH_star) / K_STAR
                 logk = sol._logaH + np.log(K_STAR) - sol._logaH_star
@@ -868,6 +898,7 @@ class InflationEquations(Equations, ABC):
             sol.N_end = sol._N_end + sol.delta_N_calib
             sol.N_reh = sol._N_reh + sol.delta_N_calib
             sol.N_cross = sol._N_cross + sol.delta_N_calib
+            sol.H_star = np.exp(sol._logaH_star - sol._N_cross)
             sol.N_dagg = sol.N_cross - sol.N_beg
             sol.k_iMpc = np.exp(sol.logk)
             sol._k = np.exp(sol._logaH[sol.inflation_mask])
@@ -1561,6 +1592,7 @@ class InflationEquations(Equations, ABC):
         sol.P_s_approx = P_s_approx
         sol.P_t_approx = P_t_approx
 
+        @keep_previous_calibration_on_failure
         def set_ns(n_s, N_star_min=20, N_star_max=90, rho_reh_GeV=None, **kwargs):
             """Set scalar spectral index `n_s` of the primordial power spectrum in post-processing.
 
-- 
2.43.0


From 8196989d81b480e2c1386bbfea223967542ebaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 10/25] fix: querying an approximate spectrum does not change
 the selected spectra

---
 primpy/inflation.py | 83 +++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 48 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 678eec6..f0dc705 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1481,6 +1481,19 @@ class InflationEquations(Equations, ABC):
 
         sol.derive_approx_power = derive_approx_power
 
+        def approx_power(k, name, derive, **kwargs):
+            """Evaluate an approximation without affecting the selected primordial spectra."""
+            if name in sol:
+                return sol[name](k)
+            previous = dict(sol)
+            try:
+                derive(**kwargs)
+                return sol[name](k)
+            finally:
+                for key in set(sol) - set(previous):
+                    del sol[key]
+                sol.update(previous)
+
         def P_s_approx(k, method='CGS', order=3, **interp_kwargs):
             """Slow-roll approximation for the primordial power spectrum for scalar modes.
 
@@ -1506,32 +1519,18 @@ class InflationEquations(Equations, ABC):
                 Primordial power spectrum of scalar modes.
 
             """
-            if method == 'CGS':
-                if order == 3:
-                    return sol.P_s_approx_CGS3(k)
-                elif order == 0:
-                    return sol.P_s_approx_CGS0(k)
-                elif order == 1:
-                    return sol.P_s_approx_CGS1(k)
-                elif order == 2:
-                    return sol.P_s_approx_CGS2(k)
+            if method == 'CGS' and order in [0, 1, 2, 3]:
+                return approx_power(k, f'P_s_approx_CGS{order}', derive_approx_power_CGS,
+                                    order=order, **interp_kwargs)
             elif method == 'LLMS':
-                if not hasattr(sol, "P_s_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
-                return sol.P_s_approx_LLMS(k)
+                return approx_power(k, 'P_s_approx_LLMS', derive_approx_power_LLMS,
+                                    **interp_kwargs)
             elif method == 'STE':
-                if not hasattr(sol, "P_s_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
-                return sol.P_s_approx_STE(k)
-            elif method == 'ARBDS':
-                if not hasattr(sol, "P_s_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
-                if order == 3:
-                    return sol.P_s_approx_ARBDS3(k)
-                elif order == 1:
-                    return sol.P_s_approx_ARBDS1(k)
-                elif order == 2:
-                    return sol.P_s_approx_ARBDS2(k)
+                return approx_power(k, 'P_s_approx_STE', derive_approx_power_STE,
+                                    **interp_kwargs)
+            elif method == 'ARBDS' and order in [1, 2, 3]:
+                return approx_power(k, f'P_s_approx_ARBDS{order}', derive_approx_power_ARBDS,
+                                    order=order, **interp_kwargs)
 
             return np.exp(sol.logk2logP_s(np.log(k)))
 
@@ -1560,32 +1559,20 @@ class InflationEquations(Equations, ABC):
                 Primordial power spectrum of tensor modes.
 
             """
-            if method == 'CGS':
-                if order is None or order == 3:
-                    return sol.P_t_approx_CGS3(k)
-                elif order == 0:
-                    return sol.P_t_approx_CGS0(k)
-                elif order == 1:
-                    return sol.P_t_approx_CGS1(k)
-                elif order == 2:
-                    return sol.P_t_approx_CGS2(k)
+            if order is None:
+                order = 3
+            if method == 'CGS' and order in [0, 1, 2, 3]:
+                return approx_power(k, f'P_t_approx_CGS{order}', derive_approx_power_CGS,
+                                    order=order, **interp_kwargs)
             elif method == 'LLMS':
-                if not hasattr(sol, "P_t_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
-                return sol.P_t_approx_LLMS(k)
+                return approx_power(k, 'P_t_approx_LLMS', derive_approx_power_LLMS,
+                                    **interp_kwargs)
             elif method == 'STE':
-                if not hasattr(sol, "P_t_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
-                return sol.P_t_approx_STE(k)
-            elif method == 'ARBDS':
-                if not hasattr(sol, "P_t_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
-                if order == 3:
-                    return sol.P_t_approx_ARBDS3(k)
-                elif order == 1:
-                    return sol.P_t_approx_ARBDS1(k)
-                elif order == 2:
-                    return sol.P_t_approx_ARBDS2(k)
+                return approx_power(k, 'P_t_approx_STE', derive_approx_power_STE,
+                                    **interp_kwargs)
+            elif method == 'ARBDS' and order in [1, 2, 3]:
+                return approx_power(k, f'P_t_approx_ARBDS{order}', derive_approx_power_ARBDS,
+                                    order=order, **interp_kwargs)
 
             return np.exp(sol.logk2logP_t(np.log(k)))
 
-- 
2.43.0


From f396ca2c7efa6f8e9b83bc2c7b26958b09791591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 11/25] fix: third order of the CGS approximation: second-order
 terms of the horizon crossing time

---
 primpy/inflation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index f0dc705..377c504 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -991,7 +991,8 @@ class InflationEquations(Equations, ABC):
             # Choe, Gong & Stewart (2004), eq. (60)
             Ps0 = H**2 / (8 * pi**2 * e1)
             alpha = 2 - np.log(2) - np.euler_gamma
-            astar = alpha - e1  # from Choe, Gong & Stewart (2004) just after eq. (60)
+            # alpha - log(-k*eta) at horizon crossing k=aH, where -k*eta = 1 + e1 + e1**2 + e1*e2 + ...
+            astar = alpha - e1 - e1**2 / 2 - 2 * e1 * (e1 + d1)
             order1_s = (1 + (4 * astar - 2) * e1 + 2 * astar * d1 + (-astar**2 + pi**2 / 12) * d2
                         + (1 / 3 * astar**3 - pi**2 / 12 * astar + 4 / 3 - 2 / 3 * zeta(3)) * d3)
             # (slight differences between SG and CGS in 2nd order numeric coefficients)
-- 
2.43.0


From 311a000ffcc77f3f5ab1755c8725bd225a19067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 12/25] fix: zeta(3) coefficients in the third order of the
 ARBDS approximation

---
 primpy/inflation.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 377c504..9f2ffd3 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1318,7 +1318,7 @@ class InflationEquations(Equations, ABC):
             N2e3 = interp1d(_N, e3)
             e3 = N2e3(sol._N_cross)
             alpha = 2 - np.log(2) - np.euler_gamma
-            Z = zeta(3) / 3 * 7  # factor 7 matches Auclair & Ringeval (2022) and matches LLMS
+            Z = zeta(3)
 
             # Auclair & Ringeval (2022), eq. (54)
             # Ballardini, Davoli, and Sirletti (2025), eq. (45) or eq. (C.2)
@@ -1337,12 +1337,12 @@ class InflationEquations(Equations, ABC):
                 + (-12 * alpha**2 + pi**2) / 24 * e2 * e3
             )
             as0_3 = (
-                - (-16 + 24 * alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) / 24 * (8 * e1**3 + e2**3)
-                + (-72*alpha + 36*alpha**2 + 13*pi**2 + 8*alpha*pi**2 - 36*Z) / 12 * e1**2 * e2
-                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+84*Z) / 24 * e1*e2**2
-                + (16 + 4*alpha**3 - alpha*pi**2 - 24*Z) / 24 * (e2*e3**2 + e2 * e3 * e4)
+                - (-16 + 24 * alpha - 4*alpha**3 - 3*alpha*pi**2 + 14*Z) / 24 * (8 * e1**3 + e2**3)
+                + (-72*alpha + 36*alpha**2 + 13*pi**2 + 8*alpha*pi**2 - 84*Z) / 12 * e1**2 * e2
+                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+100*Z) / 24 * e1*e2**2
+                + (16 + 4*alpha**3 - alpha*pi**2 - 8*Z) / 24 * (e2*e3**2 + e2 * e3 * e4)
                 + (48*alpha - 12*alpha**3 - 5*alpha*pi**2) / 24 * e2**2 * e3
-                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-24*Z) / 12 * e1 * e2 * e3
+                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-8*Z) / 12 * e1 * e2 * e3
             )
             as1_1 = (
                 -2 * e1 - e2
@@ -1381,11 +1381,11 @@ class InflationEquations(Equations, ABC):
                 + (-2 + 2 * alpha - alpha**2 + pi**2 / 12) * e1 * e2
             )
             at0_3 = (
-                # -1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) * e1**3
-                - 1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) * e1**3
+                # -1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 14*Z) * e1**3
+                - 1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 14*Z) * e1**3
                 + 1/12 * (-96+72*alpha+36*alpha**2-24*alpha**3+13*pi**2-10*alpha*pi**2) * e1**2*e2
                 - 1/12 * (8 - 24 * alpha + 12 * alpha**2 - 4 * alpha**3 - pi**2
-                          + alpha * pi**2 + 24 * Z) * (e1 * e2**2 + e1 * e2 * e3)
+                          + alpha * pi**2 + 8 * Z) * (e1 * e2**2 + e1 * e2 * e3)
             )
             at1_1 = -2 * e1
             at1_2 = 2 * (-2 * alpha + 1) * e1**2 + (-2 + 2 * alpha) * e1 * e2
-- 
2.43.0


From 11b95ebf2a480138bf66641947de94e303c5d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:09 +0000
Subject: [PATCH 13/25] fix: evaluate the ARBDS approximation at -k*eta=1,
 about which it expands

---
 primpy/inflation.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 9f2ffd3..2f7ef21 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1309,14 +1309,19 @@ class InflationEquations(Equations, ABC):
             e2 = self.get_epsilon_2H(H=H, dH=dH, d2H=d2H)
             e3 = self.get_epsilon_3H(H=H, dH=dH, d2H=d2H, d3H=d3H)
             e4 = 0  # TODO
-            N2H = interp1d(_N, H)
-            H_star = N2H(sol._N_cross)
+            # the expansion is about -k*eta=1, which is slightly later than horizon crossing at k=aH
             N2e1 = interp1d(_N, e1)
-            e1 = N2e1(sol._N_cross)
             N2e2 = interp1d(_N, e2)
-            e2 = N2e2(sol._N_cross)
+            e1_cross = N2e1(sol._N_cross)
+            e2_cross = N2e2(sol._N_cross)
+            N_star = np.minimum(sol._N_cross + e1_cross + 3/2 * e1_cross**2 + e1_cross * e2_cross,
+                                _N[-1])
+            N2H = interp1d(_N, H)
+            H_star = N2H(N_star)
+            e1 = N2e1(N_star)
+            e2 = N2e2(N_star)
             N2e3 = interp1d(_N, e3)
-            e3 = N2e3(sol._N_cross)
+            e3 = N2e3(N_star)
             alpha = 2 - np.log(2) - np.euler_gamma
             Z = zeta(3)
 
-- 
2.43.0


From 07dd7cdbc0c4952fcabf5ce59189e8a2fcc43138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 14/25] fix: a failed calibration leaves no approximate spectra
 behind

---
 primpy/inflation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 2f7ef21..9142643 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -472,6 +472,9 @@ class InflationEquations(Equations, ABC):
                 try:
                     return calibrate(*args, **kwargs)
                 except Exception:
+                    for key in set(sol) - set(previous):
+                        if key.startswith(('P_s_approx_', 'P_t_approx_')):
+                            del sol[key]
                     sol.update(previous)
                     raise
                 finally:
-- 
2.43.0


From 0e9a13ca888cc688961d13ab9f931972d3eef48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 15/25] fix: spectrum queries after copying a calibration use
 the copied calibration

---
 primpy/inflation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 9142643..a454916 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -557,10 +557,10 @@ class InflationEquations(Equations, ABC):
             """
             # start out from the uncalibrated solution
             sol.update(uncalibrated)
-            if background is None:
-                for key in list(sol):
-                    if key in calibrated or key.startswith(('P_s_approx_', 'P_t_approx_')):
-                        del sol[key]
+            for key in list(sol):
+                if (key.startswith(('P_s_approx_', 'P_t_approx_')) or
+                        background is None and key in calibrated):
+                    del sol[key]
 
             if self.K == 0:  # flat universe
                 if Omega_K0 is not None and Omega_K0 != 0.0:
-- 
2.43.0


From 1054e398c5baa6b6c0f1f98a1296866b0ae3bbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 16/25] fix: conformal_time_ratio compares both stretches in
 the calibrated scale factor

---
 primpy/bigbang.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/primpy/bigbang.py b/primpy/bigbang.py
index 560e3f7..cbac9a2 100644
--- a/primpy/bigbang.py
+++ b/primpy/bigbang.py
@@ -286,10 +286,11 @@ def conformal_time_ratio(Omega_m0, Omega_K0, h, b_forward, b_backward=None):
     else:
         eta_beg = b_backward.eta[-1]
     eta_end = b_forward.eta[-1]
-    conformal_time_before = eta_end - eta_beg
+    # conformal time scales inversely with the scale factor, so it needs the same calibration as `N`
+    conformal_time_before = (eta_end - eta_beg) * np.exp(-b_forward.delta_N_calib)
 
     # after (from the end of inflation until today)
-    conformal_time_after = conformal_time(N_start=b_forward._N_end,
+    conformal_time_after = conformal_time(N_start=b_forward.N_end,
                                           N=np.log(b_forward.a0),
                                           Omega_m0=Omega_m0,
                                           Omega_K0=Omega_K0,
-- 
2.43.0


From fb71f3fbaae6d5c2548326f6322b90db70126881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 17/25] fix: conformal_time is accurate relative to its own
 size

---
 primpy/bigbang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/bigbang.py b/primpy/bigbang.py
index cbac9a2..38ee8d3 100644
--- a/primpy/bigbang.py
+++ b/primpy/bigbang.py
@@ -246,7 +246,7 @@ def conformal_time(N_start, N, Omega_m0, Omega_K0, h):
     elif isinstance(N, float) or isinstance(N, int):
         def integrand(n):
             return np.exp(-n) / Hubble_parameter(N=n, Omega_m0=Omega_m0, h=h, Omega_K0=Omega_K0)
-        eta = integrate.quad(func=integrand, a=N_start, b=N)
+        eta = integrate.quad(func=integrand, a=N_start, b=N, epsabs=0)  # eta may be tiny
         return eta
     else:
         raise TypeError("`N` needs to be either float or np.ndarray of floats, "
-- 
2.43.0


From abf26e04410a69e130a6d88859c02e1e2958f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 18/25] fix: dropping closed large scales drops every requested
 vacuum, scalar and tensor

---
 primpy/oscode_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index f997563..3259bf5 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -125,7 +125,9 @@ def solve_oscode(background, k,
                 ))
         p.oscode_postprocessing(oscode_sol=oscode_sol, vacuum=vacuum)
         if ki < 1 and b.K == +1 and drop_closed_large_scales:
-            p.scalar.P_s_RST = 1e-30
+            for vac in vacuum:
+                setattr(p.scalar, 'P_s_%s' % vac, 1e-30)
+                setattr(p.tensor, 'P_t_%s' % vac, 1e-30)
         for vac in vacuum:
             getattr(PPS, 'P_s_%s' % vac)[i] = getattr(p.scalar, 'P_s_%s' % vac)
             getattr(PPS, 'P_t_%s' % vac)[i] = getattr(p.tensor, 'P_t_%s' % vac)
-- 
2.43.0


From 1f0393c25e3189b43e73b367ab7772ef7a40e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 19/25] fix: integer wavenumbers do not overflow in the mode
 equations and PPS normalisation

---
 primpy/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/perturbations.py b/primpy/perturbations.py
index 827fccf..a8b0c65 100644
--- a/primpy/perturbations.py
+++ b/primpy/perturbations.py
@@ -88,7 +88,7 @@ class Mode(Equations, ABC):
         self.idx_beg = kwargs.get('idx_beg', 0)
         self.idx_end = kwargs.get('idx_end', background.x.size)
         self.background = background
-        self.k = k
+        self.k = float(k)
         f, d = self.mukhanov_sasaki_frequency_damping()
         self.ms_frequency = f
         self.ms_damping = d
-- 
2.43.0


From e7e640437a40355432904c3f5fded03b99bb378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:55 +0000
Subject: [PATCH 20/25] fix: features with a given n_t no longer fail when
 n_t_run is left out

---
 cobaya_wrapper/feature_pps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 341d3ae..98d73d8 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -33,7 +33,7 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
         w_log = params_values_dict.get('w_log', None)
@@ -86,7 +86,7 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
         w_lin = params_values_dict.get('w_lin', None)
@@ -139,7 +139,7 @@ class CutoffPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         k_cut = params_values_dict.get('k_cut', 1e-3)
         s_cut = params_values_dict.get('s_cut', 2)
-- 
2.43.0


From 7a5cac1acfacbb2932948ec3a4cf1baab918d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:55 +0000
Subject: [PATCH 21/25] fix: oscillating features no longer fail when frequency
 or phase is left out

---
 cobaya_wrapper/feature_pps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 98d73d8..b7ebe0a 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -36,8 +36,8 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
-        w_log = params_values_dict.get('w_log', None)
-        p_log = params_values_dict.get('p_log', None)
+        w_log = params_values_dict.get('w_log', 0)
+        p_log = params_values_dict.get('p_log', 0)
 
         if n_t is None:
             # set from inflationary consistency
@@ -89,8 +89,8 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
-        w_lin = params_values_dict.get('w_lin', None)
-        p_lin = params_values_dict.get('p_lin', None)
+        w_lin = params_values_dict.get('w_lin', 0)
+        p_lin = params_values_dict.get('p_lin', 0)
 
         if n_t is None:
             # set from inflationary consistency
-- 
2.43.0


From 59e0f91ed05092c0b3a27665069c332e7c46d65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 22/25] fix: energy density at the end of inflation in the
 slow-roll wrapper

---
 cobaya_wrapper/slowroll_pps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index a6f5d23..498b0d4 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -65,8 +65,8 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                       atol=1e-18, rtol=2.22045e-14, method='DOP853')
             if not b.success:
                 raise StepSizeError(b.message)
-            rho_end_GeV = (1/3 * (1/2 * b.dphidt[b.inflation_mask][-1]**2
-                                  + b.potential.V(b.phi[b.inflation_mask][-1]))
+            rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
+                            + b.potential.V(b.phi[b.inflation_mask][-1]))
                            * mp_GeV / lp_iGeV**3)**(1/4)
             if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
                 raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
-- 
2.43.0


From 22ab2baef0c235caf53d103718eb3b40788bea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 23/25] fix: compare the reheating density with the converged
 end of inflation

---
 cobaya_wrapper/slowroll_pps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index 498b0d4..a4f581a 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -68,8 +68,6 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
             rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
                             + b.potential.V(b.phi[b.inflation_mask][-1]))
                            * mp_GeV / lp_iGeV**3)**(1/4)
-            if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
-                raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
             with warnings.catch_warnings(action='ignore', category=PrimpyWarning):
                 if w_reh is not None and rho_reh_GeV is not None:
                     b.calibrate_scale_factor(calibration_method='reheating',
@@ -90,6 +88,8 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                 Lambda = (A_s / b.A_s)**(1 / 4) * Lambda
             else:
                 raise PrimpyError("`A_s` shooting failed.")
+        if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
+            raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
         if b.w_reh <= -1/3 or b.w_reh >= 1 or b.DeltaN_reh < 0 or b.N_reh > b.N0:
             raise PrimpyError(f"Unrealistic reheating scenario with w_reh={b.w_reh}, "
                               f"DeltaN_reh={b.DeltaN_reh}, N_star={b.N_star}, "
-- 
2.43.0


From def0eb1ca2602dae0cf1e724b115bd29cc860c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:31 +0000
Subject: [PATCH 24/25] fix: compare base versions of pre-releases as versions,
 not as strings

---
 .github/workflows/check_version.py | 2 +-
 bin/utils.py                       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/.github/workflows/check_version.py b/.github/workflows/check_version.py
index 59bb0bf..f2efd34 100644
--- a/.github/workflows/check_version.py
+++ b/.github/workflows/check_version.py
@@ -23,7 +23,7 @@ def unit_incremented(a, b):
             return (a.pre[1] == 0 and a.pre[0] > b.pre[0]
                     and a.base_version == b.base_version)
     elif a.pre is not None:
-        return a.base_version > b.base_version and a.pre[1] == 0
+        return a.release > b.release and a.pre[1] == 0
     elif b.pre is not None:
         return a.base_version == b.base_version
     else:
diff --git a/bin/utils.py b/bin/utils.py
index 0dcdba8..30647d7 100644
--- a/bin/utils.py
+++ b/bin/utils.py
@@ -20,7 +20,7 @@ def unit_incremented(a, b):
             return (a.pre[1] == 0 and a.pre[0] > b.pre[0]
                     and a.base_version == b.base_version)
     elif a.pre is not None:
-        return a.base_version > b.base_version and a.pre[1] == 0
+        return a.release > b.release and a.pre[1] == 0
     elif b.pre is not None:
         return a.base_version == b.base_version
     else:
-- 
2.43.0


From 0cb03fd293f6ebefd70dbd58da9751ed2aed6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 25/25] fix: bumping leaves longer numbers that contain the
 version alone

---
 bin/bump_version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/bump_version.py b/bin/bump_version.py
index 31080a9..4e74153 100755
--- a/bin/bump_version.py
+++ b/bin/bump_version.py
@@ -42,9 +42,9 @@ new_version = version.parse(f"{major}.{minor}.{micro}")
 
 for f in [vfile, README]:
     if sys.platform == "darwin":  # macOS sed requires empty string for backup
-        run("sed", "-i", "", f"s/{escaped_version}/{new_version}/g", f)
+        run("sed", "-i", "", f"s/[[:<:]]{escaped_version}[[:>:]]/{new_version}/g", f)
     else:
-        run("sed", "-i", f"s/{escaped_version}/{new_version}/g", f)
+        run("sed", "-i", fr"s/\b{escaped_version}\b/{new_version}/g", f)
 
 #run("git", "add", vfile, README)
 #run("git", "commit", "-m", f"bump version to {new_version}")
-- 
2.43.0

