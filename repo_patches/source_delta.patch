From b7c4e21c7300fd3ba6a4b5b16b982870c7107454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 01/28] fix: reset exit code and convergence flag at the start
 of each solve

A second solve() on the same object kept the outcome of the first one, so
a mission that failed after an earlier success still reported convergence.
---
 pyqlaw/_qlaw.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f3e9539..110493e 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -338,6 +338,10 @@ class QLaw:
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
 
+        # reset outcome of any previous solve
+        self.converge = False
+        self.exitcode = 0
+
         # initialize values for propagation
         t_iter = 0.0
         oe_iter = self.oe0
-- 
2.43.0


From 996c0db6e5fff1f0f441677c6e1b3d0e77139cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 02/28] fix: do not modify the caller's initial elements

The safeguarding of Keplerian elements clamps in place, and the state it
clamped at the first step was the array passed to set_problem().
---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 110493e..78d53e3 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -344,7 +344,7 @@ class QLaw:
 
         # initialize values for propagation
         t_iter = 0.0
-        oe_iter = self.oe0
+        oe_iter = np.array(self.oe0, dtype=float)   # copy, so that the caller's array is never modified
         mass_iter = self.mass0
         battery_iter = self.battery_initial
 
-- 
2.43.0


From cc872d516a32a0519d7bc06ed923ec37195065fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 03/28] fix: apply the duty cycle when propagating backward in
 time

Elapsed times are negative then, so the thruster was never switched off.
---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 78d53e3..ed8cbc4 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -402,11 +402,11 @@ class QLaw:
                 t_step_local = self.t_step
 
             # evaluate duty cycle
-            if ((t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
+            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
                 duty = False            # turn off duty cycle
                 t_last_OFF = t_iter     # latest time when we turn off
             
-            if ((t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
+            if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
                 duty = True             # turn on duty cycle
                 t_last_ON = t_iter      # latest time when we turn on
 
-- 
2.43.0


From 161064f898a650195d1a2c54e215de9c5fae5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 04/28] fix: charge/discharge the battery over the step
 actually taken with rkf45

The step size was overwritten by the suggested next step (which the next
iteration discards) before it was used to update the battery level.
---
 pyqlaw/_qlaw.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index ed8cbc4..a6977a6 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -548,7 +548,6 @@ class QLaw:
                 if throttle == 1:
                     mass_iter -= self.mdot*t_step_local  # update mass
                 oe_iter = oe_next
-                t_step_local = max(self.step_min, min(self.step_max,h_next))
             else:
                 raise ValueError("integrator name invalid!")
             
-- 
2.43.0


From 772f96c6243eeb7bb80b655e6a1ce4a413357e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 05/28] fix: coefficients of the Runge-Kutta-Fehlberg step

The stages already contain the step size and were scaled by it again, and
the fourth weight was 2197/4101 instead of 2197/4104, so that a step was
not even consistent (the weights did not add up to one).
---
 pyqlaw/_integrate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 81d41ae..60c2b69 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -42,12 +42,12 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
         (np.array); state-vector at time t+h
     """
     k1 = h * rhs(t, y, p)
-    k2 = h * rhs(t + 1/4 * h,   y + 1/4*h * k1, p)
-    k3 = h * rhs(t + 3/8 * h,   y + 3/32*h*k1 + 9/32*h*k2, p)
-    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*h*k1 - 7200/2197*h*k2 + 7296/2197*h*k3, p)
-    k5 = h * rhs(t + h,         y + 439/216*h*k1 - 8*h*k2 + 3680/513*h*k3 - 845/4104*h*k4, p)
-    k6 = h * rhs(t + 1/2*h,     y - 8/27*h*k1 + 2*h*k2 - 3544/2565*h*k3 + 1859/4104*h*k4 - 11/40*h*k5, p)
-    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4101*k4 - 1/5*k5
+    k2 = h * rhs(t + 1/4 * h,   y + 1/4*k1, p)
+    k3 = h * rhs(t + 3/8 * h,   y + 3/32*k1 + 9/32*k2, p)
+    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)
+    k5 = h * rhs(t + h,         y + 439/216*k1 - 8*k2 + 3680/513*k3 - 845/4104*k4, p)
+    k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
+    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
     h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From 6cd383154a8316194693c82ec66a66c5068c1c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 06/28] fix: rkf45 raised ZeroDivisionError when the error
 estimate was exactly zero

This happens when coasting on a nearly circular orbit or with small steps.
---
 pyqlaw/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 60c2b69..a8cd126 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -49,5 +49,6 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
     k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
     y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
-    h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
+    err = max(np.linalg.norm(z_next - y_next), 1e-16)    # avoid division by zero
+    h_next = h*0.84*(tol/err)**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From 4820efb9a2b17ade20035a58379e4052f7c739a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 07/28] fix: limit the step to the battery again after the
 first depletion

Without required full recharge the charging flag stayed set once the
minimum had been reached, so later steps drew more energy than was left;
the clipping of the level hid it.
---
 pyqlaw/_qlaw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index a6977a6..de12e03 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -409,6 +409,8 @@ class QLaw:
             if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
                 duty = True             # turn on duty cycle
                 t_last_ON = t_iter      # latest time when we turn on
+                if not self.require_full_recharge:
+                    charging = False    # discharging again
 
             # no longer able to thrust (added 1e-12 for numerical tolerance)
             if battery_iter <= self.battery_capacity[0] + 1e-12:
-- 
2.43.0


From fd4af7a5bb2c1ae41181f14adb9deda02a48c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 08/28] fix: do not shorten steps for the battery while the
 thruster is off

Nothing is drawn then, and with a nearly empty battery and little or no
charging the mission advanced by vanishing steps.
---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index de12e03..1463721 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -420,7 +420,7 @@ class QLaw:
             
             # overwrite time-step to time until we hit bottom of battery capacity
             elif (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]) and\
-                (charging is False):
+                (charging is False) and (duty is True):
                 t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]
 
             # check if battery is full
-- 
2.43.0


From c106b3d2f5059e24c823aadce5f75b6eaa355166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 09/28] fix: solve() failed when the battery is empty at the
 initial time

The thrust angles were recorded before they had ever been computed
(UnboundLocalError).
---
 pyqlaw/_qlaw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 1463721..01b610f 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -370,6 +370,7 @@ class QLaw:
         t_last_ON  = 0.0
         t_last_OFF = 0.0
         charging = False
+        alpha, beta = 0.0, 0.0      # thrust angles to record until first evaluated
 
         # iterate until nmax
         idx = 0
-- 
2.43.0


From 781d9d59d11b99e03887ca8ff1488647e1e23093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 10/28] fix: true anomaly in the SMA-MEE feedback law for f < 0

atan(g/f) is off by pi when f < 0, which flipped the sign of the rate of
change of the semimajor axis in the feedback law and in the dynamics.
---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 944bdbe..270dac3 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -222,7 +222,7 @@ def symbolic_qlaw_mee_with_a(cse = True):
         e = sym.sqrt(f**2 + g**2)
         ang_mom = sym.sqrt(a*mu*(1-e**2))
         rp = a*(1 - e)
-        ta = l - sym.atan(g/f)
+        ta = l - sym.atan2(g, f)
         r = ang_mom**2/(mu*(1+e*sym.cos(ta)))
         s_squared = 1 + h**2 + k**2
 
-- 
2.43.0


From cdccf96c953f9391c4eb0d4f3ea0d90cbc2442b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 11/28] fix: true anomaly in the SMA-MEE equations of motion

arctan(g/f) is wrong for f < 0 and raises ZeroDivisionError for f = 0.
---
 pyqlaw/_eom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_eom.py b/pyqlaw/_eom.py
index 443f548..3dec612 100644
--- a/pyqlaw/_eom.py
+++ b/pyqlaw/_eom.py
@@ -84,7 +84,7 @@ def eom_mee_with_a_gauss(t, state, param):
     # compute additional parameters
     ecc = np.sqrt(f**2 + g**2)
     ang_mom = np.sqrt(sma*mu*(1-ecc**2))
-    ta = l - np.arctan(g/f)
+    ta = l - np.arctan2(g,f)
     r = ang_mom**2/(mu*(1+ecc*np.cos(ta)))
     p = sma*(1 - ecc**2)
 
-- 
2.43.0


From e1a57e444ae8227c95f910b9dbf01f1221ff60bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 12/28] fix: Sundman steps backward in time

The mean anomaly is monotonic in the (unwrapped) eccentric anomaly, so it
decreases exactly when the angle step is negative; adding a revolution
made backward missions run forward by almost one period per step.
---
 pyqlaw/_qlaw.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 01b610f..f93b56c 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -395,10 +395,7 @@ class QLaw:
                 # compute mean anomaly
                 M0 = E0 - ecc_iter*np.sin(E0)
                 M1 = E1 - ecc_iter*np.sin(E1)
-                if M1 > M0:
-                    t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
-                else:
-                    t_step_local = (M1/(2*np.pi) + 1 - M0/(2*np.pi)) * period
+                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period   # negative if going backward
             else:
                 t_step_local = self.t_step
 
-- 
2.43.0


From 36115038287e2cbe7dba6dac0bb8d3911dd35508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 13/28] fix: best and worst rate of Q over the orbit when
 propagating backward

The rates are negative then, so best and worst were swapped and thrust was
allowed where it is least effective.
---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f93b56c..8551c00 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -644,8 +644,8 @@ class QLaw:
                     self.wp, self.woe
                 )
             )
-        # we return max and min since qdot is defined to be positive
-        return max(qdot_list), min(qdot_list)
+        # we return max and min magnitudes (qdot is positive forward in time, negative backward in time)
+        return max(qdot_list, key=abs), min(qdot_list, key=abs)
     
 
     def interpolate_states(self, kind="quadratic"):
-- 
2.43.0


From e3f3bd4865737f33c868a6f4f0f61377cc414420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 14/28] fix: J2 acceleration away from unit radius

The latitude terms use (z/r)^2, not z^2.
---
 pyqlaw/_perturbations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 2ead376..1a7b2d0 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -43,10 +43,11 @@ def perturbation_J2(rECI, T_ECI2PA, mu, J2, Re):
     r = np.linalg.norm(rECI)
     coeff = -3*mu*J2*Re**2/(2*r**5)
     rPA = T_ECI2PA @ rECI
+    sin2_lat = (rPA[2]/r)**2
     a_J2_PA = coeff * np.array([
-        (1 - 5*rPA[2]**2) * rPA[0],
-        (1 - 5*rPA[2]**2) * rPA[1],
-        (3 - 5*rPA[2]**2) * rPA[2]
+        (1 - 5*sin2_lat) * rPA[0],
+        (1 - 5*sin2_lat) * rPA[1],
+        (3 - 5*sin2_lat) * rPA[2]
     ])
     return T_ECI2PA.T @ a_J2_PA
 
-- 
2.43.0


From 287e4f9c40aff294f4702b6eb4d0c475e950a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 15/28] fix: SpicePerturbations without third bodies

third_bodies_names=None is accepted by the constructor and failed at the
first evaluation.
---
 pyqlaw/_perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 1a7b2d0..c164ee4 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -175,7 +175,7 @@ class SpicePerturbations:
 
         # third-body perturbation in ECI
         et = self.et_ref + t * self.TU     # time to query spice ephemeris
-        for mu3,ID in zip(self.third_bodies_gms, self.third_bodies_names):
+        for mu3,ID in zip(self.third_bodies_gms or [], self.third_bodies_names or []):
             pos3_km,_ = spice.spkpos(ID, et, self.frame_qlaw, "NONE", self.obs_id)
             acc_ptrb_ECI += perturbation_third_body_battin(rv_ECI[0:3], pos3_km/self.LU, mu3)
 
-- 
2.43.0


From 088cc36850b482e3d513f60707a5c0e0808ddbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 16/28] fix: export of missions in Keplerian elements

Keplerian elements were converted as if they were SMA-MEE.
---
 pyqlaw/_qlaw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 8551c00..17131ad 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -21,6 +21,7 @@ from ._convergence import (
 )
 from ._elements import (
     kep2sv,
+    kep2mee,
     mee_with_a2sv,
     get_orbit_coordinates, 
     mee_with_a2mee,
@@ -734,12 +735,13 @@ class QLaw:
         Args:
             filepath (str): filepath to json filename to save the dictionary
         """
+        oe2mee = kep2mee if self.elements_type == "keplerian" else mee_with_a2mee
         initial_guess = {
             "t0": 0.0,
             "tf": self.times[-1],
             "times": self.times,
             "canonical_units": canonical_units,
-            "states": [list(mee_with_a2mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
+            "states": [list(oe2mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
         }
         _controls = copy.deepcopy(self.controls)
         _controls.append([0,0,0])   # final step to match time-steps
-- 
2.43.0


From 93756821b4b3e4d63f4dec4b2e41cdb22b0985cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 17/28] fix: reject eta_r that is neither a float nor a
 callable

As for eta_a; such a threshold was silently ignored.
---
 pyqlaw/_qlaw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 17131ad..cce623c 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -339,6 +339,9 @@ class QLaw:
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
 
+        if not (isinstance(eta_r, float) or callable(eta_r)):
+            raise ValueError("Invalid type for `eta_r`. Expected float or callable function.")
+
         # reset outcome of any previous solve
         self.converge = False
         self.exitcode = 0
-- 
2.43.0


From af894fc0034da77c2c67ff5b28b3f7b67f475c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 18/28] fix: semimajor-axis scaling of the Keplerian Q for
 exponents that are not even

The scaling is defined with |a - aT| (as in the SMA-MEE version); a < aT
gave nan for non-integer and the wrong sign for odd exponents.
---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 270dac3..7236318 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -81,7 +81,7 @@ def symbolic_qlaw_keplerian(cse = True):
         # compute periapsis radius constraint P
         p_rp = sym.exp(k_petro*(1.0 - rp/rpmin))
         # compute scaling for each element Soe
-        soe = [(1 + ((a-aT)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
+        soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
         # compute quotient Q
         #sum_term = 0
         #for idx in range(5):
-- 
2.43.0


From 71b93aa165db131513ba9beb84d43a4617694c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 19/28] fix: operator precedence in wrap()

The angle was reduced modulo 2 and then multiplied by pi.
---
 pyqlaw/_transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_transformations.py b/pyqlaw/_transformations.py
index 5bb72df..42c1bf8 100644
--- a/pyqlaw/_transformations.py
+++ b/pyqlaw/_transformations.py
@@ -26,4 +26,4 @@ def rotmat3(phi):
 
 def wrap(alpha):
 	"""Wrap angle to be between -pi and pi"""
-	return (alpha + np.pi) % 2.0 * np.pi - np.pi
\ No newline at end of file
+	return (alpha + np.pi) % (2.0 * np.pi) - np.pi
\ No newline at end of file
-- 
2.43.0


From 4ec52bf54974200fa86e37493772b049a6d5620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 20/28] fix: Keplerian guidance on near-circular orbits

The optimal-anomaly term of the argument-of-periapsis rate cancelled
catastrophically for e < 0.004: Q or its gradient became nan (also with
zero weight on omega), and missions in the default safeguarding range
ended with exit code -3.
---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 7236318..1cbc15e 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -60,7 +60,7 @@ def symbolic_qlaw_keplerian(cse = True):
         radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sym.sqrt((sinom**2))))  # FIXME
         cos_ta_xx_sqrt = sym.sqrt((1/4)*((1-e**2)/e**3)**2 + 1/27)
         ta_xx_term1 = ( (1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
-        ta_xx_term2 = (-(1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
+        ta_xx_term2 = (1/27 / ( (1-e**2) / (2*e**3) + cos_ta_xx_sqrt))**(1/3)   # without cancellation for small e
         cos_ta_xx = ta_xx_term1 - ta_xx_term2 - 1/e
         r_xx = p / (1 + e*cos_ta_xx)
         omdot_i = f/(e*h)*sym.sqrt(
-- 
2.43.0


From 9031f99cd94c9ab66cb87582e2b897207581fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 21/28] fix: Keplerian guidance when RAAN or argument of
 periapsis equals its target

The derivative of acos(cos(d)) is 0/0 at d = 0: the feedback law was
undefined, even with zero weight on that angle, and as an unpowered step
leaves the angle unchanged the mission always ended with exit code -3.
---
 pyqlaw/_symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 1cbc15e..e929301 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -51,8 +51,8 @@ def symbolic_qlaw_keplerian(cse = True):
         # -------- compute quotient Q -------- #
         doe = [
             a-aT, e-eT, i-iT, 
-            sym.acos(sym.cos(ra - raT)),
-            sym.acos(sym.cos(om - omT)),
+            sym.atan2(sym.sin(ra - raT), sym.cos(ra - raT)),    # differentiable where the angles coincide
+            sym.atan2(sym.sin(om - omT), sym.cos(om - omT)),
             #sym.acos(sym.cos(ta - taT)),
         ]
 
-- 
2.43.0


From 9a89fb14e167ae70dd1399318a1e26e4d4a9293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 22/28] fix: SMA-MEE guidance on exactly circular orbits

The derivative of sqrt(f^2+g^2) is 0/0 for f = g = 0: the feedback law was
undefined, and as an unpowered step leaves the orbit circular the mission
always ended with exit code -3.
---
 pyqlaw/_symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index e929301..1036fd7 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -219,7 +219,7 @@ def symbolic_qlaw_mee_with_a(cse = True):
 
         # compute semi-parameter p, periapsis rp
         p = a * (1 - f**2 - g**2)
-        e = sym.sqrt(f**2 + g**2)
+        e = sym.sqrt(f**2 + g**2 + 1e-30)   # differentiable on circular orbits
         ang_mom = sym.sqrt(a*mu*(1-e**2))
         rp = a*(1 - e)
         ta = l - sym.atan2(g, f)
@@ -237,7 +237,7 @@ def symbolic_qlaw_mee_with_a(cse = True):
 
         # compute oedot
         sqrt_pmu = sym.sqrt(p/mu)
-        adot_xx = 2*accel*a*sym.sqrt(a/mu) * sym.sqrt((1 + sym.sqrt(f**2 + g**2)) / (1 - sym.sqrt(f**2 + g**2)))
+        adot_xx = 2*accel*a*sym.sqrt(a/mu) * sym.sqrt((1 + e) / (1 - e))
         fdot_xx = 2*accel*sqrt_pmu
         gdot_xx = 2*accel*sqrt_pmu
         hdot_xx = 0.5*accel*sqrt_pmu * s_squared/(sym.sqrt(1 - g**2) + f)
-- 
2.43.0


From 72909b17fa4eb8bf7e84f20ca37f0b2c0690942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 23/28] fix: Keplerian guidance for zero argument of periapsis

---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 1036fd7..ff846eb 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -57,7 +57,7 @@ def symbolic_qlaw_keplerian(cse = True):
         ]
 
         # compute RAdot and omdot
-        radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sym.sqrt((sinom**2))))  # FIXME
+        radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sym.sqrt(sinom**2 + 1e-30)))  # differentiable for om = 0
         cos_ta_xx_sqrt = sym.sqrt((1/4)*((1-e**2)/e**3)**2 + 1/27)
         ta_xx_term1 = ( (1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
         ta_xx_term2 = (1/27 / ( (1-e**2) / (2*e**3) + cos_ta_xx_sqrt))**(1/3)   # without cancellation for small e
-- 
2.43.0


From 0bc6944f99f106e6fac4f5a16cbea5bd8c3f56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 24/28] fix: argument of periapsis of exactly equatorial orbits

---
 pyqlaw/_elements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 7351e6a..ebd0500 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -264,7 +264,10 @@ def mee2kep(oe_mee):
     e = np.sqrt(f**2 + g**2)
     i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)
     raan = np.arctan2(k,h)
-    om = np.arctan2(g*h-f*k, f*h+g*k)
+    if h == 0.0 and k == 0.0:
+        om = np.arctan2(g, f) - raan    # equatorial orbit, the node is arbitrary
+    else:
+        om = np.arctan2(g*h-f*k, f*h+g*k)
     ta = l - raan - om
     return np.array([a,e,i,raan,om,ta])
 
-- 
2.43.0


From 5a970d0be99f83cdf5d9d8ecbdd80332d1e611da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:16 +0000
Subject: [PATCH 25/28] fix: a purely out-of-plane thrust direction raised
 ZeroDivisionError

---
 pyqlaw/_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_lyapunov.py b/pyqlaw/_lyapunov.py
index 6df8dd5..e9cc231 100644
--- a/pyqlaw/_lyapunov.py
+++ b/pyqlaw/_lyapunov.py
@@ -12,7 +12,7 @@ def _u_to_thrust_angles(u_float):
     u_float_norm = np.sqrt( u_float[0]**2 + u_float[1]**2 + u_float[2]**2 )
     u = u_float/u_float_norm
     alpha = np.arctan2(-u[0],-u[1])
-    beta = np.arctan(-u[2]/np.sqrt(u[0]**2 + u[1]**2))
+    beta = np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))
     return u, alpha, beta
 
 
-- 
2.43.0


From d2cc76539d693109bdacd019627c5fa345bf1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 26/28] fix: plot_Q draws the magnitude of dQ/dt (negative
 values vanished on the logarithmic axis)

---
 pyqlaw/_plot_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_plot_methods.py b/pyqlaw/_plot_methods.py
index 42705b6..91c0a40 100644
--- a/pyqlaw/_plot_methods.py
+++ b/pyqlaw/_plot_methods.py
@@ -262,7 +262,7 @@ def plot_Q(self, figsize=(9,6), TU=1.0, time_unit_name="TU"):
     """
     fig, ax = plt.subplots(1,1,figsize=figsize)
     ax.step(np.array(self.times[0:-1])*TU, np.array(self.Qs), label="Q")
-    ax.step(np.array(self.times[0:-1])*TU, np.array(self.dQdts), label="|dQ/dt|, [1/TU]")
+    ax.step(np.array(self.times[0:-1])*TU, np.abs(self.dQdts), label="|dQ/dt|, [1/TU]")
     ax.grid(True, alpha=0.3)
     ax.set(yscale="log")
     ax.legend()
-- 
2.43.0


From 4a6752035c207e92e2b219272f4b2b263b2c48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 27/28] fix: periapsis overlay used f instead of the
 eccentricity for SMA-MEE elements

---
 pyqlaw/_plot_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_plot_methods.py b/pyqlaw/_plot_methods.py
index 91c0a40..855996f 100644
--- a/pyqlaw/_plot_methods.py
+++ b/pyqlaw/_plot_methods.py
@@ -73,7 +73,11 @@ def plot_elements_history(
 
     # overlay periapsis
     if plot_periapsis:
-        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - oes[1,:]))
+        if self.elements_type=="mee_with_a" and not to_keplerian:
+            ecc = np.sqrt(oes[1,:]**2 + oes[2,:]**2)
+        else:
+            ecc = oes[1,:]
+        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - ecc))
 
     # plot mass or TA
     if plot_mass:
-- 
2.43.0


From 9e6e1ff0a46412930d20e7bc78a9d63ca96f08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:00 +0000
Subject: [PATCH 28/28] fix: recognise an empty battery whatever the unit of
 energy

---
 pyqlaw/_qlaw.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index cce623c..0eb9b85 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -557,8 +557,11 @@ class QLaw:
             
             # update battery
             if duty:
-                battery_iter = np.clip(battery_iter-self.battery_charge_discharge_rate[1]*t_step_local,
-                                       self.battery_capacity[0], self.battery_capacity[1])
+                discharged = self.battery_charge_discharge_rate[1]*t_step_local
+                if discharged >= (1 - 1e-12)*(battery_iter - self.battery_capacity[0]):
+                    battery_iter = self.battery_capacity[0]     # bottom is hit, whatever the rounding and the unit of energy
+                else:
+                    battery_iter = np.clip(battery_iter-discharged, self.battery_capacity[0], self.battery_capacity[1])
             else:
                 battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*t_step_local,
                                        self.battery_capacity[0], self.battery_capacity[1])
-- 
2.43.0

