From 53cf306d5161a37ee347fd9c508cc18b9bcce2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 01/54] fix: order of operators in TDAPPROX trial evolution

---
 src/qutip_qtrl/fidcomp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 9b776a0..1a8bac1 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -766,9 +766,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                 fwd_evo = dyn._fwd_evo[k]
                 prop_eps = prop_comp._compute_diff_prop(k, j, self.epsilon)
                 if dyn.oper_dtype == Qobj:
-                    evo_final_eps = fwd_evo * prop_eps
+                    evo_final_eps = prop_eps * fwd_evo
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps * dyn._onwd_evo[k + 1]
+                        evo_final_eps = dyn._onwd_evo[k + 1] * evo_final_eps
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
@@ -776,9 +776,9 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                         (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
                     )
                 else:
-                    evo_final_eps = fwd_evo.dot(prop_eps)
+                    evo_final_eps = prop_eps.dot(fwd_evo)
                     if k + 1 < n_ts:
-                        evo_final_eps = evo_final_eps.dot(dyn._onwd_evo[k + 1])
+                        evo_final_eps = dyn._onwd_evo[k + 1].dot(evo_final_eps)
                     evo_f_diff_eps = dyn._target - evo_final_eps
                     fid_err_eps = self.scale_factor * np.real(
                         _trace(evo_f_diff_eps.conj().T.dot(evo_f_diff_eps))
-- 
2.43.0


From 8e350fe9ff5bf3367670be26cfa09ca32b182632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 02/54] fix: onwd_evo returns the onward evolution for Qobj
 operators

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f48b916..95add78 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1385,7 +1385,7 @@ class Dynamics(object):
         if self._onwd_evo is not None:
             if self._onwd_evo_qobj is None:
                 if self.oper_dtype == Qobj:
-                    self._onwd_evo_qobj = self._fwd_evo
+                    self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
                         Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
-- 
2.43.0


From d2205f50b87bf0901a3b79600a047640d07b5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 03/54] fix: dims of onwd_evo and onto_evo for state transfer
 with ndarray operators

---
 src/qutip_qtrl/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 95add78..48e6790 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1388,7 +1388,7 @@ class Dynamics(object):
                     self._onwd_evo_qobj = self._onwd_evo
                 else:
                     self._onwd_evo_qobj = [
-                        Qobj(dg, dims=self.sys_dims) for dg in self._onwd_evo
+                        Qobj(dg, dims=self.dyn_dims) for dg in self._onwd_evo
                     ]
         return self._onwd_evo_qobj
 
@@ -1409,9 +1409,10 @@ class Dynamics(object):
                     self._onto_evo_qobj = self._onto_evo
                 else:
                     self._onto_evo_qobj = []
+                    onto_dims = self.onto_evo_target.dims
                     for k in range(0, self.num_tslots):
                         self._onto_evo_qobj.append(
-                            Qobj(self._onto_evo[k], dims=self.sys_dims)
+                            Qobj(self._onto_evo[k], dims=onto_dims)
                         )
                     self._onto_evo_qobj.append(self.onto_evo_target)
 
-- 
2.43.0


From eec673e27c297654e09b9d72aeb154cdf35c6fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 04/54] fix: augmented matrix for Qobj operators

---
 src/qutip_qtrl/propcomp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index ee422fd..57ca4c5 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -336,10 +336,10 @@ class PropCompAugMat(PropagatorComputer):
         dg = dyn._get_phased_dyn_gen(k)
 
         if dyn.oper_dtype == Qobj:
-            A = dg.data * dyn.tau[k]
-            E = dyn._get_phased_ctrl_dyn_gen(k, j).data * dyn.tau[k]
-            Z = sp.csr_matrix(dg.data.shape)
-            aug = Qobj(sp.vstack([sp.hstack([A, E]), sp.hstack([Z, A])]))
+            A = dg.full() * dyn.tau[k]
+            E = dyn._get_phased_ctrl_dyn_gen(k, j).full() * dyn.tau[k]
+            Z = np.zeros(dg.shape)
+            aug = Qobj(np.vstack([np.hstack([A, E]), np.hstack([Z, A])]))
         else:
             A = dg * dyn.tau[k]
             E = dyn._get_phased_ctrl_dyn_gen(k, j) * dyn.tau[k]
-- 
2.43.0


From bf996d439c47c3f69273de8eb0c1c1181b47738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 05/54] fix: trace difference fidelity of state transfer with
 Qobj operators

---
 src/qutip_qtrl/fidcomp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 1a8bac1..5de7c87 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -64,6 +64,9 @@ def _trace(A):
     # input is an operator (Qobj, array, sparse etc), so
     if isinstance(A, Qobj):
         return A.tr()
+    elif np.ndim(A) == 0:
+        # the product of a bra and a ket (Qobj) is already a scalar
+        return A
     else:
         return np.trace(A)
 
@@ -614,7 +617,7 @@ class FidCompTraceDiff(FidelityComputer):
             # np.real, just avoids the complex casting warning
             if dyn.oper_dtype == Qobj:
                 self.fid_err = self.scale_factor * np.real(
-                    (evo_f_diff.dag() * evo_f_diff).tr()
+                    _trace(evo_f_diff.dag() * evo_f_diff)
                 )
             else:
                 self.fid_err = self.scale_factor * np.real(
@@ -695,7 +698,7 @@ class FidCompTraceDiff(FidelityComputer):
                     g = (
                         -2
                         * self.scale_factor
-                        * np.real((evo_f_diff.dag() * evo_grad).tr())
+                        * np.real(_trace(evo_f_diff.dag() * evo_grad))
                     )
                 else:
                     evo_grad = dyn._get_prop_grad(k, j).dot(fwd_evo)
@@ -773,7 +776,7 @@ class FidCompTraceDiffApprox(FidCompTraceDiff):
                     # Note that the value should have not imagnary part, so
                     # using np.real, just avoids the complex casting warning
                     fid_err_eps = self.scale_factor * np.real(
-                        (evo_f_diff_eps.dag() * evo_f_diff_eps).tr()
+                        _trace(evo_f_diff_eps.dag() * evo_f_diff_eps)
                     )
                 else:
                     evo_final_eps = prop_eps.dot(fwd_evo)
-- 
2.43.0


From af68a73a836fa1b7bfb6f51990564c68054981ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 06/54] fix: SU normalisation of numpy scalars

---
 src/qutip_qtrl/fidcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 5de7c87..95f7dc2 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -381,7 +381,7 @@ class FidCompUnitary(FidelityComputer):
                 norm = _trace(A)
             else:
                 raise TypeError("Cannot compute trace (not square)")
-        except AttributeError:
+        except (AttributeError, IndexError):
             # assume input is already scalar and hence assumed
             # to be the prenormalised scalar value, e.g. fidelity
             norm = A
-- 
2.43.0


From 65989ea10dcdee0a62e03c36be97e6e26f3b0d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 07/54] fix: keep a copy of the control amplitudes passed to
 update_ctrl_amps

---
 src/qutip_qtrl/tslotcomp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 18c1473..44c027a 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -216,7 +216,9 @@ class TSlotCompUpdateAll(TimeslotComputer):
             dyn.stats.num_timeslot_changes += ecs.num_timeslots_changed
 
         if changed:
-            dyn.ctrl_amps = new_amps
+            # Keep a copy, otherwise later changes made in place to the
+            # array that was passed in would go unnoticed
+            dyn.ctrl_amps = new_amps.copy()
             dyn.flag_system_changed()
             return False
         else:
-- 
2.43.0


From 32d6ff3b6436311872796c906da35c6c19e63219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 08/54] fix: recalculate fidelity and gradient after the
 phase_option is changed

---
 src/qutip_qtrl/fidcomp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qutip_qtrl/fidcomp.py b/src/qutip_qtrl/fidcomp.py
index 95f7dc2..91985dc 100644
--- a/src/qutip_qtrl/fidcomp.py
+++ b/src/qutip_qtrl/fidcomp.py
@@ -337,6 +337,9 @@ class FidCompUnitary(FidelityComputer):
             raise errors.UsageError(
                 "No option for phase_option '{}'".format(value)
             )
+        # The normalised values depend on the option
+        self.fidelity_current = False
+        self.fid_err_grad_current = False
 
     def init_comp(self):
         """
-- 
2.43.0


From 0f693b8fa77fb9a8e53bbc1df0803be8a06a9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 09/54] fix: onto_evo_target reflects a target that was changed
 before re-initialisation

---
 src/qutip_qtrl/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 48e6790..301860d 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -810,6 +810,8 @@ class Dynamics(object):
             # Onward propagation overlap with inverse target
             self._onto_evo = [object for x in range(self.num_tslots + 1)]
             self._onto_evo[self.num_tslots] = self._get_onto_evo_target()
+            # The target may have changed since the last initialisation
+            self._onto_evo_target_qobj = None
 
         if isinstance(self.prop_computer, propcomp.PropCompDiag):
             self._create_decomp_lists()
-- 
2.43.0


From e1ebea88217bf5155316278596cc1263733b6e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 10/54] fix: choose the operator data type before setting up
 the symplectic phase

---
 src/qutip_qtrl/dynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 301860d..23eab52 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -734,10 +734,11 @@ class Dynamics(object):
         self.refresh_drift_attribs()
         self.sys_dims = self.initial.dims
         self.sys_shape = self.initial.shape
+        # The operator data type must be known before the phase is set up
+        self._set_memory_optimizations()
         # Set the phase application method
         self._init_phase()
 
-        self._set_memory_optimizations()
         if self.sparse_eigen_decomp and self.sys_shape[0] <= 2:
             raise ValueError(
                 "Single qubit pulse optimization dynamics cannot use sparse"
-- 
2.43.0


From adbd816d57fb6b54dbf6c6bb9606aebd200ef70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 11/54] fix: unitarity check and intense debug logging of
 propagators raised errors

---
 src/qutip_qtrl/dynamics.py  | 17 +++++++++++++++--
 src/qutip_qtrl/tslotcomp.py |  4 +---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 23eab52..c97c491 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1501,6 +1501,12 @@ class Dynamics(object):
                     "Progator of timeslot {} is not unitary".format(k)
                 )
 
+    def check_unitarity(self):
+        """
+        Checks whether all propagators are unitary
+        """
+        self.unitarity_check()
+
 
 class DynamicsGenMat(Dynamics):
     """
@@ -1714,8 +1720,15 @@ class DynamicsUnitary(Dynamics):
                 else:
                     diff = np.abs(H.T.conj() - H)
                     herm = np.all(diff < settings.core["atol"])
-                eigval_unit = self._is_unitary(self._prop_eigen[k])
-                eigvec_unit = self._is_unitary(self._dyn_gen_eigenvectors[k])
+                # The decomposition exists only if the propagators are
+                # calculated through diagonalisation
+                eigval_unit = None
+                eigvec_unit = None
+                if self._prop_eigen is not None:
+                    eigval_unit = self._is_unitary(self._prop_eigen[k])
+                    eigvec_unit = self._is_unitary(
+                        self._dyn_gen_eigenvectors[k]
+                    )
                 if self._dyn_gen_eigenvectors_adj is not None:
                     eigvecadj_unit = self._is_unitary(
                         self._dyn_gen_eigenvectors_adj[k]
diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 44c027a..0f09d4f 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -283,9 +283,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
                         if self.log_level <= logging.DEBUG_INTENSE:
                             logger.log(
                                 logging.DEBUG_INTENSE,
-                                "propagator {}:\n{:10.3g}".format(
-                                    k, self._prop[k]
-                                ),
+                                "propagator {}:\n{}".format(k, dyn._prop[k]),
                             )
                     else:
                         dyn._prop_grad[k, j] = prop_comp._compute_prop_grad(
-- 
2.43.0


From f0d13822f41713a39409ffaf72d5cff9f5671fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 12/54] fix: initialise ZERO and RND pulses so that infinite
 and crossed bounds are handled

They were the only pulse generators that never called init_pulse, which turns
infinite bounds into None and refuses ubound < lbound. A single infinite bound
gave pulses of inf or nan.
---
 src/qutip_qtrl/pulsegen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d52d738..9fc6e9c 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -306,6 +306,9 @@ class PulseGenZero(PulseGen):
         The value will be zero, unless the offset is not zero,
         in which case it will be the offset
         """
+        if not self._pulse_initialised:
+            self.init_pulse()
+
         pulse = np.zeros(self.num_tslots)
         return self._apply_bounds_and_offset(pulse)
 
@@ -327,6 +330,9 @@ class PulseGenRandom(PulseGen):
         and shifted using the offset property
         Returns the pulse as an array of vales for each timeslot
         """
+        if not self._pulse_initialised:
+            self.init_pulse()
+
         pulse = (2 * np.random.random(self.num_tslots) - 1) * self.scaling
 
         return self._apply_bounds_and_offset(pulse)
-- 
2.43.0


From c78230f060b71df88e4b97acdb5fab92d9006769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 13/54] fix: number of waves of periodic pulses given by
 frequency or wavelength

num_waves was set to wavelen * pulse_time, and as num_waves takes precedence
the next init_pulse changed the frequency of the pulse.
---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 9fc6e9c..d9ea9e4 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -741,10 +741,10 @@ class PulseGenPeriodic(PulseGen):
             self.wavelen = 1.0 / self.freq
         elif self.wavelen is not None:
             self.freq = 1.0 / self.wavelen
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
         else:
             self.wavelen = 1.0 / self.freq
-            self.num_waves = self.wavelen * self.pulse_time
+            self.num_waves = self.freq * self.pulse_time
 
 
 class PulseGenSine(PulseGenPeriodic):
-- 
2.43.0


From e7e2e4bbecda164b64e959b081363332b82189cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 14/54] fix: Gaussian pulse with a mean of zero

gen_pulse(mean=0) silently used the default mean instead.
---
 src/qutip_qtrl/pulsegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index d9ea9e4..464906e 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -905,7 +905,7 @@ class PulseGenGaussian(PulseGen):
         if not self._pulse_initialised:
             self.init_pulse()
 
-        if mean:
+        if mean is not None:
             Tm = mean
         else:
             Tm = self.mean
-- 
2.43.0


From 5d64e25465d922d704b1660cb1c51d626b45f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 15/54] fix: RNDWALK2 pulses scale max_d2_amp as documented

---
 src/qutip_qtrl/pulsegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 464906e..b4510d2 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -589,7 +589,7 @@ class PulseGenRndWalk2(PulseGen):
         if max_d2_amp is not None:
             self.max_d2_amp = max_d2_amp
 
-        max_d2_amp = self.max_d2_amp
+        max_d2_amp = self.max_d2_amp * self.scaling
 
         if not self._pulse_initialised:
             self.init_pulse()
-- 
2.43.0


From 0e8405ee4f368d38a6401bd7e49c2576813211ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 16/54] fix: linear pulse from a gradient passed to gen_pulse
 or init_pulse

The gradient argument, and a start or end value given with it, were ignored.
---
 src/qutip_qtrl/pulsegen.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index b4510d2..793e320 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -647,6 +647,16 @@ class PulseGenLinear(PulseGen):
         if start_val is not None and end_val is not None:
             self.start_val = start_val
             self.end_val = end_val
+        elif gradient is not None:
+            self.gradient = gradient
+            if start_val is not None:
+                self.start_val = start_val
+            elif end_val is not None:
+                self.start_val = end_val - gradient * (
+                    self.pulse_time - self.tau[-1]
+                )
+            # the end point follows from the gradient
+            self.end_val = None
 
         if self.start_val is not None and self.end_val is not None:
             self.gradient = float(self.end_val - self.start_val) / (
-- 
2.43.0


From 7ec27569983aaa997d15b0e09242037d1dc0cd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 17/54] fix: optimisation with scipy methods that do not report
 iterations

The optimisation itself ran, but with COBYLA, whose result has no 'nit',
creating the result raised an AttributeError.
---
 src/qutip_qtrl/optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index dae2e93..4115cf4 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -594,13 +594,15 @@ class Optimizer(object):
             result.termination_reason = opt_res.message
             # Note the iterations are counted in this object as well
             # so there are compared here for interest sake only
-            if self.num_iter != opt_res.nit:
+            # (not all methods report them)
+            num_iter = opt_res.get("nit", self.num_iter)
+            if self.num_iter != num_iter:
                 logger.info(
                     "The number of iterations counted {} "
                     " does not match the number reported {} "
-                    "by {}".format(self.num_iter, opt_res.nit, self.method)
+                    "by {}".format(self.num_iter, num_iter, self.method)
                 )
-            result.num_iter = opt_res.nit
+            result.num_iter = num_iter
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From ff1b5d271d40e1ece619ea8c637a649965b94000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 18/54] fix: termination reason of OptimizerBFGS

Success (warnflag 0) left 'not started yet' as the reason, and the loss of
precision (warnflag 2) was reported as the minimum gradient having been reached.
---
 src/qutip_qtrl/optimizer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 4115cf4..35ab7fe 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -876,12 +876,20 @@ class OptimizerBFGS(Optimizer):
 
             amps = self._get_ctrl_amps(optim_var_vals)
             dyn.update_ctrl_amps(amps)
-            if warn == 1:
+            if warn == 0:
+                result.grad_norm_min_reached = True
+                result.termination_reason = "Gradient normal minimum reached"
+            elif warn == 1:
                 result.max_iter_exceeded = True
                 result.termination_reason = "Iteration count limit reached"
             elif warn == 2:
-                result.grad_norm_min_reached = True
-                result.termination_reason = "Gradient normal minimum reached"
+                result.termination_reason = (
+                    "Gradient and/or function calls not changing"
+                )
+            else:
+                result.termination_reason = "Unknown (warnflag={})".format(
+                    warn
+                )
 
         except errors.OptimizationTerminate as except_term:
             self._interpret_term_exception(except_term, result)
-- 
2.43.0


From 8bfa91f93d1ff846081323384bd5f9aa4c4f0910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 19/54] fix: use the bounds set by the user, rebuild those that
 were not

OptimizerLBFGSB always replaced the documented 'bounds' attribute, and the
other optimisers kept the list built for their first run even if the amplitude
bounds or the number of timeslots had been changed since.
---
 src/qutip_qtrl/optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 35ab7fe..e6db54b 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -260,6 +260,8 @@ class Optimizer(object):
         self.amp_lbound = None
         self.amp_ubound = None
         self.bounds = None
+        # The bounds list last built from amp_lbound and amp_ubound
+        self._built_bounds = None
         self.num_iter = 0
         self.num_fid_func_calls = 0
         self.num_grad_func_calls = 0
@@ -517,6 +519,7 @@ class Optimizer(object):
                     ub = None
 
                 self.bounds.append((lb, ub))
+        self._built_bounds = self.bounds
 
     def run_optimization(self, term_conds=None):
         """
@@ -558,7 +561,7 @@ class Optimizer(object):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 0
 
-        if self.bounds is None:
+        if self.bounds is None or self.bounds is self._built_bounds:
             self._build_bounds_list()
 
         self._build_method_options()
@@ -980,7 +983,8 @@ class OptimizerLBFGSB(Optimizer):
             self.stats.wall_time_optim_end = 0.0
             self.stats.num_iter = 1
 
-        bounds = self._build_bounds_list()
+        if self.bounds is None or self.bounds is self._built_bounds:
+            self._build_bounds_list()
         result = self._create_result()
 
         if self.approx_grad:
-- 
2.43.0


From a6fd734ced9919aef73e2a9073e5512067987996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 20/54] fix: amplitude bound of zero given in the optimisation
 configuration was dropped

---
 src/qutip_qtrl/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index e6db54b..8b47472 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -275,10 +275,10 @@ class Optimizer(object):
         # AJGP 2015-04-21:
         # These (copying from config) are here for backward compatibility
         if hasattr(self.config, "amp_lbound"):
-            if self.config.amp_lbound:
+            if self.config.amp_lbound is not None:
                 self.amp_lbound = self.config.amp_lbound
         if hasattr(self.config, "amp_ubound"):
-            if self.config.amp_ubound:
+            if self.config.amp_ubound is not None:
                 self.amp_ubound = self.config.amp_ubound
 
         self.apply_params()
-- 
2.43.0


From 48ff34770289fcc56fa379678bc7c1c9ec1dc04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:25 +0000
Subject: [PATCH 21/54] fix: set the fidelity in the optimisation result

It is documented as the final fidelity, but was always 0.
---
 src/qutip_qtrl/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 8b47472..672f0c1 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -787,6 +787,8 @@ class Optimizer(object):
         result.num_fid_func_calls = self.num_fid_func_calls
         result.wall_time = end_time - st_time
         result.fid_err = dyn.fid_computer.get_fid_err()
+        if hasattr(dyn.fid_computer, "get_fidelity"):
+            result.fidelity = dyn.fid_computer.get_fidelity()
         result.grad_norm_final = dyn.fid_computer.grad_norm
         result.final_amps = dyn.ctrl_amps
         final_evo = dyn.full_evo
-- 
2.43.0


From 6db0514a4d9e28f6bfbcbc7d8c376b209db08a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 22/54] fix: options of an earlier run were used instead of the
 current termination conditions

---
 src/qutip_qtrl/optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index 672f0c1..afe65c5 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -443,11 +443,13 @@ class Optimizer(object):
         It assumes that apply_method_params has already been run and
         hence the method_options attribute may already contain items.
         These values will NOT be overridden
+        The method_options attribute itself is not changed, so that the next
+        run does not use the termination conditions of this one.
         """
         tc = self.termination_conditions
         if self.method_options is None:
             self.method_options = {}
-        mo = self.method_options
+        mo = self.method_options.copy()
 
         if "max_metric_corr" in mo and "maxcor" not in mo:
             mo["maxcor"] = mo["max_metric_corr"]
@@ -564,7 +566,7 @@ class Optimizer(object):
         if self.bounds is None or self.bounds is self._built_bounds:
             self._build_bounds_list()
 
-        self._build_method_options()
+        method_options = self._build_method_options()
 
         result = self._create_result()
 
@@ -588,7 +590,7 @@ class Optimizer(object):
                 method=self.method,
                 jac=jac,
                 bounds=self.bounds,
-                options=self.method_options,
+                options=method_options,
                 callback=self.iter_step_callback_func,
             )
 
-- 
2.43.0


From a6be53295b387f4c8b1b3da43a773b5eca79838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 23/54] fix: per-slot controls with automatic data type,
 controls replaced before re-initialisation

---
 src/qutip_qtrl/dynamics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index c97c491..360f2bb 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -722,8 +722,9 @@ class Dynamics(object):
         # check evolution operators
         if not self._drift_dyn_gen_checked:
             _check_drift_dyn_gen(self.drift_dyn_gen)
-        if not self._ctrl_dyn_gen_checked:
-            self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        # The controls may have been replaced since they were last checked
+        self.ctrl_dyn_gen = _check_ctrls_container(self.ctrl_dyn_gen)
+        n_ctrls = self._get_num_ctrls()
 
         if not isinstance(self.initial, Qobj):
             raise TypeError("initial must be a Qobj")
@@ -748,7 +749,6 @@ class Dynamics(object):
             )
 
         n_ts = self.num_tslots
-        n_ctrls = self.num_ctrls
         if self.oper_dtype == Qobj:
             self._initial = self.initial
             self._target = self.target
@@ -1137,6 +1137,7 @@ class Dynamics(object):
             self._num_ctrls = self.ctrl_dyn_gen.shape[1]
             self.time_depend_ctrl_dyn_gen = True
         else:
+            self.time_depend_ctrl_dyn_gen = False
             self._num_ctrls = len(self.ctrl_dyn_gen)
 
         return self._num_ctrls
-- 
2.43.0


From 5d4b341b2bd221dfb8d793b3a036680f55056ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 24/54] fix: lists of an earlier configuration were used after
 re-initialisation

---
 src/qutip_qtrl/dynamics.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index 360f2bb..f1e98d0 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -748,6 +748,24 @@ class Dynamics(object):
                 " or increase the size of the system."
             )
 
+        # Do not keep anything of an earlier configuration. Those that are used
+        # in the current configuration are created below
+        self._phased_ctrl_dyn_gen = None
+        self._phased_dyn_gen = None
+        self._prop_grad = None
+        self._prop_grad_qobj = None
+        self._onwd_evo = None
+        self._onwd_evo_qobj = None
+        self._onto_evo = None
+        self._onto_evo_qobj = None
+        self._onto_evo_target = None
+        self._onto_evo_target_qobj = None
+        self._decomp_curr = None
+        self._prop_eigen = None
+        self._dyn_gen_eigenvectors = None
+        self._dyn_gen_eigenvectors_adj = None
+        self._dyn_gen_factormatrix = None
+
         n_ts = self.num_tslots
         if self.oper_dtype == Qobj:
             self._initial = self.initial
@@ -811,8 +829,6 @@ class Dynamics(object):
             # Onward propagation overlap with inverse target
             self._onto_evo = [object for x in range(self.num_tslots + 1)]
             self._onto_evo[self.num_tslots] = self._get_onto_evo_target()
-            # The target may have changed since the last initialisation
-            self._onto_evo_target_qobj = None
 
         if isinstance(self.prop_computer, propcomp.PropCompDiag):
             self._create_decomp_lists()
@@ -1807,6 +1823,16 @@ class DynamicsSymplectic(Dynamics):
                 self._omega = omg
         return self._omega
 
+    def _init_phase(self):
+        # The type or size of the operators, or the side on which the phase is
+        # applied, may have changed since an earlier initialisation
+        self._omega = None
+        self._omega_qobj = None
+        phase = self._get_dyn_gen_phase()
+        if phase is not None:
+            self._dyn_gen_phase = phase
+        Dynamics._init_phase(self)
+
     def _set_phase_application(self, value):
         Dynamics._set_phase_application(self, value)
         if self._evo_initialized:
-- 
2.43.0


From 54f73270e537ba29e36b1e0c17e95d4f8a1b8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 25/54] fix: warning about an unknown guess pulse action raised
 an error

---
 src/qutip_qtrl/pulsegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index 793e320..cc2194c 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1155,13 +1155,13 @@ class PulseGenCrab(PulseGen):
     def init_guess_pulse(self):
         self.guess_pulse_func = None
         if not self.guess_pulse_action:
-            logger.WARN("No guess pulse action given, hence ignored.")
+            logger.warning("No guess pulse action given, hence ignored.")
         elif self.guess_pulse_action.upper() == "MODULATE":
             self.guess_pulse_func = self.guess_pulse_modulate
         elif self.guess_pulse_action.upper() == "ADD":
             self.guess_pulse_func = self.guess_pulse_add
         else:
-            logger.WARN(
+            logger.warning(
                 "No option for guess pulse action '{}' "
                 ", hence ignored.".format(self.guess_pulse_action)
             )
-- 
2.43.0


From e9d67feaafeb68cd1ad0aab8d56f1b7626302f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 26/54] fix: coefficients passed to gen_pulse of the Fourier
 CRAB pulse

---
 src/qutip_qtrl/pulsegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qutip_qtrl/pulsegen.py b/src/qutip_qtrl/pulsegen.py
index cc2194c..58d7c4b 100644
--- a/src/qutip_qtrl/pulsegen.py
+++ b/src/qutip_qtrl/pulsegen.py
@@ -1314,12 +1314,12 @@ class PulseGenCrabFourier(PulseGenCrab):
             If given this overides the default and sets the attribute
             of the same name.
         """
-        if coeffs:
-            self.coeffs = coeffs
-
         if not self._pulse_initialised:
             self.init_pulse()
 
+        if coeffs is not None:
+            self.coeffs = coeffs
+
         pulse = np.zeros(self.num_tslots)
 
         for i in range(self.num_coeffs):
-- 
2.43.0


From c3b9845fea91d087b173e97ecb09a8ceca082bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 27/54] fix: u_start given as an array together with u_limits

---
 src/qutip_qtrl/grape.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 6c4b5e2..3dd102c 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -157,9 +157,9 @@ def grape_unitary(
     if u_limits:
         warnings.warn("Caution: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
@@ -333,9 +333,9 @@ def cy_grape_unitary(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
@@ -523,9 +523,9 @@ def grape_unitary_adaptive(
     if u_limits:
         warnings.warn("Causion: Using experimental feature u_limits")
 
-    if u_limits and u_start:
+    if u_limits and u_start is not None:
         # make sure that no values in u0 violates the u_limits conditions
-        u_start = np.array(u_start)
+        u_start = np.array(u_start, dtype=float)
         u_start[u_start < u_limits[0]] = u_limits[0]
         u_start[u_start > u_limits[1]] = u_limits[1]
 
-- 
2.43.0


From 5bea06670e437573bec633c0f5ca5f626fbe8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 28/54] fix: U_f of GRAPE results is the evolution of the
 returned pulses

---
 src/qutip_qtrl/grape.py | 57 ++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 3dd102c..66120ee 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -170,11 +170,10 @@ def grape_unitary(
     if beta:
         warnings.warn("Causion: Using experimental feature time-penalty")
 
-    for r in range(R - 1):
-        progress_bar.update()
-
-        dt = times[1] - times[0]
+    dt = times[1] - times[0]
 
+    def _slot_propagators(r):
+        # the propagators of all time slots for the pulses of iteration r
         if use_interp:
             ip_funcs = [
                 interp1d(
@@ -192,16 +191,19 @@ def grape_unitary(
                     float(ip_funcs[j](t)) * H_ops[j] for j in range(J)
                 )
 
-            U_list = [
+            return [
                 (-1j * _H_t(times[idx]) * dt).expm() for idx in range(M - 1)
             ]
 
-        else:
+        def _H_idx(idx):
+            return H0 + sum([u[r, j, idx] * H_ops[j] for j in range(J)])
 
-            def _H_idx(idx):
-                return H0 + sum([u[r, j, idx] * H_ops[j] for j in range(J)])
+        return [(-1j * _H_idx(idx) * dt).expm() for idx in range(M - 1)]
 
-            U_list = [(-1j * _H_idx(idx) * dt).expm() for idx in range(M - 1)]
+    for r in range(R - 1):
+        progress_bar.update()
+
+        U_list = _slot_propagators(r)
 
         U_f_list = []
         U_b_list = []
@@ -262,8 +264,12 @@ def grape_unitary(
 
     progress_bar.finished()
 
-    # return U_f_list[-1], H_td_func, u
-    return GRAPEResult(u=u, U_f=U_f_list[-1], H_t=H_td_func)
+    # the evolution realized by the pulses of the last iteration
+    U_f = qeye(U.dims[0])
+    for U_n in _slot_propagators(R - 1):
+        U_f = U_n @ U_f
+
+    return GRAPEResult(u=u, U_f=U_f, H_t=H_td_func)
 
 
 def cy_grape_unitary(
@@ -358,11 +364,10 @@ def cy_grape_unitary(
     alpha_val = alpha if alpha else 0.0
     beta_val = beta if beta else 0.0
 
-    for r in range(R - 1):
-        progress_bar.update()
-
-        dt = times[1] - times[0]
+    dt = times[1] - times[0]
 
+    def _slot_propagators(r):
+        # the propagators of all time slots for the pulses of iteration r
         if use_interp:
             ip_funcs = [
                 interp1d(
@@ -380,19 +385,20 @@ def cy_grape_unitary(
                     [float(ip_funcs[j](t)) * H_ops[j] for j in range(J)]
                 )
 
-            U_list = [
+            return [
                 (-1j * _H_t(times[idx]) * dt).expm().data
                 for idx in range(M - 1)
             ]
 
-        else:
+        def _H_idx(idx):
+            return H0 + sum([u[r, j, idx] * H_ops[j] for j in range(J)])
 
-            def _H_idx(idx):
-                return H0 + sum([u[r, j, idx] * H_ops[j] for j in range(J)])
+        return [(-1j * _H_idx(idx) * dt).expm().data for idx in range(M - 1)]
 
-            U_list = [
-                (-1j * _H_idx(idx) * dt).expm().data for idx in range(M - 1)
-            ]
+    for r in range(R - 1):
+        progress_bar.update()
+
+        U_list = _slot_propagators(r)
 
         U_f_list = []
         U_b_list = []
@@ -445,7 +451,12 @@ def cy_grape_unitary(
 
     progress_bar.finished()
 
-    return GRAPEResult(u=u, U_f=Qobj(U_f_list[-1], dims=U.dims), H_t=H_td_func)
+    # the evolution realized by the pulses of the last iteration
+    U_f = qeye(U.dims[0]).data
+    for U_n in _slot_propagators(R - 1):
+        U_f = U_n @ U_f
+
+    return GRAPEResult(u=u, U_f=Qobj(U_f, dims=U.dims), H_t=H_td_func)
 
 
 def grape_unitary_adaptive(
-- 
2.43.0


From b679af3afc7e13b2e327af31a34155ca0062c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 29/54] fix: penalty on late control signals in grape_unitary
 and grape_unitary_adaptive

---
 src/qutip_qtrl/grape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index 66120ee..a554320 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -232,7 +232,7 @@ def grape_unitary(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * m * u[r, j, m] * dt
+                    du += -2 * beta * m**2 * u[r, j, m] * dt
 
                 u[r + 1, j, m] = u[r, j, m] + eps * du.real
 
@@ -642,7 +642,7 @@ def grape_unitary_adaptive(
 
                 if beta:
                     # penalty term for late control signals u
-                    du += -2 * beta * k**2 * u[r, j, k] * dt
+                    du += -2 * beta * m**2 * u[r, j, m, best_k] * dt
 
                 for k, eps_val in enumerate(eps_vec):
                     u[r + 1, j, m, k] = u[r, j, m, k] + eps_val * du.real
-- 
2.43.0


From af94c374a0dac9174dd65c61a4ee120b85b37b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 30/54] fix: grape_unitary_adaptive returns the best pulses and
 the evolution they realize

---
 src/qutip_qtrl/grape.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/qutip_qtrl/grape.py b/src/qutip_qtrl/grape.py
index a554320..4cf32a9 100644
--- a/src/qutip_qtrl/grape.py
+++ b/src/qutip_qtrl/grape.py
@@ -560,23 +560,29 @@ def grape_unitary_adaptive(
 
     best_k = 1
     _r = 0
-    _prev_overlap = 0
+    dt = times[1] - times[0]
+
+    def _H_idx(r, idx, k):
+        return H0 + sum([u[r, j, idx, k] * H_ops[j] for j in range(J)])
+
+    # the evolution and the overlap of the best pulses so far
+    _best_Uf = qeye(U.dims[0])
+    for idx in range(M - 1):
+        _best_Uf = (-1j * _H_idx(0, idx, best_k) * dt).expm() @ _best_Uf
+    _prev_overlap = _fidelity_function(
+        cy_overlap(_best_Uf.data, U.data)
+    ).real
 
     for r in range(R - 1):
         progress_bar.update()
 
-        _r = r
+        _r = r + 1
         eps_log[r] = eps_vec[best_k]
 
         logger.debug("eps_vec: {}".format(eps_vec))
 
         _t0 = time.time()
 
-        dt = times[1] - times[0]
-
-        def _H_idx(r, idx, k):
-            return H0 + sum([u[r, j, idx, k] * H_ops[j] for j in range(J)])
-
         if use_interp:
             ip_funcs = [
                 interp1d(
@@ -681,6 +687,10 @@ def grape_unitary_adaptive(
             u[r + 1, :, :, :] = u[r, :, :, :]
             eps_vec /= 2
         else:
+            # continue from the best pulses with all the step sizes
+            u[r + 1, :, :, :] = u[r + 1, :, :, best_k][:, :, np.newaxis]
+            _best_Uf = Uf[best_k]
+
             if best_k == 0:
                 eps_vec /= 2
 
@@ -689,10 +699,10 @@ def grape_unitary_adaptive(
 
             _prev_overlap = _k_overlap[best_k]
 
-        overlap_log[r] = _k_overlap[best_k]
+        overlap_log[r] = _prev_overlap
 
         if overlap_terminate < 1.0:
-            if _k_overlap[best_k] > overlap_terminate:
+            if _prev_overlap > overlap_terminate:
                 logger.info("Reached target fidelity, terminating.")
                 break
 
@@ -706,7 +716,7 @@ def grape_unitary_adaptive(
                 u[_r, j, :, best_k],
                 kind=interp_kind,
                 bounds_error=False,
-                fill_value=u[R - 1, j, -1],
+                fill_value=u[_r, j, -1, best_k],
             )
             for j in range(J)
         ]
@@ -719,7 +729,9 @@ def grape_unitary_adaptive(
 
     progress_bar.finished()
 
-    result = GRAPEResult(u=u[:_r, :, :, best_k], U_f=Uf[best_k], H_t=H_td_func)
+    result = GRAPEResult(
+        u=u[: _r + 1, :, :, best_k], U_f=_best_Uf, H_t=H_td_func
+    )
 
     result.eps = eps_log
     result.overlap = overlap_log
-- 
2.43.0


From fa80f6ecb23560f58fbb0dd58f39a8b703df51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 31/54] fix: optimize_pulse and optimize_pulse_unitary pass
 tslot_type and tslot_params on

---
 src/qutip_qtrl/pulseoptim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index b7d3555..42b6150 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -453,6 +453,8 @@ def optimize_pulse(
         prop_params=prop_params,
         fid_type=fid_type,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
@@ -841,6 +843,8 @@ def optimize_pulse_unitary(
         dyn_params=dyn_params,
         prop_params=prop_params,
         fid_params=fid_params,
+        tslot_type=tslot_type,
+        tslot_params=tslot_params,
         init_pulse_type=init_pulse_type,
         init_pulse_params=init_pulse_params,
         pulse_scaling=pulse_scaling,
-- 
2.43.0


From f0344efc8cf8a57defdb4cc10312e9b91e66c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 32/54] fix: optimize_pulse accepts alg in the letter cases the
 optimizer is created for

---
 src/qutip_qtrl/pulseoptim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 42b6150..87ee307 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -471,7 +471,7 @@ def optimize_pulse(
     # Generate initial pulses for each control
     init_amps = np.zeros([dyn.num_tslots, dyn.num_ctrls])
 
-    if alg == "CRAB":
+    if _upper_safe(alg) == "CRAB":
         for j in range(dyn.num_ctrls):
             pgen = optim.pulse_generator[j]
             pgen.init_pulse()
-- 
2.43.0


From 94a5724c4efd290b495dba5548ab2a31400c7446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 33/54] fix: scale_factor in fid_params is not replaced by
 fid_err_scale_factor

---
 src/qutip_qtrl/pulseoptim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 87ee307..dffefc9 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -407,7 +407,7 @@ def optimize_pulse(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
+            if "scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
@@ -1812,7 +1812,7 @@ def create_pulse_optimizer(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "fid_err_scale_factor" not in fid_params:
+            if "scale_factor" not in fid_params:
                 fid_params["scale_factor"] = fid_err_scale_factor
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
-- 
2.43.0


From 8718bf53a01076aa4f90db2609a44ec1df53e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 34/54] fix: init_pulse_params take precedence over the pulse
 scaling and offset

---
 src/qutip_qtrl/pulseoptim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index dffefc9..5d690f8 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -2101,6 +2101,8 @@ def create_pulse_optimizer(
         pgen.offset = pulse_offset
         pgen.lbound = amp_lbound
         pgen.ubound = amp_ubound
+        # The parameters take precedence over these general settings
+        pgen.apply_params()
 
         optim.pulse_generator = pgen
 
-- 
2.43.0


From 5dc20fc1fcc15fb434dae9f56126105f00953c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 35/54] fix: CRAB pulses keep amplitude bounds that are zero

---
 src/qutip_qtrl/pulseoptim.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 5d690f8..e36e08d 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -85,6 +85,13 @@ def _param_deprecation(message, stacklevel=3):
     warnings.warn(message, FutureWarning, stacklevel=stacklevel)
 
 
+def _ctrl_bound(bound, j):
+    """Amplitude bound of control j, from one bound for all or a list"""
+    if isinstance(bound, list):
+        return bound[j] if j < len(bound) else bound[-1]
+    return bound
+
+
 def _upper_safe(s):
     try:
         s = s.upper()
@@ -2057,26 +2064,12 @@ def create_pulse_optimizer(
             if isinstance(crab_pulse_params, dict):
                 crab_pgen.apply_params(crab_pulse_params)
 
-            lb = None
-            if amp_lbound:
-                if isinstance(amp_lbound, list):
-                    try:
-                        lb = amp_lbound[j]
-                    except Exception:
-                        lb = amp_lbound[-1]
-                else:
-                    lb = amp_lbound
-            ub = None
-            if amp_ubound:
-                if isinstance(amp_ubound, list):
-                    try:
-                        ub = amp_ubound[j]
-                    except Exception:
-                        ub = amp_ubound[-1]
-                else:
-                    ub = amp_ubound
-            crab_pgen.lbound = lb
-            crab_pgen.ubound = ub
+            lb = _ctrl_bound(amp_lbound, j)
+            ub = _ctrl_bound(amp_ubound, j)
+            if lb is not None:
+                crab_pgen.lbound = lb
+            if ub is not None:
+                crab_pgen.ubound = ub
 
             if guess_pulse_type:
                 guess_pgen.lbound = lb
-- 
2.43.0


From 589aebd94d6ae67e7f9787ed654ed9590cac8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 36/54] fix: bounds of the CRAB guess pulse are initialised for
 every control

---
 src/qutip_qtrl/pulseoptim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index e36e08d..25aaf1b 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -2074,6 +2074,7 @@ def create_pulse_optimizer(
             if guess_pulse_type:
                 guess_pgen.lbound = lb
                 guess_pgen.ubound = ub
+                guess_pgen.init_pulse()
                 crab_pgen.guess_pulse = guess_pgen.gen_pulse()
                 if guess_pulse_action:
                     crab_pgen.guess_pulse_action = guess_pulse_action
-- 
2.43.0


From b8b7c193aa27584fe71c6deb5c82d0166a91b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 37/54] fix: GRAPE pulses can be initialised with a list of
 amplitude bounds

---
 src/qutip_qtrl/pulseoptim.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 25aaf1b..5d45b7e 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -484,8 +484,10 @@ def optimize_pulse(
             pgen.init_pulse()
             init_amps[:, j] = pgen.gen_pulse()
     else:
-        pgen = optim.pulse_generator
         for j in range(dyn.num_ctrls):
+            pgen = optim.pulse_generator
+            if isinstance(pgen, list):
+                pgen = pgen[j]
             init_amps[:, j] = pgen.gen_pulse()
 
     # Initialise the starting amplitudes
@@ -2088,17 +2090,26 @@ def create_pulse_optimizer(
 
     else:
         # Create a pulse generator of the type specified
-        pgen = pulsegen.create_pulse_gen(
-            pulse_type=init_pulse_type, dyn=dyn, pulse_params=init_pulse_params
+        # or one for each control, if the controls have their own bounds
+        own_bounds = isinstance(amp_lbound, list) or isinstance(
+            amp_ubound, list
         )
-        pgen.scaling = pulse_scaling
-        pgen.offset = pulse_offset
-        pgen.lbound = amp_lbound
-        pgen.ubound = amp_ubound
-        # The parameters take precedence over these general settings
-        pgen.apply_params()
-
-        optim.pulse_generator = pgen
+        pgens = []
+        for j in range(n_ctrls if own_bounds else 1):
+            pgen = pulsegen.create_pulse_gen(
+                pulse_type=init_pulse_type,
+                dyn=dyn,
+                pulse_params=init_pulse_params,
+            )
+            pgen.scaling = pulse_scaling
+            pgen.offset = pulse_offset
+            pgen.lbound = _ctrl_bound(amp_lbound, j)
+            pgen.ubound = _ctrl_bound(amp_ubound, j)
+            # The parameters take precedence over these general settings
+            pgen.apply_params()
+            pgens.append(pgen)
+
+        optim.pulse_generator = pgens if own_bounds else pgen
 
     if log_level <= logging.DEBUG:
         logger.debug(
-- 
2.43.0


From 3b446230fd6ab327485a2576c470c4e0462b4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 38/54] fix: the documented fid_type TD_APPROX is accepted

---
 src/qutip_qtrl/pulseoptim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index 5d45b7e..b3f1e09 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -1921,7 +1921,7 @@ def create_pulse_optimizer(
     if fid_type_up == "DEF" or fid_type_up is None or fid_type_up == "":
         # None given, use the default for the Dynamics
         pass
-    elif fid_type_up == "TDAPPROX":
+    elif fid_type_up in ("TDAPPROX", "TD_APPROX"):
         if not isinstance(dyn.fid_computer, fidcomp.FidCompTraceDiffApprox):
             dyn.fid_computer = fidcomp.FidCompTraceDiffApprox(dyn)
     elif fid_type_up == "TRACEDIFF":
-- 
2.43.0


From 963b0b78f22dd97cdfd40584018f47cf9f556346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:26 +0000
Subject: [PATCH 39/54] fix: the option dictionaries of the caller are not
 modified

---
 src/qutip_qtrl/pulseoptim.py | 37 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index b3f1e09..ca5a223 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -379,8 +379,7 @@ def optimize_pulse(
 
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
-            if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
+            method_params = {"max_metric_corr": max_metric_corr, **method_params}
         else:
             method_params = {"max_metric_corr": max_metric_corr}
         _param_deprecation(
@@ -390,8 +389,7 @@ def optimize_pulse(
 
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
-            if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
+            method_params = {"accuracy_factor": accuracy_factor, **method_params}
         else:
             method_params = {"accuracy_factor": accuracy_factor}
         _param_deprecation(
@@ -402,8 +400,7 @@ def optimize_pulse(
     # phase_option
     if phase_option is not None:
         if isinstance(fid_params, dict):
-            if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+            fid_params = {"phase_option": phase_option, **fid_params}
         else:
             fid_params = {"phase_option": phase_option}
         _param_deprecation(
@@ -414,8 +411,7 @@ def optimize_pulse(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "scale_factor" not in fid_params:
-                fid_params["scale_factor"] = fid_err_scale_factor
+            fid_params = {"scale_factor": fid_err_scale_factor, **fid_params}
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
         _param_deprecation(
@@ -788,8 +784,7 @@ def optimize_pulse_unitary(
 
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
-            if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
+            method_params = {"max_metric_corr": max_metric_corr, **method_params}
         else:
             method_params = {"max_metric_corr": max_metric_corr}
         _param_deprecation(
@@ -799,8 +794,7 @@ def optimize_pulse_unitary(
 
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
-            if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
+            method_params = {"accuracy_factor": accuracy_factor, **method_params}
         else:
             method_params = {"accuracy_factor": accuracy_factor}
         _param_deprecation(
@@ -826,8 +820,7 @@ def optimize_pulse_unitary(
         if fid_params is None:
             fid_params = {"phase_option": phase_option}
         else:
-            if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+            fid_params = {"phase_option": phase_option, **fid_params}
 
     return optimize_pulse(
         drift=H_d,
@@ -1121,6 +1114,7 @@ def opt_pulse_crab(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
+        alg_params = dict(alg_params)
         if num_coeffs is not None and "num_coeffs" not in alg_params:
             alg_params["num_coeffs"] = num_coeffs
         if (
@@ -1135,6 +1129,7 @@ def opt_pulse_crab(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
+        guess_pulse_params = dict(guess_pulse_params)
         if (
             guess_pulse_scaling is not None
             and "scaling" not in guess_pulse_params
@@ -1434,6 +1429,7 @@ def opt_pulse_crab_unitary(
             "init_coeff_scaling": init_coeff_scaling,
         }
     else:
+        alg_params = dict(alg_params)
         if num_coeffs is not None and "num_coeffs" not in alg_params:
             alg_params["num_coeffs"] = num_coeffs
         if (
@@ -1448,6 +1444,7 @@ def opt_pulse_crab_unitary(
     if guess_pulse_type:
         if not isinstance(guess_pulse_params, dict):
             guess_pulse_params = {}
+        guess_pulse_params = dict(guess_pulse_params)
         if (
             guess_pulse_scaling is not None
             and "scaling" not in guess_pulse_params
@@ -1786,8 +1783,7 @@ def create_pulse_optimizer(
 
     if max_metric_corr is not None:
         if isinstance(method_params, dict):
-            if "max_metric_corr" not in method_params:
-                method_params["max_metric_corr"] = max_metric_corr
+            method_params = {"max_metric_corr": max_metric_corr, **method_params}
         else:
             method_params = {"max_metric_corr": max_metric_corr}
         _param_deprecation(
@@ -1797,8 +1793,7 @@ def create_pulse_optimizer(
 
     if accuracy_factor is not None:
         if isinstance(method_params, dict):
-            if "accuracy_factor" not in method_params:
-                method_params["accuracy_factor"] = accuracy_factor
+            method_params = {"accuracy_factor": accuracy_factor, **method_params}
         else:
             method_params = {"accuracy_factor": accuracy_factor}
         _param_deprecation(
@@ -1809,8 +1804,7 @@ def create_pulse_optimizer(
     # phase_option
     if phase_option is not None:
         if isinstance(fid_params, dict):
-            if "phase_option" not in fid_params:
-                fid_params["phase_option"] = phase_option
+            fid_params = {"phase_option": phase_option, **fid_params}
         else:
             fid_params = {"phase_option": phase_option}
         _param_deprecation(
@@ -1821,8 +1815,7 @@ def create_pulse_optimizer(
     # fid_err_scale_factor
     if fid_err_scale_factor is not None:
         if isinstance(fid_params, dict):
-            if "scale_factor" not in fid_params:
-                fid_params["scale_factor"] = fid_err_scale_factor
+            fid_params = {"scale_factor": fid_err_scale_factor, **fid_params}
         else:
             fid_params = {"scale_factor": fid_err_scale_factor}
         _param_deprecation(
-- 
2.43.0


From 66b8a1959b83cd488528d0275ac035ed363983e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:38 +0000
Subject: [PATCH 40/54] fix: CRAB given in lower case does not use gradients

---
 src/qutip_qtrl/pulseoptim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/pulseoptim.py b/src/qutip_qtrl/pulseoptim.py
index ca5a223..400e5cf 100644
--- a/src/qutip_qtrl/pulseoptim.py
+++ b/src/qutip_qtrl/pulseoptim.py
@@ -1961,7 +1961,7 @@ def create_pulse_optimizer(
         else:
             optim = optimizer.Optimizer(cfg, dyn)
 
-    optim.alg = alg
+    optim.alg = alg_up
     optim.method = optim_method
     optim.amp_lbound = amp_lbound
     optim.amp_ubound = amp_ubound
-- 
2.43.0


From f7016bfd2e2e8a0fcd20bc77c0cf408b7224b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:38 +0000
Subject: [PATCH 41/54] fix: number of iterations in the statistics is that of
 the result

---
 src/qutip_qtrl/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qutip_qtrl/optimizer.py b/src/qutip_qtrl/optimizer.py
index afe65c5..0928186 100644
--- a/src/qutip_qtrl/optimizer.py
+++ b/src/qutip_qtrl/optimizer.py
@@ -801,6 +801,7 @@ class Optimizer(object):
         # *** update stats ***
         if self.stats is not None:
             self.stats.wall_time_optim_end = end_time
+            self.stats.num_iter = self.num_iter
             self.stats.calculate()
             result.stats = copy.copy(self.stats)
 
-- 
2.43.0


From 2453d436d297c44b020f87f4b508ace593a665ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:38 +0000
Subject: [PATCH 42/54] fix: statistics of DYNAMIC runs without dynamic updates

---
 src/qutip_qtrl/stats.py | 46 +++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/qutip_qtrl/stats.py b/src/qutip_qtrl/stats.py
index c628539..5ea1f86 100644
--- a/src/qutip_qtrl/stats.py
+++ b/src/qutip_qtrl/stats.py
@@ -342,38 +342,34 @@ class StatsDynTsUpdate(Stats):
 
     def calculate(self):
         Stats.calculate(self)
-        self.mean_num_dyn_gen_computes_per_update = (
-            self.num_dyn_gen_computes / float(self.num_ctrl_amp_updates)
-        )
 
-        self.mean_wall_time_dyn_gen_compute = (
-            self.wall_time_dyn_gen_compute / float(self.num_dyn_gen_computes)
-        )
+        def mean(total, number):
+            return total / float(number) if number else np.nan
 
-        self.mean_num_prop_computes_per_update = (
-            self.num_prop_computes / float(self.num_ctrl_amp_updates)
+        num_updates = self.num_ctrl_amp_updates
+        self.mean_num_dyn_gen_computes_per_update = mean(
+            self.num_dyn_gen_computes, num_updates
         )
-
-        self.mean_wall_time_prop_compute = self.wall_time_prop_compute / float(
-            self.num_prop_computes
+        self.mean_wall_time_dyn_gen_compute = mean(
+            self.wall_time_dyn_gen_compute, self.num_dyn_gen_computes
         )
-
-        self.mean_num_fwd_prop_step_computes_per_update = (
-            self.num_fwd_prop_step_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_prop_computes_per_update = mean(
+            self.num_prop_computes, num_updates
         )
-
-        self.mean_wall_time_fwd_prop_compute = (
-            self.wall_time_fwd_prop_compute
-            / float(self.num_fwd_prop_step_computes)
+        self.mean_wall_time_prop_compute = mean(
+            self.wall_time_prop_compute, self.num_prop_computes
         )
-
-        self.mean_num_onwd_prop_step_computes_per_update = (
-            self.num_onwd_prop_step_computes / float(self.num_ctrl_amp_updates)
+        self.mean_num_fwd_prop_step_computes_per_update = mean(
+            self.num_fwd_prop_step_computes, num_updates
         )
-
-        self.mean_wall_time_onwd_prop_compute = (
-            self.wall_time_onwd_prop_compute
-            / float(self.num_onwd_prop_step_computes)
+        self.mean_wall_time_fwd_prop_compute = mean(
+            self.wall_time_fwd_prop_compute, self.num_fwd_prop_step_computes
+        )
+        self.mean_num_onwd_prop_step_computes_per_update = mean(
+            self.num_onwd_prop_step_computes, num_updates
+        )
+        self.mean_wall_time_onwd_prop_compute = mean(
+            self.wall_time_onwd_prop_compute, self.num_onwd_prop_step_computes
         )
 
     def report(self):
-- 
2.43.0


From 93749db0553b836e00b8c60aa39ae2a937e212b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 43/54] fix: dumping level CUSTOM can be used

---
 src/qutip_qtrl/dump.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index f86d900..3147466 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -137,8 +137,8 @@ class Dump:
 
     @level.setter
     def level(self, value):
+        self._apply_level(value)
         self._level = value
-        self._apply_level()
 
     @property
     def dump_any(self):
@@ -257,6 +257,7 @@ class OptimDump(Dump):
             raise TypeError("Must instantiate with {} type".format(Optimizer))
         self.parent = optim
         self._level = level
+        self._custom = False
         self.reset()
 
     def reset(self):
@@ -293,12 +294,14 @@ class OptimDump(Dump):
             raise ValueError("Dump level must be a string")
         level = level.upper()
         if level == "CUSTOM":
-            if self._level == "CUSTOM":
+            if self._custom:
                 # dumping level has not changed keep the same specific config
-                pass
-            else:
-                # Switching to custom, start from SUMMARY
-                level = "SUMMARY"
+                return
+            # Switching to custom, start from SUMMARY
+            self._custom = True
+            level = "SUMMARY"
+        else:
+            self._custom = False
 
         if level == "SUMMARY":
             self.dump_summary = True
@@ -535,6 +538,7 @@ class DynamicsDump(Dump):
             raise TypeError("Must instantiate with {} type".format(Dynamics))
         self.parent = dynamics
         self._level = level
+        self._custom = False
         self.reset()
 
     def reset(self):
@@ -588,12 +592,14 @@ class DynamicsDump(Dump):
             raise ValueError("Dump level must be a string")
         level = level.upper()
         if level == "CUSTOM":
-            if self._level == "CUSTOM":
+            if self._custom:
                 # dumping level has not changed keep the same specific config
-                pass
-            else:
-                # Switching to custom, start from SUMMARY
-                level = "SUMMARY"
+                return
+            # Switching to custom, start from SUMMARY
+            self._custom = True
+            level = "SUMMARY"
+        else:
+            self._custom = False
 
         if level == "SUMMARY":
             self.dump_summary = True
-- 
2.43.0


From b3b79fa9cd6f659bfc6f29dd3e1853bb8aa969b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 44/54] fix: written dumps of the onward and onto evolution are
 those evolutions

---
 src/qutip_qtrl/dump.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 3147466..24d9451 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -922,7 +922,7 @@ class EvoCompDumpItem(DumpItem):
                 closef = True
             for dg in self.dyn_gen:
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, self.onwd_evo[k], delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
@@ -941,7 +941,7 @@ class EvoCompDumpItem(DumpItem):
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                np.savetxt(f, self.onto_evo[k], delimiter=dump.data_sep)
                 k += 1
             if closef:
                 f.close()
-- 
2.43.0


From f6359fe61816157d0bac365ae975421e93a7e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 45/54] fix: dumps are written completely and without the
 dynamics generators

---
 src/qutip_qtrl/dump.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 24d9451..419a37a 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -854,7 +854,6 @@ class EvoCompDumpItem(DumpItem):
 
         # Propagators
         if self.prop is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Propagators\n"))
@@ -862,10 +861,9 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-prop.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k in range(len(self.prop)):
                 f.write(str.encode("Propagator for timeslot {}\n".format(k)))
                 np.savetxt(f, self.prop[k], delimiter=dump.data_sep)
-                k += 1
             if closef:
                 f.close()
 
@@ -895,7 +893,6 @@ class EvoCompDumpItem(DumpItem):
 
         # forward evolution
         if self.fwd_evo is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Forward evolution\n"))
@@ -903,16 +900,14 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-fwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k in range(len(self.fwd_evo)):
                 f.write(str.encode("Evolution from 0 to {}\n".format(k)))
                 np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
-                k += 1
             if closef:
                 f.close()
 
         # onward evolution
         if self.onwd_evo is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Onward evolution\n"))
@@ -920,16 +915,14 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onwd_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k in range(len(self.onwd_evo)):
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
                 np.savetxt(f, self.onwd_evo[k], delimiter=dump.data_sep)
-                k += 1
             if closef:
                 f.close()
 
         # onto evolution
         if self.onto_evo is not None:
-            k = 0
             if fall:
                 f = fall
                 f.write(str.encode("Onto evolution\n"))
@@ -937,12 +930,11 @@ class EvoCompDumpItem(DumpItem):
                 fname = "{}-onto_evo.{}".format(fnbase, dump.dump_file_ext)
                 f = open(os.path.join(dump.dump_dir, fname), "wb")
                 closef = True
-            for dg in self.dyn_gen:
+            for k in range(len(self.onto_evo)):
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
                 np.savetxt(f, self.onto_evo[k], delimiter=dump.data_sep)
-                k += 1
             if closef:
                 f.close()
 
-- 
2.43.0


From f7dc204130f54e0361c1467557015cee42f10016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 46/54] fix: dumps of Qobj dynamics can be written to file

---
 src/qutip_qtrl/dump.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 419a37a..924990b 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -12,6 +12,8 @@ import os
 import copy
 import numpy as np
 
+from qutip import Qobj
+
 # QuTiP control modules
 import qutip_qtrl.io as qtrlio
 
@@ -785,6 +787,12 @@ class EvoCompDumpItem(DumpItem):
         self.onwd_evo = None
         self.onto_evo = None
 
+    def _save_oper(self, f, oper):
+        """write the elements of the operator (array or Qobj) to the file"""
+        if isinstance(oper, Qobj):
+            oper = oper.full()
+        np.savetxt(f, oper, delimiter=self.parent.data_sep)
+
     def writeout(self, f=None):
         """write all the objects out to files
 
@@ -847,7 +855,7 @@ class EvoCompDumpItem(DumpItem):
                         "dynamics generator for timeslot {}\n".format(k)
                     )
                 )
-                np.savetxt(f, self.dyn_gen[k], delimiter=dump.data_sep)
+                self._save_oper(f, self.dyn_gen[k])
                 k += 1
             if closef:
                 f.close()
@@ -863,7 +871,7 @@ class EvoCompDumpItem(DumpItem):
                 closef = True
             for k in range(len(self.prop)):
                 f.write(str.encode("Propagator for timeslot {}\n".format(k)))
-                np.savetxt(f, self.prop[k], delimiter=dump.data_sep)
+                self._save_oper(f, self.prop[k])
             if closef:
                 f.close()
 
@@ -885,9 +893,7 @@ class EvoCompDumpItem(DumpItem):
                             "control {}\n".format(k, j)
                         )
                     )
-                    np.savetxt(
-                        f, self.prop_grad[k, j], delimiter=dump.data_sep
-                    )
+                    self._save_oper(f, self.prop_grad[k, j])
             if closef:
                 f.close()
 
@@ -902,7 +908,7 @@ class EvoCompDumpItem(DumpItem):
                 closef = True
             for k in range(len(self.fwd_evo)):
                 f.write(str.encode("Evolution from 0 to {}\n".format(k)))
-                np.savetxt(f, self.fwd_evo[k], delimiter=dump.data_sep)
+                self._save_oper(f, self.fwd_evo[k])
             if closef:
                 f.close()
 
@@ -917,7 +923,7 @@ class EvoCompDumpItem(DumpItem):
                 closef = True
             for k in range(len(self.onwd_evo)):
                 f.write(str.encode("Evolution from {} to end\n".format(k)))
-                np.savetxt(f, self.onwd_evo[k], delimiter=dump.data_sep)
+                self._save_oper(f, self.onwd_evo[k])
             if closef:
                 f.close()
 
@@ -934,7 +940,7 @@ class EvoCompDumpItem(DumpItem):
                 f.write(
                     str.encode("Evolution from {} onto target\n".format(k))
                 )
-                np.savetxt(f, self.onto_evo[k], delimiter=dump.data_sep)
+                self._save_oper(f, self.onto_evo[k])
             if closef:
                 f.close()
 
-- 
2.43.0


From 2f6c0f47f5b9f09036e262765b1b4508aef75f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 47/54] fix: relative summary file paths are relative to the
 dump directory

---
 src/qutip_qtrl/dump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 924990b..9d6f10c 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -195,7 +195,8 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File name base must be a string")
         self._fname_base = value
-        self._summary_file_path = None
+        if not self._summary_file_specified:
+            self._summary_file_path = None
 
     @property
     def summary_file(self):
@@ -211,7 +212,7 @@ class Dump:
         if not isinstance(value, str):
             raise ValueError("File path must be a string")
         self._summary_file_specified = True
-        if os.path.abspath(value):
+        if os.path.isabs(value):
             self._summary_file_path = value
         elif "~" in value:
             self._summary_file_path = os.path.expanduser(value)
-- 
2.43.0


From dcc7552c3207d7aa14d485b6d78bf91579388596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 48/54] fix: dumping FULL covers the evolutions of a fidelity
 computer set later

---
 src/qutip_qtrl/dump.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 9d6f10c..8c8462b 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -581,13 +581,12 @@ class DynamicsDump(Dump):
                 self.dump_prop,
                 self.dump_prop_grad,
                 self.dump_fwd_evo,
-                self.dump_onwd_evo == dyn.fid_computer.uses_onwd_evo,
-                self.dump_onto_evo == dyn.fid_computer.uses_onto_evo,
+                self.dump_onwd_evo or not dyn.fid_computer.uses_onwd_evo,
+                self.dump_onto_evo or not dyn.fid_computer.uses_onto_evo,
             ]
         )
 
     def _apply_level(self, level=None):
-        dyn = self.parent
         if level is None:
             level = self._level
 
@@ -620,8 +619,9 @@ class DynamicsDump(Dump):
             self.dump_prop = True
             self.dump_prop_grad = True
             self.dump_fwd_evo = True
-            self.dump_onwd_evo = dyn.fid_computer.uses_onwd_evo
-            self.dump_onto_evo = dyn.fid_computer.uses_onto_evo
+            # only those used by the fidelity computer are available
+            self.dump_onwd_evo = True
+            self.dump_onto_evo = True
         else:
             raise ValueError("No option for dumping level '{}'".format(level))
 
-- 
2.43.0


From acb00bf28726710afc48dc86b58e30d737d95890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:42 +0000
Subject: [PATCH 49/54] fix: log files follow the dump directory and the file
 name base

---
 src/qutip_qtrl/dump.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/qutip_qtrl/dump.py b/src/qutip_qtrl/dump.py
index 8c8462b..67cc276 100644
--- a/src/qutip_qtrl/dump.py
+++ b/src/qutip_qtrl/dump.py
@@ -167,6 +167,8 @@ class Dump:
         self._dump_dir = value
         if not self.create_dump_dir():
             self._dump_dir = None
+        if not self._summary_file_specified:
+            self._summary_file_path = None
 
     def create_dump_dir(self):
         """
@@ -271,8 +273,6 @@ class OptimDump(Dump):
         self.grad_norm_log = []
         self.grad_log = []
         self._fname_base = "optimdump"
-        self._fid_err_file = None
-        self._grad_norm_file = None
 
     def clear(self):
         del self.iter_summary[:]
@@ -345,12 +345,8 @@ class OptimDump(Dump):
 
     @property
     def fid_err_file(self):
-        if self._fid_err_file is None:
-            fname = "{}-fid_err_log.{}".format(
-                self.fname_base, self.dump_file_ext
-            )
-            self._fid_err_file = os.path.join(self.dump_dir, fname)
-        return self._fid_err_file
+        fname = "{}-fid_err_log.{}".format(self.fname_base, self.dump_file_ext)
+        return os.path.join(self.dump_dir, fname)
 
     def update_fid_err_log(self, fid_err):
         """add an entry to the fid_err log"""
@@ -366,12 +362,10 @@ class OptimDump(Dump):
 
     @property
     def grad_norm_file(self):
-        if self._grad_norm_file is None:
-            fname = "{}-grad_norm_log.{}".format(
-                self.fname_base, self.dump_file_ext
-            )
-            self._grad_norm_file = os.path.join(self.dump_dir, fname)
-        return self._grad_norm_file
+        fname = "{}-grad_norm_log.{}".format(
+            self.fname_base, self.dump_file_ext
+        )
+        return os.path.join(self.dump_dir, fname)
 
     def update_grad_norm_log(self, grad_norm):
         """add an entry to the grad_norm log"""
-- 
2.43.0


From 8379583e92ed276ede3efa6dc2567b2d0efc12cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:26 +0000
Subject: [PATCH 50/54] fix: deprecated get_timeslot_for_fidelity_calc returned
 a method instead of the slot index

---
 src/qutip_qtrl/tslotcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/tslotcomp.py b/src/qutip_qtrl/tslotcomp.py
index 0f09d4f..42fd1ab 100644
--- a/src/qutip_qtrl/tslotcomp.py
+++ b/src/qutip_qtrl/tslotcomp.py
@@ -361,7 +361,7 @@ class TSlotCompUpdateAll(TimeslotComputer):
             "'get_timeslot_for_fidelity_calc' is deprecated. "
             "Use '_get_timeslot_for_fidelity_calc'"
         )
-        return self._get_timeslot_for_fidelity_calc
+        return self._get_timeslot_for_fidelity_calc()
 
     def _get_timeslot_for_fidelity_calc(self):
         """
-- 
2.43.0


From a8d00d7b3c59be174f72b9d8aa314fde51b3be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:26 +0000
Subject: [PATCH 51/54] fix: deprecated combine_dyn_gen called the list of
 generators and raised TypeError

---
 src/qutip_qtrl/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/dynamics.py b/src/qutip_qtrl/dynamics.py
index f1e98d0..a332397 100644
--- a/src/qutip_qtrl/dynamics.py
+++ b/src/qutip_qtrl/dynamics.py
@@ -1231,7 +1231,7 @@ class Dynamics(object):
             "'combine_dyn_gen' has been replaced by " "'_combine_dyn_gen'"
         )
         self._combine_dyn_gen(k)
-        return self._dyn_gen(k)
+        return self._dyn_gen[k]
 
     def _combine_dyn_gen(self, k):
         """
-- 
2.43.0


From 825b1f29ae446303c4cee34cd5d3f504bd6b8ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:26 +0000
Subject: [PATCH 52/54] fix: deprecated compute_prop_grad passed self twice and
 raised TypeError

---
 src/qutip_qtrl/propcomp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qutip_qtrl/propcomp.py b/src/qutip_qtrl/propcomp.py
index 57ca4c5..fa4d8aa 100644
--- a/src/qutip_qtrl/propcomp.py
+++ b/src/qutip_qtrl/propcomp.py
@@ -158,7 +158,7 @@ class PropagatorComputer:
         _func_deprecation(
             "'compute_prop_grad' has been replaced " "by '_compute_prop_grad'"
         )
-        return self._compute_prop_grad(self, k, j, compute_prop=compute_prop)
+        return self._compute_prop_grad(k, j, compute_prop=compute_prop)
 
     def _compute_prop_grad(self, k, j, compute_prop=True):
         """
-- 
2.43.0


From 1f41e616df1e23b47646be5968ac99a18ff6a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:17 +0000
Subject: [PATCH 53/54] fix: whole numbers in parameter files, e.g. num_coeffs
 of a CRAB pulse, were loaded as floats

---
 src/qutip_qtrl/loadparams.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index 988278b..a7d0b61 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -219,12 +219,11 @@ def set_param(parser, section, option, obj, attrib_name):
             )
         setattr(obj, attrib_name, b)
     else:
-        try:
-            val = parser.getfloat(section, attrib_name)
-        except:
+        for get in (parser.getint, parser.getfloat, parser.getboolean):
             try:
-                val = parser.getboolean(section, attrib_name)
-            except:
+                val = get(section, attrib_name)
+                break
+            except ValueError:
                 pass
 
         setattr(obj, attrib_name, val)
-- 
2.43.0


From 049ac9a377d906f318dbd876a690a099b26eaac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:17 +0000
Subject: [PATCH 54/54] fix: parameter files turned strings that look like
 numbers or booleans into these

---
 src/qutip_qtrl/loadparams.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/qutip_qtrl/loadparams.py b/src/qutip_qtrl/loadparams.py
index a7d0b61..987b93e 100644
--- a/src/qutip_qtrl/loadparams.py
+++ b/src/qutip_qtrl/loadparams.py
@@ -219,11 +219,12 @@ def set_param(parser, section, option, obj, attrib_name):
             )
         setattr(obj, attrib_name, b)
     else:
-        for get in (parser.getint, parser.getfloat, parser.getboolean):
-            try:
-                val = get(section, attrib_name)
-                break
-            except ValueError:
-                pass
+        if dtype != str:
+            for get in (parser.getint, parser.getfloat, parser.getboolean):
+                try:
+                    val = get(section, attrib_name)
+                    break
+                except ValueError:
+                    pass
 
         setattr(obj, attrib_name, val)
-- 
2.43.0

