From 006b54dde8e85e2db2aed4f4a8a6cbf1835c1570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:54 +0000
Subject: [PATCH 01/91] fix: count the fixed centre of mass in the centroid
 thermostat of nm_gle_g

---
 ipi/engine/thermostats.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index abba0d8..6899abc 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1044,9 +1044,13 @@ class ThermoNMGLEG(ThermoNMGLE):
 
         t = ThermoSVR(self.temp, self.dt, self.tau)
 
+        # bind global thermostat to centroid. the only constraint supported with
+        # this thermostat is that on the COM, which acts on the centroid mode
         t.bind(
-            pm=(nm.pnm[0, :], nm.dynm3[0, :]), prng=self.prng
-        )  # bind global thermostat to centroid
+            pm=(nm.pnm[0, :], nm.dynm3[0, :]),
+            prng=self.prng,
+            fixdof=3 if fixcom else None,
+        )
 
         # pipes temp and dt
         dpipe(self._temp, t._temp)
-- 
2.43.0


From 13c6dd815465629b0f6971f5d4154ca3a083e0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:54 +0000
Subject: [PATCH 02/91] fix: multiple thermostats pass the centre-of-mass
 constraint on to their members

---
 ipi/engine/thermostats.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/thermostats.py b/ipi/engine/thermostats.py
index 6899abc..fc0eb38 100644
--- a/ipi/engine/thermostats.py
+++ b/ipi/engine/thermostats.py
@@ -1334,7 +1334,15 @@ class MultiThermo(Thermostat):
 
         # just binds all the sub-thermostats
         for t in self.tlist:
-            t.bind(beads=beads, atoms=atoms, pm=pm, nm=nm, prng=prng, fixdof=fixdof)
+            t.bind(
+                beads=beads,
+                atoms=atoms,
+                pm=pm,
+                nm=nm,
+                prng=prng,
+                fixdof=fixdof,
+                fixcom=fixcom,
+            )
             self._ethermo.add_dependency(t._ethermo)
 
         self._ethermo._func = self.get_ethermo
-- 
2.43.0


From 83c5fcabf4a51dd3e4badbd441c3ad3bdd6477e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:37 +0000
Subject: [PATCH 03/91] fix: stale values through held references, reshaped
 views and partial writes of depend arrays

---
 ipi/utils/depend.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ipi/utils/depend.py b/ipi/utils/depend.py
index bae8afe..5318008 100644
--- a/ipi/utils/depend.py
+++ b/ipi/utils/depend.py
@@ -379,10 +379,14 @@ class depend_array(depend_base):
 
     @property
     def T(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.T
 
     @property
     def flat(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.flat
 
     @property
@@ -395,10 +399,14 @@ class depend_array(depend_base):
 
     @property
     def real(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.real
 
     @property
     def imag(self):
+        if self._tainted[0]:
+            self._refresh()
         return self._value.imag
 
     # ------------------------------------------------------------------
@@ -414,6 +422,8 @@ class depend_array(depend_base):
             value = object.__getattribute__(self, "_value")
         except AttributeError:
             raise AttributeError(name)
+        if self._tainted[0]:
+            self._refresh()
         return getattr(value, name)
 
     # ------------------------------------------------------------------
@@ -441,6 +451,9 @@ class depend_array(depend_base):
         Accepts both `da.reshape((2, 3))` and `da.reshape(2, 3)`, matching
         numpy's signature.
         """
+        # a view of a stale array would share (and clear) its tainted flag
+        if self._tainted[0]:
+            self._refresh()
         if len(shape) == 1:
             shape = shape[0]
         return depend_array(
@@ -485,6 +498,9 @@ class depend_array(depend_base):
         )
 
     def __setitem__(self, index, value):
+        # a partial write must not mark as current the elements it does not set
+        if self._tainted[0]:
+            self._refresh()
         with self._threadlock:
             self._value[index] = value
             # Skip update_man() on plain leaf-storage arrays (no synchro,
@@ -501,6 +517,9 @@ class depend_array(depend_base):
         Do NOT replace `self._value` with a new ndarray — that would
         silently desync any existing slice's `_value` from the parent's.
         """
+        # setting a view is a partial write to its parent, see __setitem__
+        if self._parent is not None and self._tainted[0]:
+            self._refresh()
         with self._threadlock:
             self._value[...] = value
             if manual and (self._synchro is not None or self._func is not None):
-- 
2.43.0


From 0afa6111e326c572aa33f7248872e37503e96caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:39 +0000
Subject: [PATCH 04/91] fix: expansion of open paths overwrote all atoms with
 the open-path transformation

---
 ipi/utils/nmtransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index f826a87..91324d8 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -323,8 +323,8 @@ class nm_rescale(object):
                         q_scal[:, 3 * io + 2] = np.tensordot(
                             self._o_b2tob1, q[:, 3 * io + 2], axes=(1, 0)
                         )
-                    else:
-                        q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
+                else:
+                    q_scal = np.tensordot(self._o_b2tob1, q, axes=(1, 0))
         return q_scal
 
 
-- 
2.43.0


From 6f20003b3bda211a54a4eaab5a2f0d4a38d72549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 05/91] fix: open-path contraction keeps the lowest-frequency
 normal modes

---
 ipi/utils/nmtransform.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/ipi/utils/nmtransform.py b/ipi/utils/nmtransform.py
index 91324d8..2fa9ee6 100644
--- a/ipi/utils/nmtransform.py
+++ b/ipi/utils/nmtransform.py
@@ -121,17 +121,11 @@ def mk_o_rs_matrix(nb1, nb2):
         b1_nm = mk_o_nm_matrix(nb1)
         nm_b2 = mk_o_nm_matrix(nb2).T
 
-        # builds the "reduction" matrix that picks the normal modes we want to keep
+        # builds the "reduction" matrix that picks the normal modes we want to keep:
+        # open-path modes are sorted by frequency and not degenerate
         b1_b2 = np.zeros((nb2, nb1), float)
-        b1_b2[0, 0] = 1.0
-        for i in range(1, nb2 // 2 + 1):
+        for i in range(nb2):
             b1_b2[i, i] = 1.0
-            b1_b2[nb2 - i, nb1 - i] = 1.0
-        if nb2 % 2 == 0:
-            # if we are contracting down to an even number of beads, then we have to
-            # pick just one of the last degenerate modes to match onto the single
-            # stiffest mode in the new path
-            b1_b2[nb2 // 2, nb1 - nb2 // 2] = 0.0
 
         rs_b1_b2 = np.dot(nm_b2, np.dot(b1_b2, b1_nm))
         return rs_b1_b2 * np.sqrt(float(nb2) / float(nb1))
-- 
2.43.0


From 76bb33bc07a73f3a60d6bb51ee45ea04068ccc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 06/91] fix: kinetic energy and stress of open paths use their
 own dynamical masses

---
 ipi/engine/normalmodes.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index e3c6afd..2a4d892 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -298,7 +298,7 @@ class NormalModes:
             name="dynm3",
             value=np.zeros((self.nbeads, 3 * self.natoms), float),
             func=self.get_dynm3,
-            dependencies=[self._nm_factor, self.beads._m3],
+            dependencies=[self._nm_factor, self._o_nm_factor, self.beads._m3],
         )
         self._dynomegak = depend_array(
             name="dynomegak",
@@ -355,7 +355,7 @@ class NormalModes:
             name="kins",
             value=np.zeros(self.nbeads, float),
             func=self.get_kins,
-            dependencies=[self._pnm, self.beads._sm3, self._nm_factor],
+            dependencies=[self._pnm, self._dynm3],
         )
         self._kin = depend_value(
             name="kin", func=self.get_kin, dependencies=[self._kins]
@@ -364,7 +364,7 @@ class NormalModes:
             name="kstress",
             value=np.zeros((3, 3), float),
             func=self.get_kstress,
-            dependencies=[self._pnm, self.beads._sm3, self._nm_factor],
+            dependencies=[self._pnm, self._dynm3],
         )
 
         self._vspring_and_fspring = depend_value(
@@ -925,10 +925,7 @@ class NormalModes:
 
         """
         # include the partially adiabatic CMD mass scaling
-        pnm = dstrip(self.pnm) / dstrip(self.beads.sm3)
-        kmd = 0.5 * (pnm**2).sum(axis=1) / dstrip(self.nm_factor)
-
-        return kmd
+        return 0.5 * (dstrip(self.pnm) ** 2 / dstrip(self.dynm3)).sum(axis=1)
 
     def get_kin(self):
         """Gets the total MD kinetic energy.
@@ -953,9 +950,7 @@ class NormalModes:
         """
 
         # computes mass and nm_scaling-scaled momenta
-        spnm = (dstrip(self.pnm) / np.sqrt(dstrip(self.nm_factor)[:, None])) / dstrip(
-            self.beads.sm3
-        )
+        spnm = dstrip(self.pnm) / np.sqrt(dstrip(self.dynm3))
         spnm = spnm.reshape(-1, 3)  # reshape for quick outer product
         return spnm.T @ spnm
 
-- 
2.43.0


From 7ff609424c8c125e5c61f6e50bdabdeb0d04594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 07/91] fix: dynamical masses follow a change of temperature

---
 ipi/engine/normalmodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index 2a4d892..4b2e518 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -285,14 +285,14 @@ class NormalModes:
             name="nm_factor",
             value=np.zeros(self.nbeads, float),
             func=self.get_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._omegak],
         )
         # add o_nm_factor for the dynamical mass in the case of open paths
         self._o_nm_factor = depend_array(
             name="nmm",
             value=np.zeros(self.nbeads, float),
             func=self.get_o_nmm,
-            dependencies=[self._nm_freqs, self._mode],
+            dependencies=[self._nm_freqs, self._mode, self._o_omegak],
         )
         self._dynm3 = depend_array(
             name="dynm3",
-- 
2.43.0


From 9c71ff619f7adcf6132e7c37d3a03ae65c26bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:02 +0000
Subject: [PATCH 08/91] fix: Cayley propagator evolves scaled-mass normal modes
 at their dynamical frequency

---
 ipi/engine/normalmodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ipi/engine/normalmodes.py b/ipi/engine/normalmodes.py
index 4b2e518..08dbc4b 100644
--- a/ipi/engine/normalmodes.py
+++ b/ipi/engine/normalmodes.py
@@ -502,11 +502,11 @@ class NormalModes:
         if self.propagator == "cayley":
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.nm_factor[b])
-                square = (self.omegak[b] * dt / 2) ** 2
+                square = (self.omegak[b] * dt / sk / 2) ** 2
                 pqk[b, 0, 0] = (1 - square) / (1 + square)
                 pqk[b, 1, 1] = (1 - square) / (1 + square)
-                pqk[b, 0, 1] = -(4 * square / dt * sk) / (1 + square)
-                pqk[b, 1, 0] = dt / sk / (1 + square)
+                pqk[b, 0, 1] = -(4 * square / dt * sk**2) / (1 + square)
+                pqk[b, 1, 0] = dt / sk**2 / (1 + square)
         else:  # exact propagator
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.nm_factor[b])
@@ -552,11 +552,11 @@ class NormalModes:
         if self.propagator == "cayley":
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.o_nm_factor[b])
-                square = (self.o_omegak[b] * dt / 2) ** 2
+                square = (self.o_omegak[b] * dt / sk / 2) ** 2
                 pqk[b, 0, 0] = (1 - square) / (1 + square)
                 pqk[b, 1, 1] = (1 - square) / (1 + square)
-                pqk[b, 0, 1] = -(4 * square / dt * sk) / (1 + square)
-                pqk[b, 1, 0] = dt / sk / (1 + square)
+                pqk[b, 0, 1] = -(4 * square / dt * sk**2) / (1 + square)
+                pqk[b, 1, 0] = dt / sk**2 / (1 + square)
         else:  # exact propagator
             for b in range(1, self.nbeads):
                 sk = np.sqrt(self.o_nm_factor[b])
-- 
2.43.0


From 337ea5dd6ba2aa78b0d09f326d5d4aad45b2a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:04 +0000
Subject: [PATCH 09/91] fix: Hamiltonian weights of the ensemble contribute to
 the forces

---
 ipi/engine/ensembles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index 20f067e..d580056 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -205,7 +205,8 @@ class Ensemble:
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
-                len(self.bcomp) > 0 and np.mean((self.hweights - 1) ** 2) < 1e-20
+                len(self.bcomp) > 0
+                or np.max(np.abs(dstrip(self.hweights) - 1), initial=0.0) > 1e-10
             ),
             dependencies=[self._hweights],
         )
-- 
2.43.0


From e0add469c47b32404a28d991082ec97b2ed633a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:04 +0000
Subject: [PATCH 10/91] fix: a change of the Hamiltonian weights takes effect
 on the forces

---
 ipi/engine/ensembles.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipi/engine/ensembles.py b/ipi/engine/ensembles.py
index d580056..fa5c14f 100755
--- a/ipi/engine/ensembles.py
+++ b/ipi/engine/ensembles.py
@@ -133,7 +133,7 @@ class Ensemble:
         # weights of the Hamiltonian scaling
         if hweights is None:
             hweights = np.ones(0)
-        self.hweights = np.asarray(hweights)
+        self._hweights = depend_array(name="hweights", value=np.asarray(hweights))
 
         # Internal time counter
         self._time = depend_value(name="time", value=time)
@@ -199,9 +199,10 @@ class Ensemble:
 
         # add Hamiltonian REM bias components
         if len(self.hweights) == 0:
-            self.hweights = np.ones(len(self.forces.mforces))
+            self._hweights = depend_array(
+                name="hweights", value=np.ones(len(self.forces.mforces))
+            )
 
-        self._hweights = depend_array(name="hweights", value=np.asarray(self.hweights))
         self._has_bias = depend_value(
             name="has_bias",
             func=lambda: (
@@ -291,6 +292,7 @@ dproperties(
         "pext",
         "eens",
         "bweights",
+        "hweights",
         "time",
         "econs",
         "has_bias",
-- 
2.43.0


From a34ca0127eaccad7d9facb6a9cca31f84b27f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:04 +0000
Subject: [PATCH 11/91] fix: the position time step follows a change of time
 step, substeps or masses

---
 ipi/engine/motion/dynamics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index bc9b281..4db1cc9 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -308,7 +308,11 @@ class DummyIntegrator:
             self.activeatoms_mask = False
 
         # total number of iteration in the inner-most MTS loop
-        self._inmts = depend_value(name="inmts", func=lambda: np.prod(self.nmts))
+        self._inmts = depend_value(
+            name="inmts",
+            func=lambda: np.prod(self.nmts),
+            dependencies=[self._nmts],
+        )
         self._nmtslevels = depend_value(name="nmtslevels", func=lambda: len(self.nmts))
         # these are the time steps to be used for the different parts of the integrator
         self._qdt = depend_value(
@@ -320,6 +324,7 @@ class DummyIntegrator:
             name="qdt_on_m",
             value=np.zeros(3 * self.beads.natoms),
             func=lambda: self.qdt / dstrip(self.beads.m3)[0],
+            dependencies=[self._qdt, self.beads._m3],
         )
         self._pdt = depend_array(
             name="pdt",
-- 
2.43.0


From 71c167ccb1d528497e7b9900fc78e758ed660b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:41 +0000
Subject: [PATCH 12/91] fix: combining raw extras modified the extras of the
 first force component

---
 ipi/engine/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index ca356dc..41acdab 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1541,7 +1541,7 @@ class Forces:
                                 for ib in range(self.nbeads):
                                     re["raw"][ib] += v[ib]
                             else:
-                                re["raw"] = v
+                                re["raw"] = list(v)
                         else:
                             if e in re:
                                 warning(
-- 
2.43.0


From 4aee525d145dc0c7b8e4ebf85b014d3a3e56ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:41 +0000
Subject: [PATCH 13/91] fix: combined extras and added force components follow
 a change of component weight

---
 ipi/engine/forces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 41acdab..cfa5181 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -745,6 +745,8 @@ class Forces:
         self._pots.add_dependency(nforces._pots)
         self._virs.add_dependency(nforces._virs)
         self._extras.add_dependency(nforces._extras)
+        for dep in (self._f, self._pots, self._virs, self._extras):
+            dep.add_dependency(nforces._weight)
 
     def bind(self, beads, cell, fcomponents, fflist, open_paths, output_maker):
         """Binds beads, cell and forces to the forcefield.
@@ -995,6 +997,7 @@ class Forces:
             self._f.add_dependency(fc._weight)
             self._pots.add_dependency(fc._weight)
             self._virs.add_dependency(fc._weight)
+            self._extras.add_dependency(fc._weight)
 
     def clone(self, beads, cell):
         """Duplicates the force object, so that it can be used to compute forces
-- 
2.43.0


From 59137a9c44eb2b928d43fb0e28333f1410312a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:41 +0000
Subject: [PATCH 14/91] fix: total Suzuki-Chin virial could be stale

---
 ipi/engine/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index cfa5181..a33dcd3 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -986,7 +986,7 @@ class Forces:
 
         self._virsc = depend_value(
             name="virsc",
-            dependencies=[self._potssc],
+            dependencies=[self._virssc],
             func=(lambda: np.sum(self.virssc, axis=0)),
         )
 
-- 
2.43.0


From ce7ed39d6fdae20e4b95c8909f55af0d1ccb1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:41 +0000
Subject: [PATCH 15/91] fix: transferring forces handed over stale results of
 components that were not evaluated

---
 ipi/engine/forces.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index a33dcd3..7d7f7d1 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1048,7 +1048,12 @@ class Forces:
 
             bead_forces = []
             for b in range(mself.nbeads):
-                bead_forces.append(deepcopy(mself._forces[b]._ufvx._value))
+                # results that have not been computed (e.g. because the component
+                # has zero weight) must not be passed on
+                if mself._forces[b]._ufvx.tainted():
+                    bead_forces.append(None)
+                else:
+                    bead_forces.append(deepcopy(mself._forces[b]._ufvx._value))
             force_data.append(
                 (
                     # will also need bead positions, see _load_state
@@ -1093,6 +1098,9 @@ class Forces:
                 )
 
             for b in range(mself.nbeads):
+                if fb[b] is None:
+                    mself._forces[b]._ufvx.taint()
+                    continue
                 mself._forces[b]._ufvx.set(fb[b], manual=False)
                 mself._forces[b]._ufvx.taint(taintme=False)
 
-- 
2.43.0


From 4007695f49301a5b8d4b4638b85d970a4b723357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:28 +0000
Subject: [PATCH 16/91] fix: fourth-order forces follow a change of the
 Suzuki-Chin parameter

---
 ipi/engine/forces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 7d7f7d1..58286c6 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -922,7 +922,7 @@ class Forces:
         self._fvir_4th_order = depend_value(
             name="fvir_4th_order",
             value=[None, None],
-            dependencies=[self.beads._m, self._f, self._pots],
+            dependencies=[self.beads._m, self._f, self._pots, self._alpha],
             func=self.fvir_4th_order_combine,
         )
 
-- 
2.43.0


From d93267a79bd9d50fbeb8421bb7aaf35bfe24bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:25 +0000
Subject: [PATCH 17/91] fix: off-diagonal internal stress driving flexible
 cells

The kinetic part was missing and the centroid virial part was transposed, so
that anisotropic and flexible barostats did not conserve their energy
---
 ipi/engine/barostats.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 328db00..93b14cf 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -310,11 +310,9 @@ class Barostat:
         qqc = (dstrip(beads.q) - dstrip(beads.qc)).reshape(-1, 3)
         fall = fall.reshape(-1, 3)
 
-        kst = -noddot(qqc.T, fall)
-        # kst = np.zeros((3,3))
-        # kst[0] = -noddot(qqc[:,0], fall)
-        # kst[1,1:] = -noddot(qqc[:,1], fall[:,1:])
-        # kst[2,2] = -noddot(qqc[:,2], fall[:,2])
+        # NB: the cell strain acts as q_i += eps_ij q_j, so the force conjugate
+        # to eps_ij is f_i q_j
+        kst = -noddot(fall.T, qqc)
 
         if level == self.nmtslevels - 1:
             pc = dstrip(beads.pc).reshape(-1, 3)
@@ -1092,11 +1090,19 @@ class BaroRGB(Barostat):
             )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
+            fp = np.dot(fcTonm, pc)
             self.p += (
-                np.triu(dt2 * np.dot(fcTonm, pc) + dt3 * np.dot(fcTonm, fc))
+                np.triu(dt2 * 0.5 * (fp + fp.T) + dt3 * np.dot(fcTonm, fc))
                 * self.beads.nbeads
             )
 
+            # off-diagonal part of the kinetic stress, that acts on the free
+            # components of the cell (the diagonal is included in stress_mts)
+            pcTonm = (pc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
+            self.p += (
+                dt * np.triu(np.dot(pcTonm, pc), 1) * self.hmask * self.beads.nbeads
+            )
+
         # now apply the mask (and accumulate the associated change in conserved quantity)
         # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
         self.thermostat.ethermo += self.kin
@@ -1378,11 +1384,19 @@ class BaroMTK(Barostat):
             )
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
+            fp = np.dot(fcTonm, pc)
             self.p += (
-                np.triu(dt2 * np.dot(fcTonm, pc) + dt3 * np.dot(fcTonm, fc))
+                np.triu(dt2 * 0.5 * (fp + fp.T) + dt3 * np.dot(fcTonm, fc))
                 * self.beads.nbeads
             )
 
+            # off-diagonal part of the kinetic stress, that acts on the free
+            # components of the cell (the diagonal is included in stress_mts)
+            pcTonm = (pc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
+            self.p += (
+                dt * np.triu(np.dot(pcTonm, pc), 1) * self.hmask * self.beads.nbeads
+            )
+
         # now apply the mask (and accumulate the associated change in conserved quantity)
         # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
         self.thermostat.ethermo += self.kin
-- 
2.43.0


From 611d1b57eda117521ceec8b54e42dc33ed44c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:06 +0000
Subject: [PATCH 18/91] fix: cell Jacobian of flexible barostats counts only
 free cell components

it has to match the kT term of the cell force, or the conserved quantity drifts
---
 ipi/engine/barostats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 93b14cf..37460fb 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1053,7 +1053,7 @@ class BaroRGB(Barostat):
     def get_cell_jacobian(self):
         """Calculates the energy term that accounts for the size of the box."""
 
-        cj = np.sum([(3 - i) * np.log(self.cell.h[i][i]) for i in range(3)])
+        cj = np.sum([self.L[i, i] * np.log(self.cell.h[i][i]) for i in range(3)])
         return -1.0 * Constants.kb * self.temp * cj
 
     def get_ebaro(self):
@@ -1345,7 +1345,7 @@ class BaroMTK(Barostat):
     def get_cell_jacobian(self):
         """Calculates the energy term that accounts for the size of the box."""
 
-        cj = np.sum([(3 - i) * np.log(self.cell.h[i][i]) for i in range(3)])
+        cj = np.sum([self.L[i, i] * np.log(self.cell.h[i][i]) for i in range(3)])
         return -1.0 * Constants.kb * self.temp * cj
 
     def get_ebaro(self):
-- 
2.43.0


From e25c377cf296991e45d08750a81c527a3ac433da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:41 +0000
Subject: [PATCH 19/91] fix: centroid propagation in cells with constrained
 diagonal components

the eigendecomposition fails for a defective cell velocity matrix, and the series
used when all the diagonal elements vanish lacked the time step
---
 ipi/engine/barostats.py | 47 +++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 37460fb..604c8a7 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -20,11 +20,7 @@ import numpy as np
 
 from ipi.utils.depend import *
 from ipi.utils.units import *
-from ipi.utils.mathtools import (
-    matrix_exp,
-    sinch,
-    mat_taylor,
-)
+from ipi.utils.mathtools import matrix_exp
 from ipi.engine.thermostats import Thermostat
 from ipi.engine.cell import Cell
 
@@ -60,6 +56,20 @@ def mask_from_fix(fix):
     return hmask
 
 
+def cell_propagator(v, dt):
+    """Computes the matrices exp(v dt), sinh(v dt)/v and exp(-v dt) that propagate
+    the centroid for a (possibly defective or singular) cell velocity matrix"""
+
+    # these are the blocks of the exponential of a single matrix
+    vblock = np.zeros((6, 6), float)
+    vblock[:3, :3] = v
+    vblock[:3, 3:] = np.identity(3)
+    vblock[3:, 3:] = -v
+    prop = matrix_exp(vblock * dt)
+
+    return prop[:3, :3], prop[:3, 3:], prop[3:, 3:]
+
+
 class Barostat:
     """Base barostat class.
 
@@ -1116,19 +1126,7 @@ class BaroRGB(Barostat):
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
         # check eigen vector exists
-        if np.count_nonzero(v.diagonal()) == 0:
-            # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
-        else:
-            eigvals, eigvecs = np.linalg.eig(v)
-            ieigvecs = np.linalg.inv(eigvecs)
-            # v is real, so the matrix function is real; eig may return complex
-            # conjugate pairs, leaving only numerical-noise imaginary parts
-            sinh = halfdt * np.real(
-                np.dot(eigvecs, np.dot(np.diag(sinch(halfdt * eigvals)), ieigvecs))
-            )
-
-        expq, expp = (matrix_exp(v * halfdt), matrix_exp(-v * halfdt))
+        expq, sinh, expp = cell_propagator(v, halfdt)
         # oldsinh = np.dot(invert_ut3x3(v), (expq - expp) / (2.0))
 
         q = dstrip(self.nm.qnm)[0].copy().reshape((self.beads.natoms, 3))
@@ -1414,18 +1412,7 @@ class BaroMTK(Barostat):
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
         # check eigen vector exists
-        if np.count_nonzero(v.diagonal()) == 0:
-            # compute sinhv/v by directly taylor, if eigen vector not exists
-            sinh = mat_taylor(v * halfdt, function="sinhx/x")
-        else:
-            eigvals, eigvecs = np.linalg.eig(v)
-            ieigvecs = np.linalg.inv(eigvecs)
-            # v is real, so the matrix function is real; eig may return complex
-            # conjugate pairs, leaving only numerical-noise imaginary parts
-            sinh = halfdt * np.real(
-                np.dot(eigvecs, np.dot(np.diag(sinch(halfdt * eigvals)), ieigvecs))
-            )
-        expq, expp = (matrix_exp(v * halfdt), matrix_exp(-v * halfdt))
+        expq, sinh, expp = cell_propagator(v, halfdt)
 
         #        oldsinh = np.dot(invert_ut3x3(v), (expq - expp) / (2.0))
 
-- 
2.43.0


From c3ab9fbfb280665d9bc75564b8fb4ea77335a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:55 +0000
Subject: [PATCH 20/91] fix: cell constraints hold whenever the cell moves

Fixed cell components and the volume were only constrained when the forces act,
so they changed after the cell thermostat with the baoab splitting; fixing the
volume moved fixed diagonal components
---
 ipi/engine/barostats.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 604c8a7..6786288 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1114,6 +1114,12 @@ class BaroRGB(Barostat):
             )
 
         # now apply the mask (and accumulate the associated change in conserved quantity)
+        self.pconstraints()
+
+    def pconstraints(self):
+        """Removes the constrained components of the cell momentum, accumulating
+        the associated change in conserved quantity."""
+
         # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
         self.thermostat.ethermo += self.kin
         self.p *= self.hmask
@@ -1122,6 +1128,9 @@ class BaroRGB(Barostat):
     def qcstep(self):
         """Propagates the centroid position and momentum and the volume."""
 
+        # the cell thermostat might have acted since the constraints were applied
+        self.pconstraints()
+
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
@@ -1396,18 +1405,30 @@ class BaroMTK(Barostat):
             )
 
         # now apply the mask (and accumulate the associated change in conserved quantity)
+        self.pconstraints()
+
+    def pconstraints(self):
+        """Removes the constrained components of the cell momentum, accumulating
+        the associated change in conserved quantity."""
+
         # we use the thermostat conserved quantity accumulator, so we don't need to create a new one
         self.thermostat.ethermo += self.kin
         self.p *= self.hmask
-        if self.vol_constraint is True:
+        if self.vol_constraint is True and np.trace(self.hmask) > 0:
             # a traceless momentum tensor will not change the volume, see
             # Rogge, S. M. J. et al. Theory Comput. 11, 5583–5597 (2015) DOI: 10.1021/acs.jctc.5b00748
-            self.p -= np.eye(3) * np.trace(self.p) / 3.0
+            # the trace is removed without touching the fixed components
+            self.p -= (
+                np.diag(np.diag(self.hmask)) * np.trace(self.p) / np.trace(self.hmask)
+            )
         self.thermostat.ethermo -= self.kin
 
     def qcstep(self):
         """Propagates the centroid position and momentum and the volume."""
 
+        # the cell thermostat might have acted since the constraints were applied
+        self.pconstraints()
+
         v = self.p / self.m[0]
         halfdt = self.qdt
         # compute in one go dt sinh v/v to handle zero-velocity cases
-- 
2.43.0


From 57fd46f828d4a191b88dcf7268f53a7425918a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:12 +0000
Subject: [PATCH 21/91] fix: virial of the Suzuki-Chin square-force term

the displacement used in the finite difference does not scale with the cell, so
the derivative of the square forces with respect to the strain was incomplete and
constant-pressure simulations did not conserve energy
---
 ipi/engine/forces.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ipi/engine/forces.py b/ipi/engine/forces.py
index 58286c6..9ba5108 100644
--- a/ipi/engine/forces.py
+++ b/ipi/engine/forces.py
@@ -1493,6 +1493,13 @@ class Forces:
                 fv = self.forcesvirs_4th_order(k)
                 rf += self.mforces[k].weight * self.mforces[k].mts_weights.sum() * fv[0]
                 rv += self.mforces[k].weight * self.mforces[k].mts_weights.sum() * fv[1]
+
+        # the finite displacement is made along the force, and does not scale with
+        # the cell as the positions do: this must be added to the virial
+        f = dstrip(self.f).reshape(self.nbeads, -1, 3)
+        fonm = f / dstrip(self.beads.m).reshape(1, -1, 1)
+        rv += 2.0 * np.triu(np.einsum("bai,baj->bij", f, fonm))
+
         return [rf, rv]
 
     def pot_combine(self):
-- 
2.43.0


From b9a47aee81afa21b5c4117af9bb47cdde5a6d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:40 +0000
Subject: [PATCH 22/91] fix: bias forces act on the centroid in the barostat
 coupling terms

with a bias (and a single MTS level) constant-pressure steps were not time reversible
---
 ipi/engine/barostats.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 6786288..24c08fb 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -387,6 +387,16 @@ class Barostat:
             + bvir
         ) / self.cell.V
 
+    def fc_mts(self, level, coeff=1.0):
+        """Calculates the force acting on the centroid at a MTS level (the forces
+        are scaled by coeff, the bias is not)."""
+
+        fc = np.sum(np.asarray(dstrip(self.forces.mts_forces[level].f) * coeff), axis=0)
+        if level == 0 and self.bias is not None:
+            fc = fc + np.sum(dstrip(self.bias.f), axis=0)
+
+        return fc / self.beads.nbeads
+
     def stress_mts(self, level):
         """Calculates the internal stress tensor
         associated with the forces at a MTS level.
@@ -604,7 +614,7 @@ class BaroBZP(Barostat):
             )
 
             pc = dstrip(self.beads.pc)
-            fc = np.sum(dstrip(self.forces.mts_forces[level].f), axis=0) / nbeads
+            fc = self.fc_mts(level)
             fc_m = fc / dstrip(self.beads.m3)[0]
 
             dt2 = dt * dt * self.beads.nbeads
@@ -812,14 +822,7 @@ class BaroSCBZP(Barostat):
                 )
             )
             pc = dstrip(self.beads.pc)
-            fc = (
-                np.sum(
-                    dstrip(self.forces.mts_forces[level].f)
-                    * (1 + self.forces.coeffsc_part_1),
-                    axis=0,
-                )
-                / self.beads.nbeads
-            )
+            fc = self.fc_mts(level, 1 + self.forces.coeffsc_part_1)
             m = dstrip(self.beads.m3)[0]
 
             self.p += (
@@ -1092,12 +1095,7 @@ class BaroRGB(Barostat):
             )
 
             pc = dstrip(self.beads.pc).reshape(self.beads.natoms, 3)
-            fc = (
-                np.sum(dstrip(self.forces.mts_forces[level].f), axis=0).reshape(
-                    self.beads.natoms, 3
-                )
-                / self.beads.nbeads
-            )
+            fc = self.fc_mts(level).reshape(self.beads.natoms, 3)
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
             fp = np.dot(fcTonm, pc)
@@ -1383,12 +1381,7 @@ class BaroMTK(Barostat):
             )
 
             pc = dstrip(self.beads.pc).reshape(self.beads.natoms, 3)
-            fc = (
-                np.sum(dstrip(self.forces.mts_forces[level].f), axis=0).reshape(
-                    self.beads.natoms, 3
-                )
-                / self.beads.nbeads
-            )
+            fc = self.fc_mts(level).reshape(self.beads.natoms, 3)
             fcTonm = (fc / dstrip(self.beads.m3)[0].reshape(self.beads.natoms, 3)).T
 
             fp = np.dot(fcTonm, pc)
-- 
2.43.0


From 72176449075da9cca9cf540cddc57090fd7a006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 23/91] fix: keep the contribution of fixed cell components to
 the cell Jacobian

the number of free components only matters for the rows of the cell that move
---
 ipi/engine/barostats.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 24c08fb..603bb47 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -1066,7 +1066,10 @@ class BaroRGB(Barostat):
     def get_cell_jacobian(self):
         """Calculates the energy term that accounts for the size of the box."""
 
-        cj = np.sum([self.L[i, i] * np.log(self.cell.h[i][i]) for i in range(3)])
+        # each row counts its free components (a fixed diagonal element just
+        # contributes a constant)
+        nfree = np.where(np.diag(self.hmask) == 0, [3, 2, 1], np.diag(self.L))
+        cj = np.sum([nfree[i] * np.log(self.cell.h[i][i]) for i in range(3)])
         return -1.0 * Constants.kb * self.temp * cj
 
     def get_ebaro(self):
@@ -1350,7 +1353,10 @@ class BaroMTK(Barostat):
     def get_cell_jacobian(self):
         """Calculates the energy term that accounts for the size of the box."""
 
-        cj = np.sum([self.L[i, i] * np.log(self.cell.h[i][i]) for i in range(3)])
+        # each row counts its free components (a fixed diagonal element just
+        # contributes a constant)
+        nfree = np.where(np.diag(self.hmask) == 0, [3, 2, 1], np.diag(self.L))
+        cj = np.sum([nfree[i] * np.log(self.cell.h[i][i]) for i in range(3)])
         return -1.0 * Constants.kb * self.temp * cj
 
     def get_ebaro(self):
-- 
2.43.0


From 1b7466959e9eeb973ba2f20412794cb38637ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 24/91] fix: Suzuki-Chin steps with the baoab splitting end
 with constrained momenta

the last kick of the step gave momentum to fixed atoms and to a fixed centre of mass
---
 ipi/engine/motion/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 4db1cc9..8df8c51 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -759,6 +759,7 @@ class SCIntegrator(NVTIntegrator):
             self.pconstraints()
             self.mtsprop_ab(0)
             self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pconstraints()
 
 
 class SCNPTIntegrator(SCIntegrator):
@@ -832,3 +833,4 @@ class SCNPTIntegrator(SCIntegrator):
             self.mtsprop_ab(0)
             self.barostat.pscstep()
             self.beads.p += dstrip(self.forces.fsc_part_2) * self.dt * 0.5
+            self.pconstraints()
-- 
2.43.0


From da505cf367dc9c18eef5cdd2aa50c60f49e32ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:48 +0000
Subject: [PATCH 25/91] fix: fixed atoms do not move with the ring-polymer
 propagator

with more than one bead the springs kept moving the beads of fixed atoms
---
 ipi/engine/motion/dynamics.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/ipi/engine/motion/dynamics.py b/ipi/engine/motion/dynamics.py
index 8df8c51..ffb6a0c 100644
--- a/ipi/engine/motion/dynamics.py
+++ b/ipi/engine/motion/dynamics.py
@@ -448,6 +448,18 @@ class NVEIntegrator(DummyIntegrator):
         # dt/inmts
         self.nm.qnm[0, :] += dstrip(self.nm.pnm)[0, :] * dstrip(self.qdt_on_m)
 
+    def free_qstep(self):
+        """Free ring-polymer propagator, that does not move fixed atoms."""
+
+        if len(self.fixatoms_dof) > 0:
+            q = dstrip(self.beads.q)[:, self.fixatoms_dof].copy()
+            p = dstrip(self.beads.p)[:, self.fixatoms_dof].copy()
+            self.nm.free_qstep()
+            self.beads.q[:, self.fixatoms_dof] = q
+            self.beads.p[:, self.fixatoms_dof] = p
+        else:
+            self.nm.free_qstep()
+
     # now the idea is that for BAOAB the MTS should work as follows:
     # take the BAB MTS, and insert the O in the very middle. This might imply breaking a A step in two, e.g. one could have
     # Bbabb(a/2) O (a/2)bbabB
@@ -462,9 +474,9 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
 
             else:
                 self.mtsprop(index + 1)
@@ -479,7 +491,7 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop_ba(index + 1)
 
@@ -490,7 +502,7 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop_ab(index + 1)
 
@@ -504,9 +516,9 @@ class NVEIntegrator(DummyIntegrator):
             if index == self.nmtslevels - 1:
                 # call Q propagation for dt/alpha at the inner step
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
                 self.qcstep()
-                self.nm.free_qstep()
+                self.free_qstep()
             else:
                 self.mtsprop(index + 1)
 
@@ -600,8 +612,8 @@ class NVTCCIntegrator(NVTIntegrator):
 
         # The centroid is constrained, so qcstep is skipped, but the internal
         # ring-polymer modes still need the two half-step free propagations.
-        self.nm.free_qstep()
-        self.nm.free_qstep()
+        self.free_qstep()
+        self.free_qstep()
 
         self.pstep()
         self.nm.pnm[0, :] = 0.0
-- 
2.43.0


From f29c13201fc37f3f82c82504b1288ae1b684354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:34 +0000
Subject: [PATCH 26/91] fix: logsumlog of terms with different signs, or both
 negative

---
 ipi/utils/mathtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/mathtools.py b/ipi/utils/mathtools.py
index b21f289..6a6117e 100644
--- a/ipi/utils/mathtools.py
+++ b/ipi/utils/mathtools.py
@@ -48,10 +48,10 @@ def logsumlog(lasa, lbsb):
 
     if la > lb:
         sr = sa
-        lr = la + np.log(1.0 + sb * np.exp(lb - la))
+        lr = la + np.log(1.0 + sa * sb * np.exp(lb - la))
     else:
         sr = sb
-        lr = lb + np.log(1.0 + sa * np.exp(la - lb))
+        lr = lb + np.log(1.0 + sa * sb * np.exp(la - lb))
 
     return (lr, sr)
 
-- 
2.43.0


From 0981ae0ebffe243d8e4914685181f80d0abbe44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:36 +0000
Subject: [PATCH 27/91] fix: read the coordinate columns of PDB files where the
 format puts them

read_pdb started one column too late, so that the sign of values below -100
was dropped and wide neighbouring numbers could not be parsed.
---
 ipi/utils/io/backends/io_pdb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 45c0077..57ff1cd 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -182,9 +182,9 @@ def read_pdb(filedesc):
         name = body[12:16].strip()
         names.append(name)
         masses.append(Elements.mass(name))
-        x = float(body[31:39])
-        y = float(body[39:47])
-        z = float(body[47:55])
+        x = float(body[30:38])
+        y = float(body[38:46])
+        z = float(body[46:54])
         qatoms.append(x)
         qatoms.append(y)
         qatoms.append(z)
-- 
2.43.0


From 808e436fc6166a109ef385a02acfbee2430ef2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:36 +0000
Subject: [PATCH 28/91] fix: report xyz frames with missing atom records

The number of records read was never compared with the header, so a
truncated frame was returned with zeros in place of the missing atoms.
---
 ipi/utils/io/backends/io_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/io/backends/io_xyz.py b/ipi/utils/io/backends/io_xyz.py
index ffd2c60..4f85f9b 100644
--- a/ipi/utils/io/backends/io_xyz.py
+++ b/ipi/utils/io/backends/io_xyz.py
@@ -150,7 +150,7 @@ def read_xyz(filedesc):
         if atom_counter == natoms:
             break
 
-    if natoms != len(names):
+    if natoms != atom_counter:
         raise ValueError(
             "The number of atom records does not match the header of the xyz file."
         )
-- 
2.43.0


From c24d5c5dbe83f1badd6b23a9891d3c6a7102bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:56 +0000
Subject: [PATCH 29/91] fix: record the units when printing all beads to a
 trajectory file

print_file_path converted the units but dropped the comment that declares
them, and print_file_path_raw failed because the printers took no title.
The PDB printer also used columns of its own for the coordinates.
---
 ipi/utils/io/__init__.py        |  1 +
 ipi/utils/io/backends/io_pdb.py | 10 ++++++++--
 ipi/utils/io/backends/io_xyz.py | 10 +++++++---
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/ipi/utils/io/__init__.py b/ipi/utils/io/__init__.py
index b6efb56..4dcbc1f 100644
--- a/ipi/utils/io/__init__.py
+++ b/ipi/utils/io/__init__.py
@@ -177,6 +177,7 @@ def print_file_path(
         beads=beads,
         cell=cell,
         filedesc=filedesc,
+        title=title,
         cell_conv=cell_conv,
         atoms_conv=atoms_conv,
     )
diff --git a/ipi/utils/io/backends/io_pdb.py b/ipi/utils/io/backends/io_pdb.py
index 57ff1cd..3c0b8c7 100644
--- a/ipi/utils/io/backends/io_pdb.py
+++ b/ipi/utils/io/backends/io_pdb.py
@@ -19,7 +19,9 @@ from ipi.utils.units import Elements
 __all__ = ["print_pdb_path", "print_pdb", "read_pdb"]
 
 
-def print_pdb_path(beads, cell, filedesc=sys.stdout, cell_conv=1.0, atoms_conv=1.0):
+def print_pdb_path(
+    beads, cell, filedesc=sys.stdout, title="", cell_conv=1.0, atoms_conv=1.0
+):
     """Prints all the bead configurations, into a pdb formatted file.
 
     Prints the ring polymer springs as well as the bead positions using the
@@ -30,14 +32,18 @@ def print_pdb_path(beads, cell, filedesc=sys.stdout, cell_conv=1.0, atoms_conv=1
         beads: A beads object giving the bead positions.
         cell: A cell object giving the system box.
         filedesc: An open writable file object. Defaults to standard output.
+        title: An optional string of max. 70 characters.
     """
 
     fmt_cryst = "CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f%s%4i\n"
     fmt_atom = (
-        "ATOM  %5i %4s%1s%3s %1s%4i%1s  %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n"
+        "ATOM  %5i %4s%1s%3s %1s%4i%1s   %8.3f%8.3f%8.3f%6.2f%6.2f          %2s%2i\n"
     )
     fmt_conect = "CONECT%5i%5i\n"
 
+    if title != "":
+        filedesc.write("TITLE   %70s\n" % (title))
+
     a, b, c, alpha, beta, gamma = mt.h2abc_deg(cell.h * cell_conv)
 
     z = 1  # What even is this parameter?
diff --git a/ipi/utils/io/backends/io_xyz.py b/ipi/utils/io/backends/io_xyz.py
index 4f85f9b..c053dc7 100644
--- a/ipi/utils/io/backends/io_xyz.py
+++ b/ipi/utils/io/backends/io_xyz.py
@@ -21,7 +21,9 @@ __all__ = ["print_xyz_path", "print_xyz", "read_xyz"]
 deg2rad = np.pi / 180.0
 
 
-def print_xyz_path(beads, cell, filedesc=sys.stdout, cell_conv=1.0, atoms_conv=1.0):
+def print_xyz_path(
+    beads, cell, filedesc=sys.stdout, title="", cell_conv=1.0, atoms_conv=1.0
+):
     """Prints all the bead configurations into a XYZ formatted file.
 
     Prints all the replicas for each time step separately, rather than all at
@@ -31,17 +33,19 @@ def print_xyz_path(beads, cell, filedesc=sys.stdout, cell_conv=1.0, atoms_conv=1
         beads: A beads object giving the bead positions.
         cell: A cell object giving the system box.
         filedesc: An open writable file object. Defaults to standard output.
+        title: This gives a string to be appended to the comment line.
     """
 
     a, b, c, alpha, beta, gamma = mt.h2abc_deg(cell.h * cell_conv)
 
     fmt_header = (
-        "%d\n# bead: %d CELL(abcABC): %10.5f  %10.5f  %10.5f  %10.5f  %10.5f  %10.5f \n"
+        "%d\n# bead: %d CELL(abcABC): "
+        "%10.5f  %10.5f  %10.5f  %10.5f  %10.5f  %10.5f %s\n"
     )
     natoms = beads.natoms
     nbeads = beads.nbeads
     for j in range(nbeads):
-        filedesc.write(fmt_header % (natoms, j, a, b, c, alpha, beta, gamma))
+        filedesc.write(fmt_header % (natoms, j, a, b, c, alpha, beta, gamma, title))
         for i in range(natoms):
             qs = dstrip(beads.q) * atoms_conv
             lab = dstrip(beads.names)
-- 
2.43.0


From 89dfb65ef44263e521c725472e8bf6a1b025e1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:56 +0000
Subject: [PATCH 30/91] fix: assign the masses of atoms read from json and
 binary files

As for the other formats, they follow from the labels; they were left zero.
---
 ipi/utils/io/backends/io_binary.py | 4 +++-
 ipi/utils/io/backends/io_json.py   | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipi/utils/io/backends/io_binary.py b/ipi/utils/io/backends/io_binary.py
index 51b3e00..b74b5c9 100644
--- a/ipi/utils/io/backends/io_binary.py
+++ b/ipi/utils/io/backends/io_binary.py
@@ -10,6 +10,8 @@
 import sys
 import numpy as np
 
+from ipi.utils.units import Elements
+
 __all__ = ["print_binary", "read_binary"]
 
 
@@ -51,7 +53,7 @@ def read_binary(filedesc):
         names = np.fromfile(filedesc, dtype="|U1", count=nat)
         names = "".join(names)
         names = names.split("|")
-        masses = np.zeros(len(names))
+        masses = np.asarray([Elements.mass(name) for name in names])
         title = "".join(np.fromfile(filedesc, dtype="|U1", count=-1))
     except (StopIteration, ValueError):
         raise EOFError
diff --git a/ipi/utils/io/backends/io_json.py b/ipi/utils/io/backends/io_json.py
index 29786a5..719c1ad 100644
--- a/ipi/utils/io/backends/io_json.py
+++ b/ipi/utils/io/backends/io_json.py
@@ -14,6 +14,7 @@ import numpy as np
 
 import ipi.utils.mathtools as mt
 from ipi.utils.depend import dstrip
+from ipi.utils.units import Elements
 
 __all__ = ["print_json_path", "print_json", "read_json", "iter_json"]
 
@@ -81,9 +82,9 @@ def read_json(filedesc):
 
     line.strip("\n")
     qatoms = np.asarray(data["q"], dtype=float)
-    names = np.asarray(data["labels"], dtype="|S4")
+    names = np.asarray(data["labels"], dtype="|U4")
     title = data["title"]
-    masses = np.zeros(len(names))
+    masses = np.asarray([Elements.mass(name) for name in names])
 
     a, b, c, alpha, beta, gamma = data["cell"]
     alpha *= np.pi / 180.0
-- 
2.43.0


From 961616167b8ebb4f07e3167351a19f66b5949502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:56 +0000
Subject: [PATCH 31/91] fix: back up existing output files that lie in another
 folder

The backup name was made by prepending to the whole path, so that opening
an existing file in a subfolder failed.
---
 ipi/utils/io/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/utils/io/__init__.py b/ipi/utils/io/__init__.py
index 4dcbc1f..8bd6fa2 100644
--- a/ipi/utils/io/__init__.py
+++ b/ipi/utils/io/__init__.py
@@ -450,8 +450,9 @@ def open_backup(filename, mode="r", buffering=-1):
 
         i = 0
         fn_backup = filename
+        folder, basename = os.path.split(filename)
         while os.path.isfile(fn_backup):
-            fn_backup = "#" + filename + "#%i#" % i
+            fn_backup = os.path.join(folder, "#" + basename + "#%i#" % i)
             i += 1
 
         if fn_backup != filename:
-- 
2.43.0


From 69e73774682a057c782bcd7c2c2807d4fd2d68c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:56 +0000
Subject: [PATCH 32/91] fix: recognise the units of trajectories with compound
 names

Trajectories written in units such as m/s, ev/ang or cal/mol were read back
as if they were in atomic units, as the comment line was not matched.
---
 ipi/utils/io/io_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/utils/io/io_units.py b/ipi/utils/io/io_units.py
index aece708..0e62b97 100755
--- a/ipi/utils/io/io_units.py
+++ b/ipi/utils/io/io_units.py
@@ -14,10 +14,10 @@ from ipi.engine.properties import Trajectories as Traj
 
 __all__ = ["auto_units", "process_units"]
 # Regular expressions initialization for read_xyz function
-cell_unit_re = re.compile(r"cell\{([A-Za-z_]*)\}")  # cell unit pattern
+cell_unit_re = re.compile(r"cell\{([^{}]*)\}")  # cell unit pattern
 traj_dict = Traj().traj_dict  # trajectory dictionary
 traj_re = [
-    re.compile("%s%s" % (key, r"\{[A-Za-z_]*\}")) for key in list(traj_dict.keys())
+    re.compile("%s%s" % (key, r"\{[^{}]*\}")) for key in list(traj_dict.keys())
 ]  # trajectory patterns
 
 
-- 
2.43.0


From 4dc6b232fa1bce2d47604a60598cc17137ab6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 33/91] fix: forget earlier units when a value in internal
 units is stored

Storing into an input object that had been read (or stored) with other units
kept those units, so the value was converted again when fetched or written.
---
 ipi/utils/inputvalue.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/utils/inputvalue.py b/ipi/utils/inputvalue.py
index 76c37e5..98b74dd 100644
--- a/ipi/utils/inputvalue.py
+++ b/ipi/utils/inputvalue.py
@@ -1109,6 +1109,10 @@ class InputValue(InputAttribute):
             self.units.store(
                 units
             )  # User can define in the code the units to be printed
+        elif "units" in self.attribs:
+            # the value is stored in internal units, so that any units set
+            # previously do not apply to it
+            self.units.set_default()
 
         if self._dimension != "undefined":
             self.value = value * unit_to_user(self._dimension, units, 1.0)
-- 
2.43.0


From a36daf6a050e279a0a675cb02bf8ff3f8941ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:37 +0000
Subject: [PATCH 34/91] fix: keep the line search options of BFGS optimizers in
 restart files

---
 ipi/inputs/motion/geop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/inputs/motion/geop.py b/ipi/inputs/motion/geop.py
index 75e7de9..7842059 100644
--- a/ipi/inputs/motion/geop.py
+++ b/ipi/inputs/motion/geop.py
@@ -212,6 +212,7 @@ class InputGeop(InputDictionary):
             self.old_direction.store(geop.d)
             self.invhessian_bfgs.store(geop.invhessian)
             self.biggest_step.store(geop.big_step)
+            self.ls_options.store(geop.ls_options)
         elif geop.mode == "bfgstrm":
             self.hessian_trm.store(geop.hessian)
             self.tr_trm.store(geop.tr)
@@ -223,6 +224,7 @@ class InputGeop(InputDictionary):
             self.corrections_lbfgs.store(geop.corrections)
             self.scale_lbfgs.store(geop.scale)
             self.biggest_step.store(geop.big_step)
+            self.ls_options.store(geop.ls_options)
         elif geop.mode == "sd":
             self.ls_options.store(geop.ls_options)
         elif geop.mode == "cg":
-- 
2.43.0


From dbd04ff4272905294a46be232c29238b04818397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:31 +0000
Subject: [PATCH 35/91] fix: write ffdirect committee members in restart files

---
 ipi/inputs/forcefields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/inputs/forcefields.py b/ipi/inputs/forcefields.py
index a285c3f..7c70b49 100644
--- a/ipi/inputs/forcefields.py
+++ b/ipi/inputs/forcefields.py
@@ -1019,6 +1019,10 @@ class InputFFCommittee(InputForceField):
                     _iobj = InputFFSocket()
                     _iobj.store(_obj)
                     self.extra[_ii] = ("ffsocket", _iobj)
+                elif isinstance(_obj, FFDirect):
+                    _iobj = InputFFDirect()
+                    _iobj.store(_obj)
+                    self.extra[_ii] = ("ffdirect", _iobj)
                 elif isinstance(_obj, FFLennardJones):
                     _iobj = InputFFLennardJones()
                     _iobj.store(_obj)
-- 
2.43.0


From 7ba29d4c214affa717e2ccb1ff198c3290627357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:03 +0000
Subject: [PATCH 36/91] fix: write valid restart files when the FFT options are
 set

---
 ipi/inputs/normalmodes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ipi/inputs/normalmodes.py b/ipi/inputs/normalmodes.py
index 4742540..e1fd6a3 100644
--- a/ipi/inputs/normalmodes.py
+++ b/ipi/inputs/normalmodes.py
@@ -159,21 +159,19 @@ class InputNormalModes(Input):
             },
         ),
         "fft_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
                 "help": "The number of threads to be used for the FFT.",
-                "dimension": None,
             },
         ),
         "fft_float32": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": bool,
                 "default": False,
                 "help": "Whether to use single precision FFT.",
-                "dimension": None,
             },
         ),
     }
-- 
2.43.0


From d74458a63e0a21c5f18ac86f9f10d1a78f3208f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:33 +0000
Subject: [PATCH 37/91] fix: write valid restart files with a threaded random
 number generator

---
 ipi/inputs/prng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/inputs/prng.py b/ipi/inputs/prng.py
index 5a66027..54d42d2 100644
--- a/ipi/inputs/prng.py
+++ b/ipi/inputs/prng.py
@@ -34,7 +34,7 @@ class InputRandom(Input):
 
     attribs = {
         "n_threads": (
-            InputValue,
+            InputAttribute,
             {
                 "dtype": int,
                 "default": 1,
-- 
2.43.0


From 14202d022e5a61f89a59f59eae5ae4c8e3f4a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:33 +0000
Subject: [PATCH 38/91] fix: keep all the options of self-consistent phonons in
 restart files

---
 ipi/inputs/motion/scphonons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipi/inputs/motion/scphonons.py b/ipi/inputs/motion/scphonons.py
index 093093c..48d1c44 100644
--- a/ipi/inputs/motion/scphonons.py
+++ b/ipi/inputs/motion/scphonons.py
@@ -177,6 +177,9 @@ class InputSCPhonons(InputDictionary):
         self.max_steps.store(phonons.max_steps)
         self.max_iter.store(phonons.max_iter)
         self.tau.store(phonons.tau)
+        self.wthreshold.store(phonons.wthreshold)
+        self.precheck.store(phonons.precheck)
+        self.checkweights.store(phonons.checkweights)
         self.chop.store(phonons.chop)
         self.random_type.store(phonons.random_type)
         self.displace_mode.store(phonons.displace_mode)
-- 
2.43.0


From 4e5e40b742051f93487064098d4aa0bb8dc7e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:06 +0000
Subject: [PATCH 39/91] fix: Python driver copes with split messages and stops
 if i-PI goes away

---
 drivers/py/driver.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index dbb4ed5..1d6d437 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -20,7 +20,7 @@ def recv_data(sock, data):
     while bpos < blen:
         timeout = False
         try:
-            bpart = 1
+            bpart = 0
             bpart = sock.recv_into(buf[bpos:], blen - bpos)
         except socket.timeout:
             print(" @SOCKET:   Timeout in status recvall, trying again!")
@@ -41,12 +41,25 @@ def send_data(sock, data):
     if np.isscalar(data):
         data = np.array([data], data.dtype)
     buf = data.tobytes()
-    sock.send(buf)
+    sock.sendall(buf)
 
 
 HDRLEN = 12  # number of characters of the default message strings
 
 
+def recv_header(sock):
+    """Fetches the next message header, which can arrive in several pieces.
+    Returns an empty string if i-PI closed the connection."""
+
+    header = b""
+    while len(header) < HDRLEN:
+        part = sock.recv(HDRLEN - len(header))
+        if len(part) == 0:
+            return b""
+        header += part
+    return header
+
+
 def Message(mystr):
     """Returns a header of standard length HDRLEN."""
 
@@ -98,9 +111,11 @@ def run_driver(
     force = np.zeros(0, float)
     vir = np.zeros((3, 3), float)
     while True:  # ah the infinite loop!
-        header = sock.recv(HDRLEN)
+        header = recv_header(sock)
         if f_verbose:
             print("Received ", header)
+        if header == b"":
+            raise RuntimeError("Socket disconnected!")
         if header == Message("STATUS"):
             # responds to a status request
             if not f_init:
-- 
2.43.0


From 2b3d0c495be26f3abb9c3002a39c1481b184c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:06 +0000
Subject: [PATCH 40/91] fix: Python driver announces the length of the extra
 string in bytes

---
 drivers/py/driver.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/drivers/py/driver.py b/drivers/py/driver.py
index 1d6d437..4ff4a22 100755
--- a/drivers/py/driver.py
+++ b/drivers/py/driver.py
@@ -228,9 +228,9 @@ def run_driver(
                 shm_views["vir"][i] = np.asarray(res[2]).reshape(3, 3)
             sock.sendall(Message("FORCEREADY"))
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE") and batch_n > 1:
             sock.sendall(Message("FORCEREADY"))
@@ -250,9 +250,9 @@ def run_driver(
             )
             send_data(sock, virs)
             for res in results_batch:
-                extra = res[3]
+                extra = res[3].encode("utf-8")
                 send_data(sock, np.int32(len(extra)))
-                sock.sendall(extra.encode("utf-8"))
+                sock.sendall(extra)
             f_data = False
         elif header == Message("GETFORCE"):
             sock.sendall(Message("FORCEREADY"))
@@ -285,8 +285,9 @@ def run_driver(
             send_data(sock, np.int32(nat))
             send_data(sock, force)
             send_data(sock, vir)
-            send_data(sock, np.int32(len(extras)))
-            sock.sendall(extras.encode("utf-8"))
+            extras_data = extras.encode("utf-8")
+            send_data(sock, np.int32(len(extras_data)))
+            sock.sendall(extras_data)
 
             f_data = False
         elif header == Message("EXIT"):
-- 
2.43.0


From e7593e48c09cd3425e19c43d7ef56ed4e9f49543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:26 +0000
Subject: [PATCH 41/91] fix: message headers split in transit no longer drop or
 hang a client

A partial header was taken for a disconnected client, or for an unknown message
while waiting for the forces; a client that left at that point was never noticed.
---
 ipi/interfaces/sockets.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index b3ff674..ae22644 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -153,7 +153,21 @@ class DriverSocket(socket.socket):
         Args:
            l: Length of the accepted message. Defaults to HDRLEN.
         """
-        return self.recv(length)
+        reply = self.recv(length)
+        ntimeout = 0
+        # the message might have been split in transit
+        while 0 < len(reply) < length:
+            try:
+                part = self.recv(length - len(reply))
+            except socket.timeout:
+                ntimeout += 1
+                if ntimeout > NTIMEOUT:
+                    break
+                continue
+            if len(part) == 0:
+                break
+            reply += part
+        return reply
 
     def recvall(self, dest):
         """Gets the potential energy, force and virial from the driver.
@@ -453,7 +467,7 @@ class Driver(DriverSocket):
                     " @SOCKET:   Unexpected getforce reply: %s" % (reply),
                     verbosity.low,
                 )
-            if reply == "":
+            if len(reply) < HDRLEN:
                 raise Disconnected()
 
     def _recv_force_data(self):
-- 
2.43.0


From 39260f78437a0f3fd005975f5149945543ff127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:26 +0000
Subject: [PATCH 42/91] fix: announce the length of the initialisation string
 in bytes

---
 ipi/interfaces/sockets.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index ae22644..18fa913 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -389,12 +389,10 @@ class Driver(DriverSocket):
                     # it checks if there are several parameters just in case
                     sep = "," if pars.strip() else ""
                     pars = pars + "%s batch_size:%d" % (sep, self.batch_size)
+                pars = pars.encode()
                 # combines all messages in one to reduce latency
                 self.sendall(
-                    MESSAGE["init"]
-                    + np.int32(rid)
-                    + np.int32(len(pars))
-                    + pars.encode()
+                    MESSAGE["init"] + np.int32(rid) + np.int32(len(pars)) + pars
                 )
             except:
                 self.get_status()
-- 
2.43.0


From 8757e8b9f7fc64ec118f2c5fe9502669066f665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:42 +0000
Subject: [PATCH 43/91] fix: a connection reset while receiving forces is a
 lost client

The exception ended the polling thread, and the simulation waited forever. This
is what happens when a client crashes while it computes.
---
 ipi/interfaces/sockets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 18fa913..41ee1fb 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -206,6 +206,8 @@ class DriverSocket(socket.socket):
                     )
                     raise Disconnected()
                 pass
+            except socket.error:
+                raise Disconnected()
 
             if not timeout and bpart == 0:
                 raise Disconnected()
@@ -717,6 +719,8 @@ class Driver(DriverSocket):
                     )
                     raise Disconnected()
                 continue
+            except socket.error:
+                raise Disconnected()
             if bpart == 0:
                 raise Disconnected()
             bpos += bpart
@@ -761,6 +765,8 @@ class Driver(DriverSocket):
                     if ntimeout > NTIMEOUT:
                         raise Disconnected()
                     continue
+                except socket.error:
+                    raise Disconnected()
                 if bpart == 0:
                     raise Disconnected()
                 bpos += bpart
-- 
2.43.0


From bc2e948c33f1edcbcbf4776e4c392e2a07d22cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:10 +0000
Subject: [PATCH 44/91] fix: threaded socket dispatch recovers the requests of
 lost clients

A request that timed out was forgotten instead of being queued again, a client
that died while idle made the polling thread spin forever if there were pending
requests, one that died at the wrong time made it wait for the other clients or
repeat a finished calculation.
---
 ipi/interfaces/sockets.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 41ee1fb..0bd8862 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -546,7 +546,11 @@ class Driver(DriverSocket):
             return
 
         r["start"] = time.time()
-        self.sendpos(r["pos"][r["active"]], r["cell"])
+        try:
+            self.sendpos(r["pos"][r["active"]], r["cell"])
+        except socket.error:
+            self.status = Status.Disconnected
+            return
 
         self.get_status()
         if not (self.status & Status.HasData):
@@ -558,7 +562,7 @@ class Driver(DriverSocket):
 
         try:
             r["result"] = self.getforce()
-        except Disconnected:
+        except (Disconnected, socket.error):
             self.status = Status.Disconnected
             return
 
@@ -1416,14 +1420,14 @@ class InterfaceSocket(object):
                 self.clients.remove(c)
                 # requeue jobs that have been left hanging
                 for [k, j, tc] in self.jobs[:]:
-                    tc.result()
                     if j is c:
+                        if tc is not None:
+                            tc.result()
                         self.jobs = [
                             w for w in self.jobs if not (w[0] is k and w[1] is j)
                         ]  # removes pair in a robust way
 
-                        k["status"] = "Queued"
-                        k["start"] = -1
+                        self._requeue_disconnected(k, c)
 
         if len(self.clients) == 0:
             searchtimeout = SERVERTIMEOUT
@@ -1510,11 +1514,13 @@ class InterfaceSocket(object):
         ndispatch = 0
         tdispatch -= time.time()
         while len(freec) > 0 and len(self.prlist) > 0:
+            dispatched_this_round = False
             for match_ids in match_seq:
                 for fc in freec[:]:
                     if self.dispatch_free_client(fc, match_ids):
                         freec.remove(fc)
                         ndispatch += 1
+                        dispatched_this_round = True
 
                     if len(self.prlist) == 0:
                         break
@@ -1525,6 +1531,10 @@ class InterfaceSocket(object):
 
             if len(freec) > 0:
                 self.prlist = [r for r in self.requests if r["status"] == "Queued"]
+
+            # none of the free clients can take a job (e.g. because they died)
+            if not dispatched_this_round:
+                break
         tdispatch += time.time()
 
         # now check for client status
@@ -1547,8 +1557,9 @@ class InterfaceSocket(object):
                 nfinished += 1
                 finished_ids.append(ijob)
             elif chk == 0:
-                self.poll_iter = UPDATEFREQ  # client disconnected. force a pool_update
-                finished_ids.append(ijob)
+                # client disconnected. force a pool_update, that will also put
+                # the request back on the queue
+                self.poll_iter = UPDATEFREQ
             nchecked += 1
         # batch removal of finished/disconnected jobs (reverse order to preserve indices)
         for ijob in reversed(finished_ids):
@@ -1686,6 +1697,8 @@ class InterfaceSocket(object):
         a list of requests (batched job).
         """
         for rr in r if isinstance(r, list) else [r]:
+            if rr["status"] == "Done":
+                continue  # the client managed to finish before leaving
             rr["status"] = "Queued"
             rr["start"] = -1
         c.status = Status.Disconnected
-- 
2.43.0


From 82f601a3aaa757cb0002302ee5ab1629f17bc9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:10 +0000
Subject: [PATCH 45/91] fix: compare request ids by value when matching clients

Identity only works for small integers: with match mode 'lock' replicas past the
257th were never assigned again.
---
 ipi/interfaces/sockets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/interfaces/sockets.py b/ipi/interfaces/sockets.py
index 0bd8862..99db405 100644
--- a/ipi/interfaces/sockets.py
+++ b/ipi/interfaces/sockets.py
@@ -1730,7 +1730,7 @@ class InterfaceSocket(object):
             return self._dispatch_free_client_batch(fc)
 
         for r in self.prlist[:]:
-            if match_ids == "match" and fc.lastreq is not r["id"]:
+            if match_ids == "match" and fc.lastreq != r["id"]:
                 continue
             elif match_ids == "none" and fc.lastreq is not None:
                 continue
@@ -1747,7 +1747,7 @@ class InterfaceSocket(object):
                 continue
 
             # makes sure the request is marked as running and the client included in the jobs list
-            fc.locked = fc.lastreq is r["id"]
+            fc.locked = fc.lastreq == r["id"]
 
             r["offset"] = (
                 self.offset
-- 
2.43.0


From 4ff03c83f13679b00a49e5ed8686d6876743e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:49 +0000
Subject: [PATCH 46/91] fix: the energy of the double well is the sum over the
 atoms

---
 ipi/pes/doublewell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/pes/doublewell.py b/ipi/pes/doublewell.py
index 1ed69d8..f18a5f0 100644
--- a/ipi/pes/doublewell.py
+++ b/ipi/pes/doublewell.py
@@ -60,7 +60,9 @@ class DoubleWell_driver(Dummy_driver):
         force3 = np.zeros(pos.shape)
 
         # DW
-        pot += self.A * (pos3[:, 0] - self.delta) ** 2 + self.B * (pos3[:, 0] ** 4)
+        pot += (
+            self.A * (pos3[:, 0] - self.delta) ** 2 + self.B * (pos3[:, 0] ** 4)
+        ).sum()
         force3[:, 0] = -2.0 * self.A * (pos3[:, 0] - self.delta) - 4.0 * self.B * (
             pos3[:, 0] ** 3
         )
-- 
2.43.0


From 8998f60326979d3ac5f01e072cc4b26e2509db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:49 +0000
Subject: [PATCH 47/91] fix: double well with friction uses its parameters, in
 the documented order

---
 ipi/pes/doublewell_with_friction.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/ipi/pes/doublewell_with_friction.py b/ipi/pes/doublewell_with_friction.py
index dad3779..96570a4 100644
--- a/ipi/pes/doublewell_with_friction.py
+++ b/ipi/pes/doublewell_with_friction.py
@@ -6,17 +6,12 @@ except:
     from doublewell import DoubleWell_driver
 
 import numpy as np
-from ipi.utils import units
 import json
 import sys
 
 __DRIVER_NAME__ = "DW_friction"
 __DRIVER_CLASS__ = "DoubleWell_with_friction_driver"
 
-
-invcm2au = units.unit_to_internal("frequency", "inversecm", 1.0)
-A2au = units.unit_to_internal("length", "angstrom", 1.0)
-
 # ------------DOUBLE WELL POTENTIAL-----------------------------
 #
 #                                                 m^2*w_b^4
@@ -44,31 +39,24 @@ class DoubleWell_with_friction_driver(DoubleWell_driver):
         w_b=None,
         v0=None,
         m=None,
+        delta=None,
         eta0=None,
         eps1=None,
         eps2=None,
-        delta=None,
         deltaQ=None,
         *args,
         **kwargs
     ):
 
-        try:
-            w_b = w_b * invcm2au
-            v0 = v0 * invcm2au
-            self.delta = delta * A2au
-            self.eta0 = eta0
-            self.eps1 = eps1
-            self.eps2 = eps2
-            self.deltaQ = deltaQ
-            self.k = 1837.36223469 * (3800.0 / 219323.0) ** 2
-            self.A = -0.5 * m * (w_b) ** 2
-            self.B = ((m**2) * (w_b) ** 4) / (16 * v0)
-
-        except:
+        if any(p is None for p in (w_b, v0, m, delta, eta0, eps1, eps2, deltaQ)):
             sys.exit(self.__doc__)
 
-        super().__init__(*args, **kwargs)
+        self.eta0 = eta0
+        self.eps1 = eps1
+        self.eps2 = eps2
+        self.deltaQ = deltaQ
+
+        super().__init__(w_b, v0, m, delta, *args, **kwargs)
 
     def check_dimensions(self, pos):
         """Functions that checks dimensions of the received position"""
-- 
2.43.0


From 6035123d67cab900c1607fb1494e37524d31b596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:49 +0000
Subject: [PATCH 48/91] fix: evaluate the explicit baths coupled to double
 wells

---
 ipi/pes/doubledoublewell.py     | 9 ++++-----
 ipi/pes/doublewell_with_bath.py | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/ipi/pes/doubledoublewell.py b/ipi/pes/doubledoublewell.py
index 6035c8c..bb28fcd 100644
--- a/ipi/pes/doubledoublewell.py
+++ b/ipi/pes/doubledoublewell.py
@@ -89,7 +89,6 @@ class DDW_with_explicit_bath_driver(Dummy_driver):
             self.bath_parameters["eps2"] = eps2
             self.bath_parameters["deltaQ"] = deltaQ
             self.bath_parameters["w_c"] = w_c * invcm2au
-            self.bath_parameters["delta"] = self.delta
         # def __init__(self, nbath, m, eta0, eps1, eps2, deltaQ, w_c, *args, **kwargs):
 
         except:
@@ -109,8 +108,8 @@ class DDW_with_explicit_bath_driver(Dummy_driver):
             self.ndof = np.size(pos)
             assert self.ndof % 2 == 0, "Sorry we need an even number of ndof"
             self.nbath = (self.ndof - 2) // 2
-            self.bath1 = Harmonic_Bath_explicit(self.nbath, self.bath_parameters)
-            self.bath2 = Harmonic_Bath_explicit(self.nbath, self.bath_parameters)
+            self.bath1 = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
+            self.bath2 = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
             self.init = True
 
         pot = 0
@@ -124,8 +123,8 @@ class DDW_with_explicit_bath_driver(Dummy_driver):
         fy = np.zeros(x.shape)
 
         # Harmonic bath
-        pot_x, fq1, fx = self.bath1(q1, x)
-        pot_y, fq2, fy = self.bath2(q2, y)
+        pot_x, fq1, fx = self.bath1.compute_structure(q1, x)
+        pot_y, fq2, fy = self.bath2.compute_structure(q2, y)
 
         pot = pot_x + pot_y
 
diff --git a/ipi/pes/doublewell_with_bath.py b/ipi/pes/doublewell_with_bath.py
index 85f5920..97960b5 100644
--- a/ipi/pes/doublewell_with_bath.py
+++ b/ipi/pes/doublewell_with_bath.py
@@ -94,7 +94,7 @@ class DoubleWell_with_explicit_bath_driver(Dummy_driver):
             self.bath = Harmonic_Bath_explicit(self.nbath, **self.bath_parameters)
 
         # Harmonic bath
-        pot, fq, fx = self.bath(q, x)
+        pot, fq, fx = self.bath.compute_structure(q, x)
 
         # DW
         pot += self.A * (q - self.delta) ** 2 + self.B * (q**4)
-- 
2.43.0


From 16dc77ec30b0f33fece831c6d233b0f90cfb2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:42 +0000
Subject: [PATCH 49/91] fix: apply the energy offset before a request is marked
 as done

---
 ipi/engine/forcefields.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 111c60a..0a2f267 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -393,8 +393,15 @@ class FFEval(ForceField):
 
     def _eval_thread(self, request):
         """Evaluates a single request and applies the offset."""
-        self.evaluate(request)
-        request["result"][0] -= self.offset
+        # evaluates a copy, so that the request is only marked as done
+        # when its result is final
+        job = ForceRequest(request)
+        self.evaluate(job)
+        job["result"][0] -= self.offset
+        request["result"] = job["result"]
+        request["t_finished"] = time.time()
+        request["status"] = "Done"
+        request._event_done.set()
 
     def poll(self):
         """Polls the forcefield checking if there are requests that should
-- 
2.43.0


From d9bad8ddc1b9947f95d29db6ea5635723c9fcf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:42 +0000
Subject: [PATCH 50/91] fix: accept extra strings that are JSON values but not
 objects

---
 ipi/interfaces/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/interfaces/utils.py b/ipi/interfaces/utils.py
index 8fe8962..4f3ccaa 100644
--- a/ipi/interfaces/utils.py
+++ b/ipi/interfaces/utils.py
@@ -17,7 +17,9 @@ def parse_extra(mxtra):
     try:
         mxtradict = json.loads(mxtra)
     except Exception:
-        # not JSON: still expose the literal string under 'raw'
+        mxtradict = None
+    if not isinstance(mxtradict, dict):
+        # not a JSON object: still expose the literal string under 'raw'
         mxtradict = {}
     if "raw" in mxtradict:
         raise ValueError(
-- 
2.43.0


From a64edc23b23f1e9564278420c548e1aee03f008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:25 +0000
Subject: [PATCH 51/91] fix: the committee reports the extras of all of its
 members

Only the extras of the last member were collected.
---
 ipi/engine/forcefields.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 0a2f267..7ded516 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1515,6 +1515,8 @@ class FFCommittee(ForceField):
                 frcs.append(ff_r["result"][1])
                 virs.append(ff_r["result"][2])
 
+            xtrs.append(ff_r["result"][3])
+
         pots = np.array(pots)
         if len(pots) != len(frcs) and len(frcs) > 1:
             raise ValueError(
@@ -1528,8 +1530,6 @@ class FFCommittee(ForceField):
             )
         virs = np.array(virs).reshape(-1, 3, 3)
 
-        xtrs.append(ff_r["result"][3])
-
         # Computes the mean energetics
         mean_pot = np.mean(pots, axis=0)
         mean_frc = np.mean(frcs, axis=0)
@@ -1634,7 +1634,7 @@ class FFCommittee(ForceField):
             r["result"][3]["wb_mixing"] = (s_b2 / (s_b2 + var_pot),)
 
         # "dissolve" the extras dictionaries into a list
-        for k in xtrs[0].keys():
+        for k in dict.fromkeys(k for x in xtrs for k in x):
             if ("committee_" + k) in r["result"][3].keys():
                 raise ValueError(
                     "Name clash between extras key "
@@ -1643,7 +1643,8 @@ class FFCommittee(ForceField):
                 )
             r["result"][3][("committee_" + k)] = []
             for x in xtrs:
-                r["result"][3][("committee_" + k)].append(x[k])
+                if k in x:
+                    r["result"][3][("committee_" + k)].append(x[k])
 
         if self.active_thresh > 0.0 and std_pot > self.active_thresh:
             dumps = json.dumps(
-- 
2.43.0


From d151704b99f019a084fd7e55993648fccd9aaa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:25 +0000
Subject: [PATCH 52/91] fix: committees accept the flattened forces and virials
 sent by metatomic

---
 ipi/engine/forcefields.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 7ded516..293c972 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1493,7 +1493,12 @@ class FFCommittee(ForceField):
             if "committee_pot" in ff_r["result"][3] and self.parse_json:
                 pots += ff_r["result"][3]["committee_pot"]
                 if "committee_force" in ff_r["result"][3]:
-                    frcs += ff_r["result"][3]["committee_force"]
+                    frcs += list(
+                        np.reshape(
+                            ff_r["result"][3]["committee_force"],
+                            (len(ff_r["result"][3]["committee_pot"]), -1),
+                        )
+                    )
                     ff_r["result"][3].pop("committee_force")
                 else:
                     # if the commitee doesn't have forces, just add the mean force from this model
@@ -1502,7 +1507,9 @@ class FFCommittee(ForceField):
                     all_have_frc = False
 
                 if "committee_virial" in ff_r["result"][3]:
-                    virs += ff_r["result"][3]["committee_virial"]
+                    virs += list(
+                        np.reshape(ff_r["result"][3]["committee_virial"], (-1, 3, 3))
+                    )
                     ff_r["result"][3].pop("committee_virial")
                 else:
                     # if the commitee doesn't have virials, just add the mean virial from this model
-- 
2.43.0


From aacfdc7a51dd99cfe24305c86806f1f51c7a6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:19 +0000
Subject: [PATCH 53/91] fix: do not overwrite the status of a rotated request
 that is already done

The polling thread can complete the request as soon as it is queued, in
which case it would be marked as running again, and waited for forever.
---
 ipi/engine/forcefields.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index 293c972..a32806c 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -1794,7 +1794,6 @@ class FFRotations(ForceField):
         req = ForceField.queue(
             self, atoms, cell, reqid, template=dict(ff_handles=ffh, rots=rots)
         )
-        req["status"] = "Running"
         req["t_dispatched"] = time.time()
         return req
 
-- 
2.43.0


From eed8d5b6594225151717147223739df0d9edc450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:44 +0000
Subject: [PATCH 54/91] fix: the cavity forcefield subtracts the energy offset
 once

The socket interface already takes it off the energy of the client.
---
 ipi/engine/forcefields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/forcefields.py b/ipi/engine/forcefields.py
index a32806c..2127a7d 100644
--- a/ipi/engine/forcefields.py
+++ b/ipi/engine/forcefields.py
@@ -2479,7 +2479,7 @@ class FFCavPhSocket(FFSocket):
             result_tot[1][2:ndim_tot:3] += fz_cav
             result_tot[1][ndim_tot:] = f_ph
 
-        result_tot[0] -= self.offset
+        # (the offset has already been subtracted by the socket interface)
 
         # At this moment, we have sucessfully gathered the CavMD forces
         newreq = ForceRequest(
-- 
2.43.0


From d1e0b812b1dcfdf91cd3ee086b089a97a458604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:24 +0000
Subject: [PATCH 55/91] fix: replica exchange rescales the GLE momenta by the
 square root of the temperature ratio

The auxiliary momenta s are mass-scaled, so that their stationary variance is
proportional to the temperature; multiplying them by the full ratio leaves the
thermostat far from its stationary distribution after each accepted exchange.
---
 ipi/engine/smotion/remd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/smotion/remd.py b/ipi/engine/smotion/remd.py
index 8061c27..8a0bdc1 100644
--- a/ipi/engine/smotion/remd.py
+++ b/ipi/engine/smotion/remd.py
@@ -165,8 +165,9 @@ class ReplicaExchange(Smotion):
                     )
 
                     # if we have GLE thermostats, we also have to exchange rescale the s!!!
-                    gle_scale(sl[i], (tj / ti))
-                    gle_scale(sl[j], (ti / tj))
+                    # (these are mass-scaled momenta, so <s^2> \propto T)
+                    gle_scale(sl[i], np.sqrt(tj / ti))
+                    gle_scale(sl[j], np.sqrt(ti / tj))
 
                     t_eval -= time.time()
                     # we just have to carry on with the swapped ensembles, but we also keep track of the changes in econs
-- 
2.43.0


From 95e485ddaa9dd1ac07be70b42b59b71e8d51d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:50 +0000
Subject: [PATCH 56/91] fix: the atom swap move accounts for the ring-polymer
 spring energy

With more than one bead, exchanging the positions of two atoms of different
mass changes the spring energy. It was missing from both the acceptance
probability, so that the wrong distribution was sampled, and the conserved
quantity, which jumped at each accepted swap.
---
 ipi/engine/motion/atomswap.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/atomswap.py b/ipi/engine/motion/atomswap.py
index 98570e4..8971803 100644
--- a/ipi/engine/motion/atomswap.py
+++ b/ipi/engine/motion/atomswap.py
@@ -119,7 +119,15 @@ class AtomSwap(Motion):
             self.dbeads.q[:, 3 * i : 3 * i + 3] = self.beads.q[:, 3 * j : 3 * j + 3]
             self.dbeads.q[:, 3 * j : 3 * j + 3] = self.beads.q[:, 3 * i : 3 * i + 3]
             new_energy = self.dforces.pot
-            pexchange = np.exp(-betaP * (new_energy - old_energy))
+
+            # change in the ring-polymer spring energy, which does not cancel out
+            # because the exchanged atoms can have different masses
+            spring = 0.5 * np.dot(
+                dstrip(self.nm.omegak2), dstrip(self.nm.qnm) ** 2
+            ).reshape(-1, 3).sum(axis=1)
+            difspring = (spring[i] - spring[j]) * (self.beads.m[j] - self.beads.m[i])
+
+            pexchange = np.exp(-betaP * (new_energy - old_energy + difspring))
 
             # attemps the exchange, and actually propagate the exchange if something has happened
             if pexchange > self.prng.u:
@@ -130,7 +138,7 @@ class AtomSwap(Motion):
                 # transfers the (already computed) status of the force, so we don't need to recompute
                 self.forces.transfer_forces(self.dforces)
 
-                self.ealc += -(new_energy - old_energy)
+                self.ealc += -(new_energy - old_energy + difspring)
 
 
 dproperties(AtomSwap, ["ealc"])
-- 
2.43.0


From 8168434cb62b3af90410c411e4302365294c6ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:18 +0000
Subject: [PATCH 57/91] fix: a soft exit in a second call to Simulation.run
 saves the last consistent state

rollback was set only at construction and cleared at the end of the first run,
so that when a script runs a simulation in pieces, an exit in the middle of a
step saved that intermediate state, numbered as if the step had been completed.
---
 ipi/engine/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipi/engine/simulation.py b/ipi/engine/simulation.py
index ce4a3c9..596cd2f 100644
--- a/ipi/engine/simulation.py
+++ b/ipi/engine/simulation.py
@@ -331,6 +331,10 @@ class Simulation:
         in the communication between the driver and the PIMD code.
         """
 
+        # until the end of the run, an emergency exit must fall back to the last
+        # consistent state (this may not be the first time we run)
+        self.rollback = True
+
         # prints inital configuration -- only if we are not restarting
         if self.step == 0 and write_outputs:
             self.step = -1
-- 
2.43.0


From 5f56e2b42b40dd03a33988faeede73243f641705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:56 +0000
Subject: [PATCH 58/91] fix: an interrupted interactive run does not overwrite
 its restart file

When a soft exit is triggered from another thread (EXIT file, wall clock, client
shutdown), the run returns in the middle of a step, and InteractiveSimulation.run
then replaced the consistent restart file with that intermediate state.
---
 ipi/scripting/interactive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/scripting/interactive.py b/ipi/scripting/interactive.py
index 69763bd..b16d0dc 100644
--- a/ipi/scripting/interactive.py
+++ b/ipi/scripting/interactive.py
@@ -11,6 +11,7 @@ from copy import deepcopy
 import numpy as np
 
 from ipi.utils.depend import dstrip
+from ipi.utils.softexit import softexit
 from ipi.utils.units import unit_to_internal, unit_to_user, Constants
 from ipi.engine.simulation import Simulation
 from ipi.engine.motion import Dynamics
@@ -95,6 +96,10 @@ class InteractiveSimulation(Simulation):
 
         self.tsteps = self.step + steps
         super().run(write_outputs=write_outputs)
+        if softexit.triggered:
+            # the run was interrupted, possibly halfway through a step, and the
+            # last consistent state has already been saved
+            return
         # saves the RESTART file
         self.chk.write(store=True)
         self.step += 1
-- 
2.43.0


From ee17a773500180c9620fd2108aeaf9898f8bb708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:37 +0000
Subject: [PATCH 59/91] fix: atom_f_path is a force, not a length

---
 ipi/engine/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index f8e3e86..b19ad84 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -576,7 +576,7 @@ class Properties:
                 ),
             },
             "atom_f_path": {
-                "dimension": "length",
+                "dimension": "force",
                 "help": "The forces acting on all the beads of a particle given its index.",
                 "longhelp": """The forces acting on all the beads of a particle given its index. Takes arguments index
                        and bead (both zero based). If bead is not specified, refers to the centroid.""",
-- 
2.43.0


From 00416d9968361f04596560fed3f312953440853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:37 +0000
Subject: [PATCH 60/91] fix: pot_component_raw averages over the beads of the
 component

---
 ipi/engine/properties.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index b19ad84..0dbab9e 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -405,8 +405,7 @@ class Properties:
                        discretization of the given component. Potential weights will not be applied. """,
                 "func": (
                     lambda index, bead="-1": (
-                        self.forces.pots_component(int(index), False, False).sum()
-                        / self.beads.nbeads
+                        self.forces.pots_component(int(index), False, False).mean()
                         if int(bead) < 0
                         else self.forces.pots_component(int(index), False, False)[
                             int(bead)
-- 
2.43.0


From 3342faf0d6aeb5b1f1649d290eb2dbe3d020a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:37 +0000
Subject: [PATCH 61/91] fix: the centre of mass velocity of a single bead can
 be computed

---
 ipi/engine/properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 0dbab9e..f82f650 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1750,10 +1750,11 @@ class Properties:
     def get_vcom(self, latom="", bead=-1):
         """Computes the center of mass velocity for the system or for a specified species"""
 
+        bead = int(bead)
         if bead < 0:
             p = dstrip(self.beads.pc)
         else:
-            p = dstrip(self.beads[bead])
+            p = dstrip(self.beads.p)[bead]
         pcom = np.zeros(3)
         tm = 0
         for i in range(self.beads.natoms):
-- 
2.43.0


From 1a0809ebe225e4d38752758fcc513b51b03f61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:38 +0000
Subject: [PATCH 62/91] fix: temperature of a normal mode with fixed centroids
 and fixed atoms

---
 ipi/engine/properties.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index f82f650..07416b9 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1162,11 +1162,13 @@ class Properties:
                 dof_ids = np.concatenate(
                     (atom_ids * 3, atom_ids * 3 + 1, atom_ids * 3 + 2)
                 )
-                eff_nbeads = (
-                    self.beads.nbeads - 1  # prevent double counting
-                    if self.motion.enstype == "nvt-cc"
-                    else self.beads.nbeads
-                )
+                eff_nbeads = self.beads.nbeads
+                if hasattr(self.motion, "enstype") and self.motion.enstype == "nvt-cc":
+                    # prevent double counting of the fixed centroid
+                    if nm == "":
+                        eff_nbeads = self.beads.nbeads - 1
+                    elif int(nm) == 0:
+                        eff_nbeads = 0
                 eff_number_fixed_dof += np.sum(flags[dof_ids]) * eff_nbeads
 
             kemd += (
-- 
2.43.0


From 517af33999c0e2bf7ab6adaa9428a83d67fad961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:38 +0000
Subject: [PATCH 63/91] fix: displaced-path estimators use the current cell

---
 ipi/engine/properties.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 07416b9..4ee2f4b 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -1985,6 +1985,7 @@ class Properties:
         nb = self.beads.nbeads
         nx_tot = 0.0
         ncount = 0
+        self.dcell.h = self.cell.h
         for i in range(nat):
             if atom != "" and iatom != i and latom != self.beads.names[i]:
                 continue
@@ -2252,6 +2253,7 @@ class Properties:
         q = dstrip(self.beads.q)
         #        f = dstrip(self.forces.f)
         qc = dstrip(self.beads.qc)
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -2540,6 +2542,7 @@ class Properties:
         qc = dstrip(self.beads.qc)
         q = dstrip(self.beads.q)
         v0 = self.forces.pot
+        self.dcell.h = self.cell.h
         self.dbeads.q = q
 
         for i in range(self.beads.natoms):
@@ -2740,6 +2743,7 @@ class Properties:
         f = dstrip(self.forces.f)
         v0 = self.forces.pot
         pots = self.forces.pots
+        self.dcell.h = self.cell.h
 
         for i in range(self.beads.natoms):
             # selects only the atoms we care about
@@ -3307,6 +3311,7 @@ class Trajectories:
         qc = dstrip(self.system.beads.qc)
         q = dstrip(self.system.beads.q)
         v0 = self.system.forces.pot / nb
+        self.dcell.h = self.system.cell.h
         self.dbeads.q = q
 
         for i in range(nat):
-- 
2.43.0


From fe0809c92e91aecbecc8f377ca20ea7067fea852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:05 +0000
Subject: [PATCH 64/91] fix: a line search that runs out of iterations ends at
 the best point found

min_brent returned with the mapper at the last point it tried, which the SD
and CG optimizers then adopt, even when its energy is above the initial one.
---
 ipi/utils/mintools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/utils/mintools.py b/ipi/utils/mintools.py
index 4d3a255..fa3a8d0 100644
--- a/ipi/utils/mintools.py
+++ b/ipi/utils/mintools.py
@@ -399,6 +399,7 @@ def min_brent(fdf, fdf0, x0, tol, itmax, init_step):
     )
     info(" @MINIMIZE: Finished minimization, energy = %f" % fx, verbosity.debug)
     # return (x, fx,dfx)
+    fx, dfx = fdf(x)  # Evaluate again to update lm.dforces object
     return
 
 
-- 
2.43.0


From d321acfec3bf33471598fe0cd900dfd73e70a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:05 +0000
Subject: [PATCH 65/91] fix: L-BFGS resets an uphill direction to the steepest
 descent

The reset used the gradient itself, i.e. the steepest ascent, and rebound d0 so
that the direction kept by the caller was not updated.
---
 ipi/utils/mintools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/mintools.py b/ipi/utils/mintools.py
index fa3a8d0..84b3e44 100644
--- a/ipi/utils/mintools.py
+++ b/ipi/utils/mintools.py
@@ -805,7 +805,7 @@ def L_BFGS(x0, d0, fdf, qlist, glist, fdf0, big_step, tol, itmax, m, scale, k):
     if np.dot(g0.flatten(), d0.flatten()) > 0.0:
         # reset search direction if we are moving uphill!
         info(" @MINIMIZE: moving uphill, resetting search direction! ", verbosity.debug)
-        d0 = g0 / np.sqrt(np.dot(g0.flatten(), g0.flatten()))
+        d0[:] = -g0 / np.sqrt(np.dot(g0.flatten(), g0.flatten()))
 
     print("@ GEOP step ", big_step)
     # Perform approximate line minimization in direction d0
-- 
2.43.0


From e0273869e88bbb6a45276a346f73b3282bf83669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:05 +0000
Subject: [PATCH 66/91] fix: SD and CG line searches start from the right slope

The derivative at the starting point was passed with the sign of the force
while the line mapper returns that of the gradient, and, with fixed atoms, along
a direction that was not the normalised one.
---
 ipi/engine/motion/geop.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/geop.py b/ipi/engine/motion/geop.py
index cf31b59..f41adb1 100755
--- a/ipi/engine/motion/geop.py
+++ b/ipi/engine/motion/geop.py
@@ -846,7 +846,10 @@ class SDOptimizer(DummyOptimizer):
         # Reuse initial value since we have energy and forces already
         u0, du0 = (
             self.forces.pot.copy(),
-            np.dot(dstrip(self.forces.f.flatten()), dq1_unit.flatten()),
+            -np.dot(
+                dstrip(self.forces.f)[:, self.lm.fixatoms_mask].flatten(),
+                self.lm.d.flatten(),
+            ),
         )
 
         # Do one SD iteration; return positions and energy
@@ -944,7 +947,10 @@ class CGOptimizer(DummyOptimizer):
         # Reuse initial value since we have energy and forces already
         u0, du0 = (
             self.forces.pot.copy(),
-            np.dot(dstrip(self.forces.f.flatten()), dq1_unit.flatten()),
+            -np.dot(
+                dstrip(self.forces.f)[:, self.lm.fixatoms_mask].flatten(),
+                self.lm.d.flatten(),
+            ),
         )
 
         # Do one CG iteration; return positions and energy
-- 
2.43.0


From d384eb436a3b92a873b12d54952d87a6daf7e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:05 +0000
Subject: [PATCH 67/91] fix: conjugate gradients ignore the forces on fixed
 atoms

beta and the stored direction included the components of the fixed degrees of
freedom, so that the directions were not those of Polak-Ribiere in the
subspace that moves.
---
 ipi/engine/motion/geop.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ipi/engine/motion/geop.py b/ipi/engine/motion/geop.py
index f41adb1..59ddbd8 100755
--- a/ipi/engine/motion/geop.py
+++ b/ipi/engine/motion/geop.py
@@ -916,8 +916,13 @@ class CGOptimizer(DummyOptimizer):
 
         info("\nMD STEP %d" % step, verbosity.debug)
 
+        # Forces on the degrees of freedom that can move
+        gradf1 = dstrip(self.forces.f).copy()
+        if len(self.fixatoms_dof) > 0:
+            gradf1[:, self.fixatoms_dof] = 0.0
+
         if step == 0:
-            gradf1 = dq1 = dstrip(self.forces.f)
+            dq1 = gradf1
 
             # Move direction for 1st conjugate gradient step
             dq1_unit = dq1 / np.sqrt(np.dot(gradf1.flatten(), gradf1.flatten()))
@@ -926,7 +931,6 @@ class CGOptimizer(DummyOptimizer):
         else:
             gradf0 = self.old_f
             dq0 = self.d
-            gradf1 = dstrip(self.forces.f)
             beta = np.dot((gradf1.flatten() - gradf0.flatten()), gradf1.flatten()) / (
                 np.dot(gradf0.flatten(), gradf0.flatten())
             )
@@ -938,10 +942,6 @@ class CGOptimizer(DummyOptimizer):
         self.d[:] = dq1
         self.old_f[:] = gradf1
 
-        if len(self.fixatoms_dof) > 0:
-            for dqb in dq1_unit:
-                dqb[self.fixatoms_dof] = 0.0
-
         self.lm.set_dir(dstrip(self.beads.q), dq1_unit)
 
         # Reuse initial value since we have energy and forces already
-- 
2.43.0


From d7588486baf11a69c9730e7075b5303e53baf9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:33 +0000
Subject: [PATCH 68/91] fix: manual initialization of positions and momenta
 honours the units

The units attribute of positions, velocities and momenta given as a list was
silently ignored, and the values of the initializer were modified in place.
---
 ipi/engine/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 5e7bb1c..cfd4c08 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -228,7 +228,7 @@ def init_vector(
         else:
             rq = init_beads(iif, nbeads).q
     elif mode == "manual":
-        rq = value
+        rq = value * unit_to_internal(dimension, units, 1.0)
 
     # determines the size of the input data
     if mode == "manual":
-- 
2.43.0


From 281c17e79ac8e31b4e8c257c7665759f8ccdea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:33 +0000
Subject: [PATCH 69/91] fix: momenta given for a single bead are not rescaled

The factor that accounts for a change in the number of beads was also applied
to momenta and velocities of one bead, raising the temperature by a factor
equal to the number of beads.
---
 ipi/engine/initializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index cfd4c08..9b57c8c 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -549,7 +549,8 @@ class Initializer:
                         )
                     simul.beads.resize(natoms, self.nbeads)
 
-                rp *= np.sqrt(self.nbeads / nbeads)
+                if v.bead < 0:  # the path is rescaled to the number of beads
+                    rp *= np.sqrt(self.nbeads / nbeads)
                 set_vector(v, simul.beads.p, rp)
                 fmom = True
             elif k == "velocities":
@@ -576,7 +577,8 @@ class Initializer:
                 else:
                     for ev in rv:
                         ev *= simul.beads.m3[0]
-                rv *= np.sqrt(self.nbeads / nbeads)
+                if v.bead < 0:  # the path is rescaled to the number of beads
+                    rv *= np.sqrt(self.nbeads / nbeads)
                 set_vector(v, simul.beads.p, rv)
                 fmom = True
             elif k == "gle":
-- 
2.43.0


From 7b22257ab81d532bbfdb35cfaf42d0bd74f2721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:33 +0000
Subject: [PATCH 70/91] fix: velocities cannot be initialized before the masses

The error was created but not raised, and the beads were resized, which erased
positions read before.
---
 ipi/engine/initializer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 9b57c8c..37cfa30 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -563,10 +563,9 @@ class Initializer:
 
                 # checks if we must initialize the simulation beads
                 if simul.beads.nbeads == 0 or not fmass:
-                    ValueError(
+                    raise ValueError(
                         "Cannot initialize velocities before the masses of the atoms are known"
                     )
-                    simul.beads.resize(natoms, self.nbeads)
 
                 warning(
                     "Initializing from velocities uses the previously defined masses -- not the masses inferred from the file -- to build momenta",
-- 
2.43.0


From 4041571a8ea516d9d0c62950ef4a6ec7188f9808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:33 +0000
Subject: [PATCH 71/91] fix: the momenta of a GLE thermostat can be initialized

The thermostat was looked for in the ensemble, which has none, and array sizes were called as
functions, so that any <gle> initialization stopped with an error.
---
 ipi/engine/initializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/initializer.py b/ipi/engine/initializer.py
index 37cfa30..5764298 100644
--- a/ipi/engine/initializer.py
+++ b/ipi/engine/initializer.py
@@ -621,18 +621,18 @@ class Initializer:
 
             if k == "gle":
                 # read thermostat parameters from file
-                if not (hasattr(simul.ensemble, "thermostat")):
+                if not (hasattr(simul.motion, "thermostat")):
                     raise ValueError(
-                        "Ensemble does not have a thermostat to initialize"
+                        "Motion does not have a thermostat to initialize"
                     )
-                if not (hasattr(simul.ensemble.thermostat, "s")):
+                if not (hasattr(simul.motion.thermostat, "s")):
                     raise ValueError(
                         "There is nothing to initialize in non-GLE thermostats"
                     )
-                ssimul = simul.ensemble.thermostat.s
+                ssimul = simul.motion.thermostat.s
                 if v.mode == "manual":
                     sinput = v.value.copy()
-                    if sinput.size() != ssimul.size():
+                    if sinput.size != ssimul.size:
                         raise ValueError(
                             "Size mismatch in thermostat initialization data"
                         )
-- 
2.43.0


From 065b65f763e9c0b5ad76d3f539a26c445da983ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:22 +0000
Subject: [PATCH 72/91] fix: the kinetic energies of the beads can be read

---
 ipi/engine/beads.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipi/engine/beads.py b/ipi/engine/beads.py
index be569ad..5e41ec5 100644
--- a/ipi/engine/beads.py
+++ b/ipi/engine/beads.py
@@ -357,6 +357,7 @@ dproperties(
         "m3",
         "names",
         "sm3",
+        "kins",
         "kin",
         "kstress",
         "vpath",
-- 
2.43.0


From 7147f74d1dc809dbf45c567dadd9a89f7e6646d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:23 +0000
Subject: [PATCH 73/91] fix: spring forces between the beads follow changes of
 the masses

---
 ipi/engine/beads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/beads.py b/ipi/engine/beads.py
index 5e41ec5..8f5fff3 100644
--- a/ipi/engine/beads.py
+++ b/ipi/engine/beads.py
@@ -138,7 +138,7 @@ class Beads:
             name="fpath",
             value=np.zeros((nbeads, 3 * natoms), float),
             func=self.get_fpath,
-            dependencies=[self._q],
+            dependencies=[self._q, self._m3],
         )
 
         # create proxies to access the individual beads as Atoms objects
-- 
2.43.0


From a768d4a5f01c063a76905066c84055463cad3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:23 +0000
Subject: [PATCH 74/91] fix: the stress of the barostat follows changes of the
 masses and of the bias

---
 ipi/engine/barostats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/barostats.py b/ipi/engine/barostats.py
index 603bb47..1b51ec3 100644
--- a/ipi/engine/barostats.py
+++ b/ipi/engine/barostats.py
@@ -193,13 +193,16 @@ class Barostat:
         self._kstress = depend_value(
             name="kstress",
             func=self.get_kstress,
-            dependencies=[beads._q, beads._qc, beads._pc, forces._f],
+            dependencies=[beads._q, beads._qc, beads._pc, beads._m, forces._f],
         )
         self._stress = depend_value(
             name="stress",
             func=self.get_stress,
             dependencies=[self._kstress, cell._V, forces._vir],
         )
+        if bias is not None:
+            self._kstress.add_dependency(bias._f)
+            self._stress.add_dependency(bias._vir)
 
         self._pot = depend_value(name="pot", value=0.0)
 
-- 
2.43.0


From b23153867b20b578a3f555c90e71c2e5048dd2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:14 +0000
Subject: [PATCH 75/91] fix: constrained dynamics can be created again

---
 ipi/engine/motion/constrained_dynamics.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 3749d82..0c0f4ee 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -62,7 +62,7 @@ class ConstrainedDynamics(Dynamics):
         thermostat=None,
         barostat=None,
         fixcom=False,
-        fixatoms=None,
+        fixatoms_dof=None,
         nmts=None,
         nsteps_geo=1,
         nsteps_o=1,
@@ -77,7 +77,7 @@ class ConstrainedDynamics(Dynamics):
                 motion will be constrained or not. Defaults to False.
         """
 
-        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms=fixatoms)
+        super(Dynamics, self).__init__(fixcom=fixcom, fixatoms_dof=fixatoms_dof)
         self._dt = depend_value(name="dt", value=timestep)
 
         if thermostat is None:
@@ -137,11 +137,11 @@ class ConstrainedDynamics(Dynamics):
                 "Cannot simultaneously fix cell CoM and enforce Eckart constraints!"
             )
 
-        if fixatoms is None:
-            self.fixatoms = np.zeros(0, int)
+        if fixatoms_dof is None:
+            self.fixatoms_dof = np.zeros(0, int)
         else:
-            self.fixatoms = fixatoms
-        if len(self.fixatoms) > 0:
+            self.fixatoms_dof = fixatoms_dof
+        if len(self.fixatoms_dof) > 0:
             raise ValueError("Cannot fix atoms together with constrained MD")
 
         if csolver is None:
-- 
2.43.0


From d92e08c4f2061f854d7e0cbb31440646a292edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:05 +0000
Subject: [PATCH 76/91] fix: the constraint solver reports that it did not
 converge

---
 ipi/engine/motion/constrained_dynamics.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 0c0f4ee..6a10e56 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -307,11 +307,17 @@ class ConstraintSolver(ConstraintSolverBase):
             constr.q = q[ic]
 
             # iterative projection on the manifold
-            for i in range(self.maxit):
+            for i in range(self.maxit + 1):
                 g = dstrip(constr.g)
                 # bailout condition
                 if self.tolerance > np.linalg.norm(g, ord=self.norm_order):
                     break
+                if i == self.maxit:
+                    warning(
+                        "No convergence in Newton iteration for positional component",
+                        verbosity.low,
+                    )
+                    break
 
                 if spla is None:
                     dlambda = np.linalg.solve(gram, g)
@@ -323,12 +329,6 @@ class ConstraintSolver(ConstraintSolverBase):
 
                 p[ic] -= delta / self.dt
 
-            if i == self.maxit:
-                warning(
-                    "No convergence in Newton iteration for positional component",
-                    verbosity.low,
-                )
-
         # after all constraints have been applied, q is on the manifold and we can update the constraint positions
         for constr in self.constraint_list:
             constr.qprev = q[constr.i3_unique.flatten()]
-- 
2.43.0


From ed65b059088ae8874e198394d2ca41b417e75e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:35 +0000
Subject: [PATCH 77/91] fix: constrained dynamics uses the forces of the
 multiple time step levels and the bias

---
 ipi/engine/motion/constrained_dynamics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/constrained_dynamics.py b/ipi/engine/motion/constrained_dynamics.py
index 6a10e56..c7e0700 100644
--- a/ipi/engine/motion/constrained_dynamics.py
+++ b/ipi/engine/motion/constrained_dynamics.py
@@ -402,7 +402,11 @@ class NVEConstrainedIntegrator(ConstrainedIntegrator):
 
     def step_B(self, level=0):
         """Unconstrained B-step (momentum integration)"""
-        self.beads.p[0] += self.forces.forces_mts(level)[0] * self.pdt[level]
+        f = dstrip(self.forces.mts_forces[level].f)
+        if level == 0 and self.ensemble.has_bias:
+            # adds bias in the outer loop
+            f = f + dstrip(self.bias.f)
+        self.beads.p[0] += f[0] * self.pdt[level]
 
     def step_Bc(self, level=0):
         """Unconstrained B-step (momentum integration)
-- 
2.43.0


From 69b324ee49ae16eabf0eaed4f034057e14d877c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:35 +0000
Subject: [PATCH 78/91] fix: checkpoints of constrained dynamics with the
 infinity norm can be read

---
 ipi/inputs/motion/constrained_dynamics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/inputs/motion/constrained_dynamics.py b/ipi/inputs/motion/constrained_dynamics.py
index cd297b3..59d8459 100644
--- a/ipi/inputs/motion/constrained_dynamics.py
+++ b/ipi/inputs/motion/constrained_dynamics.py
@@ -63,7 +63,10 @@ class InputConstraintSolver(InputDictionary):
     def store(self, csolver):
         self.tolerance.store(csolver.tolerance)
         self.maxit.store(csolver.maxit)
-        self.norm_order.store(csolver.norm_order)
+        if csolver.norm_order == float("inf"):
+            self.norm_order.store(-1)
+        else:
+            self.norm_order.store(csolver.norm_order)
 
     def fetch(self):
         return super(InputConstraintSolver, self).fetch()
-- 
2.43.0


From 42c86f6df8fe42dfa40b39bcda29810e7eacaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:40 +0000
Subject: [PATCH 79/91] fix: the Gram matrix of the constraints follows changes
 of the masses

---
 ipi/utils/constrtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/utils/constrtools.py b/ipi/utils/constrtools.py
index e7c4343..1f06dc8 100644
--- a/ipi/utils/constrtools.py
+++ b/ipi/utils/constrtools.py
@@ -107,7 +107,7 @@ class ConstraintBase:
             name="Gram",
             value=np.zeros((self.ncons, self.ncons)),
             func=self.Gfunc,
-            dependencies=[self._Dg],
+            dependencies=[self._Dg, self._m3],
         )
         if spla is None:
             self._GramChol = depend_array(
-- 
2.43.0


From 7d4a4d1ccef7625fd0e079538517a42ef0ce485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 80/91] fix: headers announce all the columns of atom_x_path
 and atom_f_path

---
 ipi/engine/properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipi/engine/properties.py b/ipi/engine/properties.py
index 4ee2f4b..e67d7d5 100644
--- a/ipi/engine/properties.py
+++ b/ipi/engine/properties.py
@@ -989,6 +989,8 @@ class Properties:
         )  # lock to avoid concurrent access and messing up with dbeads
 
         self.property_dict["bead_potentials"]["size"] = self.beads.nbeads
+        self.property_dict["atom_x_path"]["size"] = 3 * self.beads.nbeads
+        self.property_dict["atom_f_path"]["size"] = 3 * self.beads.nbeads
         # self.properties_init()  # Initialize the properties here so that all
         # +all variables are accessible (for example to set
         # +the size of the hamiltonian_weights).
-- 
2.43.0


From 85e601c5bcd864c561586acfb6ec24911daa7d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 81/91] fix: the electric field acts for the whole time step
 with multiple time stepping

---
 ipi/engine/motion/driven_dynamics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/driven_dynamics.py b/ipi/engine/motion/driven_dynamics.py
index 82585bd..52ae7dc 100644
--- a/ipi/engine/motion/driven_dynamics.py
+++ b/ipi/engine/motion/driven_dynamics.py
@@ -122,7 +122,9 @@ class EDAIntegrator(DummyIntegrator):
             )
 
         edaforces = self.EDAforces(time)
-        self.beads.p += edaforces * self.pdt[level]
+        # the field acts for half of the whole time step on either side of the step,
+        # no matter how many times the outermost level is iterated
+        self.beads.p += edaforces * 0.5 * self.dt
         self.pconstraints()
 
         pass
-- 
2.43.0


From a639377d2c835271265f1b8341a2e50ea23292db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 82/91] fix: dipoles can be read from the text returned by the
 driver

---
 ipi/engine/motion/driven_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipi/engine/motion/driven_dynamics.py b/ipi/engine/motion/driven_dynamics.py
index 52ae7dc..437c0d5 100644
--- a/ipi/engine/motion/driven_dynamics.py
+++ b/ipi/engine/motion/driven_dynamics.py
@@ -383,8 +383,8 @@ class ElectricDipole:
                             "wrong number of extracted values from the extra string: they should be 3."
                         )
                     else:
-                        dipole[n] = float(factor) * np.asarray(matches)
-                    return dipole
+                        dipole[n] = float(factor) * np.asarray(matches, float)
+                return dipole
             else:
                 raise ValueError(
                     "Error in '_get_dipole': can not extract dipole from the extra string."
-- 
2.43.0


From e1bb195835dd419309268a31572fa02e5da28ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:51 +0000
Subject: [PATCH 83/91] fix: normal-mode phonons report the refined dynamical
 matrix

---
 ipi/engine/motion/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index fc9feb5..76bf941 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -420,7 +420,7 @@ class NMFDPhononCalculator(FDPhononCalculator):
         self.dm.refdynmatrix = np.dot(
             self.dm.U, np.dot(self.dm.refdynmatrix, np.transpose(self.dm.U))
         )
-        rdm = self.dm.dynmatrix.copy()
+        rdm = self.dm.refdynmatrix.copy()
         self.dm.refdynmatrix = 0.50 * (rdm + rdm.T)
 
 
-- 
2.43.0


From f030e20441612f302446022bb0695ec0eb6154dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:51 +0000
Subject: [PATCH 84/91] fix: the dynamical matrix is shifted before it is
 written

---
 ipi/engine/motion/phonons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index 76bf941..11ab0a7 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -108,7 +108,10 @@ class DynMatrixMover(Motion):
             self.phcalc.transform()
             self.refdynmatrix = self.apply_asr(self.refdynmatrix.copy())
             self.printall(
-                self.prefix, self.refdynmatrix.copy(), fixatoms_dof=self.fixatoms_dof
+                self.prefix,
+                self.refdynmatrix.copy(),
+                deltaw=self.deltaw,
+                fixatoms_dof=self.fixatoms_dof,
             )
             self.finish(
                 status="success",
-- 
2.43.0


From 882f0f9f3ea8a7bcd591abb81bc3a2e36d506aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:46 +0000
Subject: [PATCH 85/91] fix: rotations of symmetric and spherical tops are
 projected out of the dynamical matrix

---
 ipi/engine/motion/phonons.py | 4 ++--
 ipi/utils/hesstools.py       | 2 +-
 ipi/utils/phonontools.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/motion/phonons.py b/ipi/engine/motion/phonons.py
index 11ab0a7..4ddcfa7 100644
--- a/ipi/engine/motion/phonons.py
+++ b/ipi/engine/motion/phonons.py
@@ -221,7 +221,7 @@ class DynMatrixMover(Motion):
                     * self.m[k]
                 )
 
-            U = (np.linalg.eig(moi))[1]
+            U = (np.linalg.eigh(moi))[1]
             R = np.dot(qminuscom, U)
             D = np.zeros((3, 3 * self.beads.natoms), float)
 
@@ -259,7 +259,7 @@ class DynMatrixMover(Motion):
                     * self.m[k]
                 )
 
-            U = (np.linalg.eig(moi))[1]
+            U = (np.linalg.eigh(moi))[1]
             R = np.dot(qminuscom, U)
             D = np.zeros((6, 3 * self.beads.natoms), float)
 
diff --git a/ipi/utils/hesstools.py b/ipi/utils/hesstools.py
index 817e50c..daa0c72 100644
--- a/ipi/utils/hesstools.py
+++ b/ipi/utils/hesstools.py
@@ -78,7 +78,7 @@ def clean_hessian(h, q, natoms, nbeads, m, m3, asr, mofi=False):
                     * mm[k]
                 )
 
-            I, U = np.linalg.eig(moi)
+            I, U = np.linalg.eigh(moi)
             R = np.dot(qminuscom, U)
             D = np.zeros((6, 3 * ii), float)
 
diff --git a/ipi/utils/phonontools.py b/ipi/utils/phonontools.py
index fac05c2..de81514 100644
--- a/ipi/utils/phonontools.py
+++ b/ipi/utils/phonontools.py
@@ -26,7 +26,7 @@ def apply_asr(asr, dm, beads, return_trans_matrix=False):
             * m[k]
         )
 
-    U = (np.linalg.eig(moi))[1]
+    U = (np.linalg.eigh(moi))[1]
     R = np.dot(qminuscom, U)
 
     if asr == "crystal":
-- 
2.43.0


From 1aee721547ce120902df0389a3399c82233e9ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:44 +0000
Subject: [PATCH 86/91] fix: a chain of motions with a ramp keeps the
 constraints of its members

---
 ipi/engine/motion/ramp.py   | 8 ++++++--
 ipi/inputs/motion/motion.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ipi/engine/motion/ramp.py b/ipi/engine/motion/ramp.py
index 6226448..fcd58f6 100644
--- a/ipi/engine/motion/ramp.py
+++ b/ipi/engine/motion/ramp.py
@@ -35,7 +35,9 @@ class TemperatureRamp(Motion):
         Args:
         """
 
-        super(TemperatureRamp, self).__init__()
+        super(TemperatureRamp, self).__init__(
+            fixcom=fixcom, fixatoms_dof=fixatoms_dof
+        )
         self.t_start = t_start
         self.t_end = t_end
         self.total_steps = total_steps
@@ -86,7 +88,9 @@ class PressureRamp(Motion):
         Args:
         """
 
-        super(PressureRamp, self).__init__()
+        super(PressureRamp, self).__init__(
+            fixcom=fixcom, fixatoms_dof=fixatoms_dof
+        )
         self.p_start = p_start
         self.p_end = p_end
         self.total_steps = total_steps
diff --git a/ipi/inputs/motion/motion.py b/ipi/inputs/motion/motion.py
index fbffb5b..d3806df 100755
--- a/ipi/inputs/motion/motion.py
+++ b/ipi/inputs/motion/motion.py
@@ -426,9 +426,13 @@ class InputMotionBase(Input):
                 fixcom=fixcom, fixatoms_dof=fixatoms_dof, **self.planetary.fetch()
             )
         elif self.mode.fetch() == "t_ramp":
-            sc = TemperatureRamp(**self.t_ramp.fetch())
+            sc = TemperatureRamp(
+                fixcom=fixcom, fixatoms_dof=fixatoms_dof, **self.t_ramp.fetch()
+            )
         elif self.mode.fetch() == "p_ramp":
-            sc = PressureRamp(**self.p_ramp.fetch())
+            sc = PressureRamp(
+                fixcom=fixcom, fixatoms_dof=fixatoms_dof, **self.p_ramp.fetch()
+            )
         elif self.mode.fetch() == "al-kmc":
             sc = AlKMC(
                 fixcom=fixcom, fixatoms_dof=fixatoms_dof, **self.al6xxx_kmc.fetch()
-- 
2.43.0


From 0eec74fa20ad3a526f9338e7b713c5ab8f0ad9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:44 +0000
Subject: [PATCH 87/91] fix: a checkpoint can be replayed

---
 ipi/engine/motion/replay.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ipi/engine/motion/replay.py b/ipi/engine/motion/replay.py
index 35d7c83..5e6de10 100644
--- a/ipi/engine/motion/replay.py
+++ b/ipi/engine/motion/replay.py
@@ -11,7 +11,6 @@ from fnmatch import fnmatch
 
 from ipi.engine.motion import Motion
 from ipi.utils.io import read_file, read_file_raw
-from ipi.utils.io.inputs.io_xml import xml_parse_file
 from ipi.utils.units import unit_to_internal
 from ipi.utils.messages import verbosity, info
 
@@ -147,17 +146,13 @@ class Replay(Motion):
                         b.q[:] = myatoms.q
 
                 elif self.intraj.mode == "chk" or self.intraj.mode == "checkpoint":
-                    # TODO: Adapt the new `Simulation.load_from_xml`?
                     # reads configuration from a checkpoint file
-                    xmlchk = xml_parse_file(self.rfile)  # Parses the file.
+                    from ipi.engine.initializer import init_chk
 
-                    from ipi.inputs.simulation import InputSimulation
-
-                    simchk = InputSimulation()
-                    simchk.parse(xmlchk.fields[0][1])
-                    mycell = simchk.cell.fetch()
-                    mybeads = simchk.beads.fetch()
+                    mybeads, mycell, _ = init_chk(self.intraj.value)
                     self.beads.q[:] = mybeads.q
+                    if mycell.V > 0:
+                        self.cell.h[:] = mycell.h
                     self.finish(status="success", message=" # Read single checkpoint")
                     return
                 # do not assign cell if it contains an invalid value (typically missing cell in the input)
-- 
2.43.0


From d1373350de3504a1ac7979e59285fb924f402365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:46 +0000
Subject: [PATCH 88/91] fix: restart files keep the constraints of pressure
 ramps and replays

---
 ipi/inputs/motion/motion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipi/inputs/motion/motion.py b/ipi/inputs/motion/motion.py
index d3806df..3ad3a82 100755
--- a/ipi/inputs/motion/motion.py
+++ b/ipi/inputs/motion/motion.py
@@ -309,6 +309,7 @@ class InputMotionBase(Input):
         elif type(sc) is PressureRamp:
             self.mode.store("p_ramp")
             self.p_ramp.store(sc)
+            tsc = 1
         elif type(sc) is AlKMC:
             self.mode.store("al-kmc")
             self.al6xxx_kmc.store(sc)
@@ -318,7 +319,7 @@ class InputMotionBase(Input):
 
         if tsc == 0:
             self.file.store(sc.intraj)
-        elif tsc > 0:
+        if tsc >= 0:
             self.fixcom.store(sc.fixcom)
             self.fixatoms_dof.store(sc.fixatoms_dof)
 
-- 
2.43.0


From 422b336cb836af1dbcdeefe20010358ebe68901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:46 +0000
Subject: [PATCH 89/91] fix: the forces of the climbing image are the physical
 ones

---
 ipi/engine/motion/neb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/neb.py b/ipi/engine/motion/neb.py
index 295c52e..8886c4d 100644
--- a/ipi/engine/motion/neb.py
+++ b/ipi/engine/motion/neb.py
@@ -920,7 +920,7 @@ class NEBMover(Motion):
             # so that recalculation won't be triggered after the step.
             tmp_f = self.full_f.copy()
             tmp_v = self.full_v.copy()
-            tmp_f[self.cl_indx, self.climbgm.fixatoms_mask] = self.nebgrad
+            tmp_f[self.cl_indx] = dstrip(self.climbgm.rforces.f)[0]
             tmp_v[self.cl_indx] = self.nebpot
             self.forces.transfer_forces_manual(
                 new_q=[
-- 
2.43.0


From ccc2bcc79e37f679ab265df7f47787358cf97105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:46 +0000
Subject: [PATCH 90/91] fix: a climbing calculation can be restarted with its
 Hessian

---
 ipi/engine/motion/neb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipi/engine/motion/neb.py b/ipi/engine/motion/neb.py
index 8886c4d..efba4ac 100644
--- a/ipi/engine/motion/neb.py
+++ b/ipi/engine/motion/neb.py
@@ -467,7 +467,7 @@ class NEBMover(Motion):
                     self.hessian = self.hessian[
                         np.ix_(self.climbgm.fixatoms_mask, self.climbgm.fixatoms_mask)
                     ]
-                if self.hessian.size == 0:
+                elif self.hessian.size == 0:
                     info(
                         " @NEBMover: No climbing Hessian provided, "
                         "starting from unity matrix",
-- 
2.43.0


From 7fac2cc644743e27fd805541ffba473bbb122c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:11 +0000
Subject: [PATCH 91/91] fix: the climbing image is chosen once, also next to an
 image at the origin

---
 ipi/engine/motion/neb.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ipi/engine/motion/neb.py b/ipi/engine/motion/neb.py
index efba4ac..25e2f5f 100644
--- a/ipi/engine/motion/neb.py
+++ b/ipi/engine/motion/neb.py
@@ -241,8 +241,9 @@ class NEBClimbGrMapper(object):
         self.rbeads = Beads(ens.beads.natoms, 1)
         self.rcell = ens.cell.clone()
         # Coords of the bead before and after the climbing one.
-        self.q_prev = np.zeros(3 * ens.beads.natoms - len(ens.fixatoms_dof))
-        self.q_next = np.zeros(3 * ens.beads.natoms - len(ens.fixatoms_dof))
+        # They are known once climbing starts.
+        self.q_prev = None
+        self.q_next = None
         # Make reduced forces dependent on reduced beads
         self.rforces = ens.forces.clone(self.rbeads, self.rcell)
 
@@ -500,8 +501,12 @@ class NEBMover(Motion):
             self.finish(status="bad", message="ERROR: climbing bead is the endpoint.")
             return None
         self.climbgm.rbeads.q[:] = self.beads.q[cl_indx]
-        self.climbgm.q_prev[:] = self.beads.q[cl_indx - 1, self.climbgm.fixatoms_mask]
-        self.climbgm.q_next[:] = self.beads.q[cl_indx + 1, self.climbgm.fixatoms_mask]
+        self.climbgm.q_prev = dstrip(self.beads.q)[
+            cl_indx - 1, self.climbgm.fixatoms_mask
+        ].copy()
+        self.climbgm.q_next = dstrip(self.beads.q)[
+            cl_indx + 1, self.climbgm.fixatoms_mask
+        ].copy()
         info(
             "q_prev.shape: %s,    q_next.shape: %s"
             % (str(self.climbgm.q_prev.shape), str(self.climbgm.q_next.shape)),
@@ -835,7 +840,7 @@ class NEBMover(Motion):
             self.qtime = -time.time()
 
             # We need to initialize climbing once
-            if np.all(self.climbgm.q_prev == 0.0) or np.all(self.climbgm.q_next == 0.0):
+            if self.climbgm.q_prev is None or self.climbgm.q_next is None:
                 self.cl_indx = self.init_climb()
                 if self.finished:
                     return
-- 
2.43.0

