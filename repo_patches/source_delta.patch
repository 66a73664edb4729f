From cd47ae8e51fea39ce5d4f8a5518137c3f1aaea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 01/25] fix: refresh flow direction when pipe model variables
 are reused

Model variables were reused after another method had formatted inputs for a
different (reversed) mass flow rate, leaving the inlet and outlet legs of
single U-tube and coaxial pipes swapped.
---
 pygfunction/pipes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index c5ceb5e..9980e09 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -845,6 +845,10 @@ class _BasePipe(object):
         if (np.all(np.abs(m_flow_borehole*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and nSegments == stored_nSegments
             and check_ratios):
+            # Other methods may have formatted different inputs since the
+            # model variables were evaluated
+            self._format_inputs(
+                m_flow_borehole, cp_f, nSegments, segment_ratios)
             check = True
         else:
             self._update_model_variables(
-- 
2.43.0


From a72f1a075619cf23b0db0870538ddbceac0ed33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:53 +0000
Subject: [PATCH 02/25] fix: format inputs before evaluating network mixing
 coefficients

When the outlet temperature coefficients were already stored, the mixing
coefficients were evaluated with the flow rates of the previous call.
---
 pygfunction/networks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 8b5eb0b..e6cb2b1 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -848,6 +848,8 @@ class Network(object):
                 m_flow_network, cp_f, nSegments, segment_ratios=segment_ratios)
             # Coefficient matrices for network outlet temperature:
             # [T_{f,n,out}] = [a_in]*[T_{f,n,in}] + [a_b]*[T_{b}]
+            self._format_inputs(
+                m_flow_network, cp_f, nSegments, segment_ratios)
             mix_out = self._coefficients_mixing(m_flow_network)
             a_in = mix_out @ b_in
             a_b = mix_out @ b_b
-- 
2.43.0


From a57c9d847b4bb2bb352b51307b4e5bb1831741f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 03/25] fix: weight circuit outlets by the flow rate of their
 own circuit

The mixing coefficients assigned the flow rates of the circuits, ordered by
inlet, to the outlets ordered by borehole index. When the two orders differ
and circuits have different flow rates, the network outlet temperature did not
satisfy the energy balance of the network.
---
 pygfunction/networks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index e6cb2b1..e65cb4d 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1110,8 +1110,8 @@ class Network(object):
         """
         if not self._check_mixing_coefficients(m_flow_network):
             self._mix_out = np.zeros((1, self.nBoreholes))
-            self._mix_out[0, self.iOutlets] = \
-                np.abs(self._m_flow_in) / np.sum(np.abs(self._m_flow_in))
+            m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
+            self._mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
             self._mixing_m_flow = m_flow_network
         return self._mix_out
 
-- 
2.43.0


From 5148ef518c1e64374e2b13131bf21dc3d1a7246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:39 +0000
Subject: [PATCH 04/25] fix: distinguish total and per-circuit flow rates in
 stored coefficients

A total flow rate was considered equal to stored per-circuit flow rates of the
same value (or vice versa), and the wrong coefficients were returned.
---
 pygfunction/networks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index e65cb4d..3122cd6 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1151,6 +1151,7 @@ class Network(object):
         self._stored_coefficients = [() for _ in range(nMethods)]
         self._stored_m_flow_cp = [np.empty(self.nInlets)*np.nan
                                   for _ in range(nMethods)]
+        self._stored_m_flow_size = [0 for _ in range(nMethods)]
         self._stored_nSegments = [np.nan for _ in range(nMethods)]
         self._stored_segment_ratios = [np.nan for _ in range(nMethods)]
         self._m_flow_cp_model_variables = np.empty(self.nInlets)*np.nan
@@ -1185,6 +1186,7 @@ class Network(object):
             coefficients, method_id):
         self._stored_coefficients[method_id] = coefficients
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
+        self._stored_m_flow_size[method_id] = np.size(m_flow_network)
         self._stored_nSegments[method_id] = nSegments
         self._stored_segment_ratios[method_id] = segment_ratios
 
@@ -1197,7 +1199,8 @@ class Network(object):
 
     def _check_mixing_coefficients(self, m_flow_network, tol=1e-6):
         mixing_m_flow = self._mixing_m_flow
-        if np.all(np.abs(m_flow_network - mixing_m_flow) < np.abs(mixing_m_flow)*tol):
+        if (np.size(m_flow_network) == np.size(mixing_m_flow)
+            and np.all(np.abs(m_flow_network - mixing_m_flow) < np.abs(mixing_m_flow)*tol)):
             check = True
         else:
             check = False
@@ -1218,6 +1221,7 @@ class Network(object):
         else:
             check_ratios = False
         if (np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
+            and np.size(m_flow_network) == self._stored_m_flow_size[method_id]
             and nSegments == stored_nSegments and check_ratios):
             check = True
         else:
-- 
2.43.0


From 6c4c71282e753afc4a961b54cc27d1606761b7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 05/25] fix: keep copies of stored coefficients and of the
 inputs they depend on

Stored coefficients and the flow rates, numbers of segments and segment ratios
they are compared with were references to arrays owned by the caller. Changing
any of these arrays in place made later calls return wrong coefficients.
---
 pygfunction/networks.py | 14 ++++++++------
 pygfunction/pipes.py    | 12 +++++++-----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index 3122cd6..d80f45f 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from copy import deepcopy
 from typing import Union, List
 
 import numpy as np
@@ -1112,7 +1113,7 @@ class Network(object):
             self._mix_out = np.zeros((1, self.nBoreholes))
             m_flow_out = np.abs(self._m_flow_borehole[self.iOutlets])
             self._mix_out[0, self.iOutlets] = m_flow_out / np.sum(m_flow_out)
-            self._mixing_m_flow = m_flow_network
+            self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
     def _initialize_coefficients_connectivity(self):
@@ -1184,16 +1185,17 @@ class Network(object):
     def _set_stored_coefficients(
             self, m_flow_network, cp_f, nSegments, segment_ratios,
             coefficients, method_id):
-        self._stored_coefficients[method_id] = coefficients
+        # Stored values are copies that do not change with the caller's arrays
+        self._stored_coefficients[method_id] = deepcopy(coefficients)
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
         self._stored_m_flow_size[method_id] = np.size(m_flow_network)
-        self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        self._stored_nSegments[method_id] = deepcopy(nSegments)
+        self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
         return
 
     def _get_stored_coefficients(self, method_id):
-        coefficients = self._stored_coefficients[method_id]
+        coefficients = deepcopy(self._stored_coefficients[method_id])
 
         return coefficients
 
@@ -1590,7 +1592,7 @@ class _EquivalentNetwork(Network):
             wBoreholes = self.wBoreholes.flatten()
             self._mix_out[0, self.iOutlets] = \
                 m_flow_in * wBoreholes / np.sum(m_flow_in * wBoreholes)
-            self._mixing_m_flow = m_flow_network
+            self._mixing_m_flow = deepcopy(m_flow_network)
         return self._mix_out
 
     def _format_inputs(self, m_flow_network, cp_f, nSegments, segment_ratios):
diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 9980e09..1e25825 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 import warnings
+from copy import deepcopy
 from typing import Union
 
 import numpy as np
@@ -821,13 +822,14 @@ class _BasePipe(object):
 
     def _set_stored_coefficients(
             self, m_flow_borehole, cp_f, nSegments, segment_ratios, coefficients, method_id):
-        self._stored_coefficients[method_id] = coefficients
+        # Stored values are copies that do not change with the caller's arrays
+        self._stored_coefficients[method_id] = deepcopy(coefficients)
         self._stored_m_flow_cp[method_id] = m_flow_borehole*cp_f
-        self._stored_nSegments[method_id] = nSegments
-        self._stored_segment_ratios[method_id] = segment_ratios
+        self._stored_nSegments[method_id] = deepcopy(nSegments)
+        self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
     def _get_stored_coefficients(self, method_id):
-        coefficients = self._stored_coefficients[method_id]
+        coefficients = deepcopy(self._stored_coefficients[method_id])
         return coefficients
 
     def _check_model_variables(
@@ -855,7 +857,7 @@ class _BasePipe(object):
                 m_flow_borehole, cp_f, nSegments, segment_ratios)
             self._m_flow_cp_model_variables = m_flow_borehole*cp_f
             self._nSegments_model_variables = nSegments
-            self._segment_ratios_model_variables = segment_ratios
+            self._segment_ratios_model_variables = deepcopy(segment_ratios)
             check = False
 
         return check
-- 
2.43.0


From 2b92dd190815acaf11c2255fa0983c25c39e38d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:03 +0000
Subject: [PATCH 06/25] fix: keep copies of the inputs and results of the last
 thermal resistances

The saved inputs and results were references to objects owned by the caller.
Changing pipe positions in place returned the resistances of the old positions,
and changing a returned array changed the results of later calls.
---
 pygfunction/pipes.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 1e25825..0f65cc9 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2923,7 +2923,8 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
         R_fp = np.ones(n_p)*R_fp
     # Return saved outputs if inputs are the same as last call
     if _compare_thermal_resistances_inputs(pos, r_out, r_b, k_s, k_g, R_fp, J):
-        return _thermal_resistances_dict['R'], _thermal_resistances_dict['Rd']
+        return (_thermal_resistances_dict['R'].copy(),
+                _thermal_resistances_dict['Rd'].copy())
 
     R = np.zeros((n_p, n_p))
     if J == 0:
@@ -2967,15 +2968,15 @@ def thermal_resistances(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
     Rd = 1.0/K
 
     # Save outputs into dictionary
-    _thermal_resistances_dict['pos'] = pos
-    _thermal_resistances_dict['r_out'] = r_out
+    _thermal_resistances_dict['pos'] = deepcopy(pos)
+    _thermal_resistances_dict['r_out'] = deepcopy(r_out)
     _thermal_resistances_dict['r_b'] = r_b
     _thermal_resistances_dict['k_s'] = k_s
     _thermal_resistances_dict['k_g'] = k_g
-    _thermal_resistances_dict['R_fp'] = R_fp
+    _thermal_resistances_dict['R_fp'] = deepcopy(R_fp)
     _thermal_resistances_dict['J'] = J
-    _thermal_resistances_dict['R'] = R
-    _thermal_resistances_dict['Rd'] = Rd
+    _thermal_resistances_dict['R'] = deepcopy(R)
+    _thermal_resistances_dict['Rd'] = deepcopy(Rd)
     return R, Rd
 
 
-- 
2.43.0


From 334cafbcff774e9066e37e59fa6204600fc425c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 07/25] fix: use absolute flow rates in pipes with
 non-reversible flow

With reversible_flow=False, negative flow rates reversed the sign of the heat
extraction rates of single U-tube and coaxial pipes and of the model variables
of multiple U-tube pipes, although the direction of flow was not reversed.
---
 pygfunction/pipes.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 0f65cc9..7e4b9ae 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -1639,6 +1639,8 @@ class SingleUTube(_BasePipe):
         self._m_flow_in = m_flow_in
         # Mass flow rate in pipes
         m_flow_pipe = np.array([m_flow_borehole, -m_flow_borehole]).flatten()
+        if m_flow_borehole < 0. and not self.reversible_flow:
+            m_flow_pipe = -m_flow_pipe
         self._m_flow_pipe = m_flow_pipe
         # Flow direction
         self._is_reversed = m_flow_borehole < 0. and self.reversible_flow
@@ -2209,8 +2211,9 @@ class MultipleUTube(_BasePipe):
             m_flow_pipe = np.tile(
                 np.abs(m_flow_borehole),
                 self.nPipes)
-        self._m_flow_pipe = np.sign(m_flow_borehole) * np.concatenate(
-            (m_flow_pipe, -m_flow_pipe))
+        self._m_flow_pipe = np.concatenate((m_flow_pipe, -m_flow_pipe))
+        if self.reversible_flow:
+            self._m_flow_pipe = np.sign(m_flow_borehole) * self._m_flow_pipe
         # Mass flow rate in each fluid circuit
         m_flow_in = np.atleast_1d(m_flow_borehole)
         self._m_flow_in = m_flow_in
@@ -2487,7 +2490,8 @@ class IndependentMultipleUTube(MultipleUTube):
                 'Incorrect length of mass flow vector.')
         self._m_flow_in = m_flow_in
         # Mass flow rate in pipes
-        self._m_flow_pipe = np.concatenate((m_flow_in, -m_flow_in))
+        m_flow_pipe = m_flow_in if self.reversible_flow else np.abs(m_flow_in)
+        self._m_flow_pipe = np.concatenate((m_flow_pipe, -m_flow_pipe))
         # Flow direction
         self._is_reversed = np.logical_and(
             m_flow_borehole < 0.,
-- 
2.43.0


From f1333d269e8c45d479587231a931122c877e5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:54 +0000
Subject: [PATCH 08/25] fix: discard stored network coefficients when thermal
 resistances change

After update_thermal_resistances() of a pipe, networks built with this pipe
returned the coefficients of the previous thermal resistances.
---
 pygfunction/networks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygfunction/networks.py b/pygfunction/networks.py
index d80f45f..a20fe09 100644
--- a/pygfunction/networks.py
+++ b/pygfunction/networks.py
@@ -1153,6 +1153,7 @@ class Network(object):
         self._stored_m_flow_cp = [np.empty(self.nInlets)*np.nan
                                   for _ in range(nMethods)]
         self._stored_m_flow_size = [0 for _ in range(nMethods)]
+        self._stored_Rd = [None for _ in range(nMethods)]
         self._stored_nSegments = [np.nan for _ in range(nMethods)]
         self._stored_segment_ratios = [np.nan for _ in range(nMethods)]
         self._m_flow_cp_model_variables = np.empty(self.nInlets)*np.nan
@@ -1189,6 +1190,7 @@ class Network(object):
         self._stored_coefficients[method_id] = deepcopy(coefficients)
         self._stored_m_flow_cp[method_id] = m_flow_network*cp_f
         self._stored_m_flow_size[method_id] = np.size(m_flow_network)
+        self._stored_Rd[method_id] = [pipe._Rd for pipe in self.p]
         self._stored_nSegments[method_id] = deepcopy(nSegments)
         self._stored_segment_ratios[method_id] = deepcopy(segment_ratios)
 
@@ -1224,7 +1226,9 @@ class Network(object):
             check_ratios = False
         if (np.all(np.abs(m_flow_network*cp_f - stored_m_flow_cp) < np.abs(stored_m_flow_cp)*tol)
             and np.size(m_flow_network) == self._stored_m_flow_size[method_id]
-            and nSegments == stored_nSegments and check_ratios):
+            and nSegments == stored_nSegments and check_ratios
+            and all([pipe._Rd is Rd for pipe, Rd in zip(
+                self.p, self._stored_Rd[method_id])])):
             check = True
         else:
             check = False
-- 
2.43.0


From 867062e89ad42fd2c4d419c2ef39d625ccb2d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 09/25] fix: assign cluster labels in the order of the
 boreholes

The labels were listed group by group while they were read borehole by
borehole, so boreholes of different dimensions were merged into the same
equivalent borehole when the groups were interleaved in the bore field.
---
 pygfunction/solvers/equivalent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index f23943c..b3b1367 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -349,8 +349,8 @@ class Equivalent(_BaseSolver):
             data = np.sum(finite_line_source(np.inf, 1., self.boreholes, self.boreholes), axis=1).reshape(-1,1)
             # Split boreholes into groups of same dimensions
             unique_boreholes = self._find_unique_boreholes(self.boreholes)
-            # Initialize empty list of clusters
-            self.clusters = []
+            # Initialize list of clusters (in the order of the boreholes)
+            self.clusters = [0] * self.nBoreholes
             self.nEqBoreholes = 0
             for group in unique_boreholes:
                 if len(group) > 1:
@@ -381,11 +381,11 @@ class Equivalent(_BaseSolver):
                     # Cut the tree to find the borehole groups
                     clusters = cut_tree(
                         clusterization, n_clusters=nClusters)
-                    self.clusters = self.clusters + \
-                        [label + self.nEqBoreholes for label in clusters]
+                    for n, label in zip(group, clusters.flatten()):
+                        self.clusters[n] = label + self.nEqBoreholes
                 else:
                     nClusters = 1
-                    self.clusters.append(self.nEqBoreholes)
+                    self.clusters[group[0]] = self.nEqBoreholes
                 self.nEqBoreholes += nClusters
         else:
             self.nEqBoreholes = self.nBoreholes
-- 
2.43.0


From 24afec86bd34afb53be2955f8ce9143151c92a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 10/25] fix: evaluate a single inclined borehole as inclined

The method is_vertical was not called, and a field of a single inclined
borehole was always evaluated as vertical by the similarities solver.
---
 pygfunction/solvers/similarities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 887d144..afae56a 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -921,7 +921,7 @@ class Similarities(_BaseSolver):
 
         else:
             # Outputs for a single borehole
-            if boreholes[0].is_vertical:
+            if boreholes[0].is_vertical():
                 borehole_to_self_vertical = [[0]]
                 borehole_to_self_inclined = []
             else:
-- 
2.43.0


From 664a843d0176ce3f21960bbecc81d137ad6dddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 11/25] fix: offset inclined segment pairs by the number of
 unique pairs

Indices into the concatenated response factors were offset by the total number
of segment pairs of a group instead of the number of unique pairs, which fails
or picks the wrong response factors when segment pairs are similar (as for
horizontal boreholes).
---
 pygfunction/solvers/similarities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index afae56a..ed01634 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -369,7 +369,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += len(H1_i)
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
@@ -448,7 +448,7 @@ class Similarities(_BaseSolver):
             i_segment = np.append(i_segment, i_segment_i)
             j_segment = np.append(j_segment, j_segment_i)
             k_segment = np.append(k_segment, k_segment_i + k0)
-            k0 += len(k_pair)
+            k0 += len(H1_i)
         # Evaluate FLS at all time steps
         h = finite_line_source_inclined_vectorized(
             time, alpha, rb1, x1, y1, H1, D1, tilt1, orientation1,
-- 
2.43.0


From cb2dd1085601ba1d8b0d4963cadd4a16dcf81de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 12/25] fix: require equal relative orientations of similar
 inclined pairs

The comparisons of real-only and image-only inclined pairs had the opposite
sense, accepting pairs only when their relative orientations differ.
---
 pygfunction/solvers/similarities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index ed01634..7f21e22 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -709,8 +709,8 @@ class Similarities(_BaseSolver):
         sin_b1_cos_dt1_2 = np.sin(pair2[0].tilt) * np.cos(theta_12_2 - pair2[0].orientation)
         sin_b2_cos_dt2_2 = np.sin(pair2[1].tilt) * np.cos(theta_12_2 - pair2[1].orientation)
         cond_theta = (
-            abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) > self.tol
-            and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) > self.tol)
+            abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) < self.tol
+            and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol)
         if cond_H and cond_deltaD and cond_dis and cond_beta and cond_theta:
             similarity = True
         else:
@@ -757,8 +757,8 @@ class Similarities(_BaseSolver):
         sin_b1_cos_dt1_2 = np.sin(pair2[0].tilt) * np.cos(theta_12_2 - pair2[0].orientation)
         sin_b2_cos_dt2_2 = np.sin(pair2[1].tilt) * np.cos(theta_12_2 - pair2[1].orientation)
         cond_theta = (
-            abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) > self.tol
-            and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) > self.tol)
+            abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) < self.tol
+            and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol)
         if cond_H and cond_sumD and cond_dis and cond_beta and cond_theta:
             similarity = True
         else:
-- 
2.43.0


From e13116a29c4f2e5385ac405d6d32b9b092405b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 13/25] fix: compare the angle between boreholes of inclined
 pairs

The orientations relative to the line joining the boreholes were compared
through their cosines, which does not distinguish boreholes tilted towards the
same side from boreholes tilted towards opposite sides.
---
 pygfunction/solvers/similarities.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pygfunction/solvers/similarities.py b/pygfunction/solvers/similarities.py
index 7f21e22..79ea990 100644
--- a/pygfunction/solvers/similarities.py
+++ b/pygfunction/solvers/similarities.py
@@ -708,9 +708,12 @@ class Similarities(_BaseSolver):
         sin_b2_cos_dt2_1 = np.sin(pair1[1].tilt) * np.cos(theta_12_1 - pair1[1].orientation)
         sin_b1_cos_dt1_2 = np.sin(pair2[0].tilt) * np.cos(theta_12_2 - pair2[0].orientation)
         sin_b2_cos_dt2_2 = np.sin(pair2[1].tilt) * np.cos(theta_12_2 - pair2[1].orientation)
+        sin_b1_sin_b2_cos_dt12_1 = np.sin(pair1[0].tilt) * np.sin(pair1[1].tilt) * np.cos(pair1[0].orientation - pair1[1].orientation)
+        sin_b1_sin_b2_cos_dt12_2 = np.sin(pair2[0].tilt) * np.sin(pair2[1].tilt) * np.cos(pair2[0].orientation - pair2[1].orientation)
         cond_theta = (
             abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) < self.tol
-            and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol)
+            and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol
+            and abs(sin_b1_sin_b2_cos_dt12_1 - sin_b1_sin_b2_cos_dt12_2) / (abs(sin_b1_sin_b2_cos_dt12_1) + 1e-30) < self.tol)
         if cond_H and cond_deltaD and cond_dis and cond_beta and cond_theta:
             similarity = True
         else:
@@ -756,9 +759,12 @@ class Similarities(_BaseSolver):
         sin_b2_cos_dt2_1 = np.sin(pair1[1].tilt) * np.cos(theta_12_1 - pair1[1].orientation)
         sin_b1_cos_dt1_2 = np.sin(pair2[0].tilt) * np.cos(theta_12_2 - pair2[0].orientation)
         sin_b2_cos_dt2_2 = np.sin(pair2[1].tilt) * np.cos(theta_12_2 - pair2[1].orientation)
+        sin_b1_sin_b2_cos_dt12_1 = np.sin(pair1[0].tilt) * np.sin(pair1[1].tilt) * np.cos(pair1[0].orientation - pair1[1].orientation)
+        sin_b1_sin_b2_cos_dt12_2 = np.sin(pair2[0].tilt) * np.sin(pair2[1].tilt) * np.cos(pair2[0].orientation - pair2[1].orientation)
         cond_theta = (
             abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) < self.tol
-            and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol)
+            and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol
+            and abs(sin_b1_sin_b2_cos_dt12_1 - sin_b1_sin_b2_cos_dt12_2) / (abs(sin_b1_sin_b2_cos_dt12_1) + 1e-30) < self.tol)
         if cond_H and cond_sumD and cond_dis and cond_beta and cond_theta:
             similarity = True
         else:
@@ -811,9 +817,12 @@ class Similarities(_BaseSolver):
         sin_b2_cos_dt2_1 = np.sin(pair1[1].tilt) * np.cos(theta_12_1 - pair1[1].orientation)
         sin_b1_cos_dt1_2 = np.sin(pair2[0].tilt) * np.cos(theta_12_2 - pair2[0].orientation)
         sin_b2_cos_dt2_2 = np.sin(pair2[1].tilt) * np.cos(theta_12_2 - pair2[1].orientation)
+        sin_b1_sin_b2_cos_dt12_1 = np.sin(pair1[0].tilt) * np.sin(pair1[1].tilt) * np.cos(pair1[0].orientation - pair1[1].orientation)
+        sin_b1_sin_b2_cos_dt12_2 = np.sin(pair2[0].tilt) * np.sin(pair2[1].tilt) * np.cos(pair2[0].orientation - pair2[1].orientation)
         cond_theta = (
             abs(sin_b1_cos_dt1_1 - sin_b1_cos_dt1_2) / (abs(sin_b1_cos_dt1_1) + 1e-30) < self.tol
-            and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol)
+            and abs(sin_b2_cos_dt2_1 - sin_b2_cos_dt2_2) / (abs(sin_b2_cos_dt2_1) + 1e-30) < self.tol
+            and abs(sin_b1_sin_b2_cos_dt12_1 - sin_b1_sin_b2_cos_dt12_2) / (abs(sin_b1_sin_b2_cos_dt12_1) + 1e-30) < self.tol)
         if cond_H and cond_D and cond_dis and cond_beta and cond_theta:
             similarity = True
         else:
-- 
2.43.0


From 4600dc9131b0533f1fa05aa6330a620c4c6bfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 14/25] fix: use the same radial distance for mirror inclined
 line sources

The mirror part of the combined response limited the radial distance to the
borehole radius while the mirror-only response (and the steady-state solution)
do not, and the real and mirror responses did not add up for sources closer
than the borehole radius.
---
 pygfunction/heat_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/heat_transfer.py b/pygfunction/heat_transfer.py
index 55f3cf9..2af6fc3 100644
--- a/pygfunction/heat_transfer.py
+++ b/pygfunction/heat_transfer.py
@@ -1229,7 +1229,7 @@ def _finite_line_source_inclined_integrand(
             ((H1 / s * (
                 np.exp(-(rr + dzRea**2) * s**2 + s**2 * (u**2 * H1**2 * (kRea_0**2 - 1) + 2 * u * H1 * (kRea_0 * kRea_2 - kRea_1) + kRea_2**2)) \
                     * (erf((u *  H1 * kRea_0 + kRea_2) * s) - erf((u * H1 * kRea_0 + kRea_2 - H2) * s))
-                - np.exp(-(rr + dzImg**2) * s**2 + s**2 * (u**2 * H1**2 * (kImg_0**2 - 1) + 2 * u * H1 * (kImg_0 * kImg_2 - kImg_1) + kImg_2**2)) \
+                - np.exp(-(dx**2 + dy**2 + dzImg**2) * s**2 + s**2 * (u**2 * H1**2 * (kImg_0**2 - 1) + 2 * u * H1 * (kImg_0 * kImg_2 - kImg_1) + kImg_2**2)) \
                     * (erf((u *  H1 * kImg_0 + kImg_2) * s) - erf((u * H1 * kImg_0 + kImg_2 - H2) * s)))).T @ w).T
     elif reaSource:
         # Real FLS solution
-- 
2.43.0


From 1f8c36dfdab6e335247b6fa8268bb65291946d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 15/25] fix: linearize g-functions for multiple mass flow rates

The values at the threshold were broadcast over the wrong axis, which raises
an error or mixes mass flow rates when the g-function is evaluated for
multiple mass flow rates at times below the linearization threshold.
---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index e73eb2f..250bb3c 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -444,7 +444,7 @@ class _BaseSolver:
 
             # Linearize g-function for times under threshold
             if p_long > 0:
-                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1] * self.time[:p_long] / time_threshold
+                gFunc[:,:,:p_long] = gFunc[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
                 Q_b[:,:,:p_long] = 1 + (Q_b[:,:,p_long-1:p_long] - 1) * self.time[:p_long] / time_threshold
                 T_b[:,:,:p_long] = T_b[:,:,p_long-1:p_long] * self.time[:p_long] / time_threshold
             if self.nMassFlow == 0:
-- 
2.43.0


From 5185b883afd2f88ee05b4883054fc67e1ba702ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 16/25] fix: accept mass flow rates per borehole in the
 equivalent solver

The flow rates were compared along the wrong axis using an attribute that is
not yet defined, and the total flow rate was written to the network provided
by the user instead of being used by the solver.
---
 pygfunction/solvers/equivalent.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pygfunction/solvers/equivalent.py b/pygfunction/solvers/equivalent.py
index b3b1367..21d9843 100644
--- a/pygfunction/solvers/equivalent.py
+++ b/pygfunction/solvers/equivalent.py
@@ -828,15 +828,12 @@ class Equivalent(_BaseSolver):
                 "Solver 'equivalent' is only valid for parallel-connected " \
                 "boreholes."
             assert (self.m_flow_borehole is None
-                    or (self.m_flow_borehole.ndim==1 and np.allclose(self.m_flow_borehole, self.m_flow_borehole[0]))
-                    or (self.m_flow_borehole.ndim==2 and np.all([np.allclose(self.m_flow_borehole[:, i], self.m_flow_borehole[0, i]) for i in range(self.nBoreholes)]))), \
+                    or np.all([np.allclose(m_flow, m_flow[0]) for m_flow in self.m_flow_borehole])), \
                 "Mass flow rates into the network must be equal for all " \
                 "boreholes."
             # Use the total network mass flow rate.
-            if (type(self.network.m_flow_network) is np.ndarray and \
-                len(self.network.m_flow_network)==len(self.network.b)):
-                self.network.m_flow_network = \
-                    self.network.m_flow_network[0]*len(self.network.b)
+            if self.m_flow_borehole is not None:
+                self.m_flow = np.sum(self.m_flow_borehole, axis=1)
             # Verify that all boreholes have the same piping configuration
             # This is best done by comparing the matrix of thermal resistances.
             assert np.all(
-- 
2.43.0


From 82802a24aecb68c540baed1ed2f38673f3bf936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 17/25] fix: reject invalid radii and resistances of coaxial
 pipes

Negative radii and thermal resistances, and an outer pipe that extends outside
of the borehole, were accepted.
---
 pygfunction/pipes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygfunction/pipes.py b/pygfunction/pipes.py
index 7e4b9ae..c1a54f5 100644
--- a/pygfunction/pipes.py
+++ b/pygfunction/pipes.py
@@ -2737,18 +2737,18 @@ class Coaxial(SingleUTube):
             raise ValueError(
                 f'The grout thermal conductivity must be greater than zero. '
                 f'A value of {self.k_g} was provided.')
-        if not np.all(self.R_ff) >= 0.:
+        if not np.all(np.greater_equal(self.R_ff, 0.)):
             raise ValueError(
                 f'The fluid to fluid thermal resistance must be'
                 f'greater or equal to zero. '
                 f'A value of {self.R_ff} was provided.')
-        if not np.all(self.R_fp) > 0.:
+        if not np.all(np.greater(self.R_fp, 0.)):
             raise ValueError(
                 f'The fluid to outer pipe wall thermal resistance must be'
                 f'greater than zero. A value of {self.R_fp} was provided.')
 
         # Verify that the pipe radius is greater than zero.
-        if not np.all(self.r_in) > 0.:
+        if not np.all(np.greater(self.r_in, 0.)):
             raise ValueError(
                 f'The pipe inner radius must be greater than zero. '
                 f'A value of {self.r_in} was provided.')
@@ -2777,7 +2777,7 @@ class Coaxial(SingleUTube):
         for i in range(len(self.pos)):
             r_pipe = np.sqrt(self.pos[i][0]**2 + self.pos[i][1]**2)
             radii = r_pipe + self.r_out
-            if not np.any(np.greater_equal(self.b.r_b, radii)):
+            if not np.all(np.greater_equal(self.b.r_b, radii)):
                 raise ValueError(
                     f'Pipes must be entirely contained within the borehole. '
                     f'Pipe {i} is partly or entirely outside the '
-- 
2.43.0


From 77b0092e9c832fef2745d085e1f8ebf611e55eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 18/25] fix: reject lists of segment numbers of the wrong
 length

The length of the list was compared to itself.
---
 pygfunction/solvers/_base_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/solvers/_base_solver.py b/pygfunction/solvers/_base_solver.py
index 250bb3c..95fac4a 100644
--- a/pygfunction/solvers/_base_solver.py
+++ b/pygfunction/solvers/_base_solver.py
@@ -604,7 +604,7 @@ class _BaseSolver:
             "Time should be a float or an array."
         # self.nSegments can now be an int or list
         assert type(self.nBoreSegments) is list and len(self.nBoreSegments) == \
-               len(self.nBoreSegments) and min(self.nBoreSegments) >= 1, \
+               len(self.boreholes) and min(self.nBoreSegments) >= 1, \
             "The argument for number of segments `nSegments` should be " \
             "of type int or a list of integers. If passed as a list, the " \
             "length of the list should be equal to the number of boreholes" \
-- 
2.43.0


From 35aa1d648addf2e43dde503632c2bc605dc934d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 19/25] fix: use the fluid temperature given to
 gFunction.from_static_params

The heat capacity of the fluid was always evaluated at 20 degC, whatever the
value of fluid_temperature used for the pipes.
---
 pygfunction/gfunction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 0edad34..05d23d2 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -425,7 +425,8 @@ class gFunction(object):
 
         if boundary_condition.upper() == 'MIFT':
             boreholes = borefield.to_boreholes()
-            cp_f = Fluid(fluid_str, fluid_concentration_pct).cp
+            cp_f = Fluid(
+                fluid_str, fluid_concentration_pct, fluid_temperature).cp
             boreholes_or_network= Network.from_static_params(
                 boreholes,
                 pipe_type_str,
-- 
2.43.0


From 05fe8549203c1bbe7b07e81b946060b2ab8d806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 20/25] fix: use the flow rate and heat capacity given to
 mixed_inlet_temperature

The arguments were ignored and replaced by the values stored in the network,
if any.
---
 pygfunction/gfunction.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 05d23d2..915d509 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1931,8 +1931,16 @@ def mixed_inlet_temperature(
     else:
         method='detailed'
     # Evaluate g-function
+    if np.size(m_flow_network) == 1:
+        m_flow_borehole = None
+        m_flow_network = np.asarray(m_flow_network, dtype=float).item()
+    else:
+        m_flow_borehole = np.asarray(m_flow_network)
+        m_flow_network = None
     gFunc = gFunction(
         network, alpha, time=time, method=method,
-        boundary_condition=boundary_condition, options=options)
+        boundary_condition=boundary_condition,
+        m_flow_borehole=m_flow_borehole, m_flow_network=m_flow_network,
+        cp_f=cp_f, options=options)
 
     return gFunc.gFunc
-- 
2.43.0


From 798a06a2c08c331a88762d15f52707b671f820e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 21/25] fix: do not scale mass flow rates given per borehole

An array of mass flow rates per borehole was multiplied by the number of
boreholes in equal_inlet_temperature.
---
 pygfunction/gfunction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygfunction/gfunction.py b/pygfunction/gfunction.py
index 915d509..cceca2e 100644
--- a/pygfunction/gfunction.py
+++ b/pygfunction/gfunction.py
@@ -1786,9 +1786,9 @@ def equal_inlet_temperature(
                   "Use the `pygfunction.gfunction.gFunction` class instead.",
                   DeprecationWarning)
 
-    network = Network(
-        boreholes, UTubes, m_flow_network=m_flow_borehole*len(boreholes),
-        cp_f=cp_f, nSegments=nSegments)
+    # Mass flow rates into each of the boreholes
+    m_flow_borehole = np.full(len(boreholes), m_flow_borehole, dtype=float)
+    network = Network(boreholes, UTubes)
     boundary_condition = 'MIFT'
     # Build options dict
     options = {'nSegments':nSegments,
@@ -1807,7 +1807,8 @@ def equal_inlet_temperature(
     # Evaluate g-function
     gFunc = gFunction(
         network, alpha, time=time, method=method,
-        boundary_condition=boundary_condition, options=options)
+        boundary_condition=boundary_condition,
+        m_flow_borehole=m_flow_borehole, cp_f=cp_f, options=options)
 
     return gFunc.gFunc
 
-- 
2.43.0


From 1a6ebdcfa949b30b8be9fa056571564969b270e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:39 +0000
Subject: [PATCH 22/25] fix: find_duplicates: use flat indices of the pairs

np.argwhere returns one row per pair, and int() of a one-element array
raises a TypeError, so that duplicates were never returned.
---
 pygfunction/boreholes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 330ed4b..c122424 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -645,7 +645,7 @@ def find_duplicates(boreField, disp=False):
     # Find distance between each pair of boreholes
     distances = pdist(coordinates, 'euclidean')
     # Find duplicate boreholes
-    duplicate_index = np.argwhere(distances < r_b)
+    duplicate_index = np.flatnonzero(distances < r_b)
     i = n - 2 - np.floor(
         np.sqrt(-8 * duplicate_index + 4 * n * (n - 1) - 7) / 2 - 0.5)
     j = duplicate_index + i + 1 - n * (n - 1) / 2 + (n - i) * ((n - i) - 1) / 2
-- 
2.43.0


From e1f7b6099814e53ae8ecc1cc555b05326f39d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:03 +0000
Subject: [PATCH 23/25] fix: staggered_rectangle_field: lean away from the
 center of the rectangle

The default origin did not account for the offset of the staggered rows when
the last borehole is included, and accounted for it when it is not.
---
 pygfunction/boreholes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index c122424..05132b5 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -853,11 +853,11 @@ def staggered_rectangle_field(
         # When no origin is supplied, compute the origin to be at the center of
         # the rectangle
         if include_last_borehole:
-            x0 = (N_1 - 1) / 2 * B_1
+            x0 = (N_1 - 0.5) / 2 * B_1
             y0 = (N_2 - 1) / 2 * B_2
         else:
-            x0 = (N_1 - 0.5) / 2 * B_1
-            y0 = (N_2 - 0.5) / 2 * B_2
+            x0 = (N_1 - 1) / 2 * B_1
+            y0 = (N_2 - 1) / 2 * B_2
     else:
         x0, y0 = origin
 
-- 
2.43.0


From de1b5248fa140018ffaadc646aa72cfeaf5c5c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:34 +0000
Subject: [PATCH 24/25] fix: box_shaped_field: number the boreholes as
 documented

The boreholes of the first and last rows were interleaved.
---
 pygfunction/boreholes.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 05132b5..094ab97 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -1233,8 +1233,9 @@ def box_shaped_field(N_1, N_2, B_1, B_2, H, D, r_b, tilt=0, origin=None):
                         H, D, r_b, x, y, tilt=tilt, orientation=orientation))
             else:
                 borefield.append(Borehole(H, D, r_b, x, y))
-            x = i * B_1
-            y = (N_2 - 1) * B_2
+        for j in range(1, N_2-1):
+            x = 0.
+            y = j * B_2
             # The borehole is inclined only if it does not lie on the origin
             if np.sqrt((x - x0)**2 + (y - y0)**2) > r_b:
                 orientation = np.arctan2(y - y0, x - x0)
@@ -1243,8 +1244,7 @@ def box_shaped_field(N_1, N_2, B_1, B_2, H, D, r_b, tilt=0, origin=None):
                         H, D, r_b, x, y, tilt=tilt, orientation=orientation))
             else:
                 borefield.append(Borehole(H, D, r_b, x, y))
-        for j in range(1, N_2-1):
-            x = 0.
+            x = (N_1 - 1) * B_1
             y = j * B_2
             # The borehole is inclined only if it does not lie on the origin
             if np.sqrt((x - x0)**2 + (y - y0)**2) > r_b:
@@ -1254,8 +1254,9 @@ def box_shaped_field(N_1, N_2, B_1, B_2, H, D, r_b, tilt=0, origin=None):
                         H, D, r_b, x, y, tilt=tilt, orientation=orientation))
             else:
                 borefield.append(Borehole(H, D, r_b, x, y))
-            x = (N_1 - 1) * B_1
-            y = j * B_2
+        for i in range(N_1):
+            x = i * B_1
+            y = (N_2 - 1) * B_2
             # The borehole is inclined only if it does not lie on the origin
             if np.sqrt((x - x0)**2 + (y - y0)**2) > r_b:
                 orientation = np.arctan2(y - y0, x - x0)
-- 
2.43.0


From dc1784dcf83d3f9b9565738e3133625a504a12be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:37 +0000
Subject: [PATCH 25/25] fix: _EquivalentBorehole: vertical boreholes when given
 without tilt

The documented form (H, D, r_b, x, y) raised an AttributeError.
---
 pygfunction/boreholes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygfunction/boreholes.py b/pygfunction/boreholes.py
index 094ab97..d4de24e 100644
--- a/pygfunction/boreholes.py
+++ b/pygfunction/boreholes.py
@@ -363,6 +363,10 @@ class _EquivalentBorehole(object):
             self.y = np.atleast_1d(self.y)
             if len(boreholes)==7:
                 self.tilt, self.orientation = boreholes[5:]
+            else:
+                # Vertical boreholes
+                self.tilt = 0.
+                self.orientation = np.zeros(len(self.x))
 
         self.nBoreholes = len(self.x)
         # Check if borehole is inclined
-- 
2.43.0

