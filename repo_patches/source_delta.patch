From 23f9480ddfb8d12f55feb4585c683ed4fa61a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 01/54] fix: keep shapes when standardizing a model that
 vanishes entirely

---
 elphmod/el.py   | 5 +++--
 elphmod/elel.py | 5 +++--
 elphmod/ph.py   | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 4fe9485..6e34c64 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -559,8 +559,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells],
+                dtype=self.data.dtype).reshape((-1, *self.data.shape[1:]))
 
             if symmetrize:
                 self.data /= 2
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 9425112..af14466 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -249,8 +249,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells],
+                dtype=self.data.dtype).reshape((-1, *self.data.shape[1:]))
         else:
             count = None
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0a7ba49..327dfd8 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -882,8 +882,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells],
+                dtype=self.data.dtype).reshape((-1, *self.data.shape[1:]))
 
             if symmetrize:
                 self.data /= 2
-- 
2.43.0


From 8412b4fdcd9760e64ed5f0a979a7c5af0e652e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 02/54] fix: allocate k lattice vectors of standardized
 coupling with their own number

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0d8b5b5..01b860c 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -624,7 +624,7 @@ class Model:
         if nk <= len(self.Rk):
             self.Rk = self.Rk[:nk]
         else:
-            self.Rk = np.empty((ng, 3), dtype=int)
+            self.Rk = np.empty((nk, 3), dtype=int)
 
         shape = ng, self.ph.size, nk, self.el.size, self.el.size
 
-- 
2.43.0


From fb987ebf917ebd10d0a21aa24c1dc50f3cc85351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 03/54] fix: discard buffered coupling of previous data after
 elph.q2r

---
 elphmod/elph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 01b860c..69426b0 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1089,6 +1089,12 @@ def q2r(elph, nq, nk, g, r=None, divide_mass=True, shared_memory=False):
     if elph.node.rank == 0:
         elph.images.Bcast(elph.data.view(dtype=float))
 
+    elph.q = None
+    elph.gq = np.empty((elph.ph.size, len(elph.Rk),
+        elph.el.size, elph.el.size), dtype=complex)
+
+    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
+
     comm.Barrier()
 
 def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
-- 
2.43.0


From 6d8882ffc24a866574532367121a1a5fae57b5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 04/54] fix: discard buffered coupling after acoustic sum rule
 correction

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 69426b0..c45a8cf 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -708,6 +708,8 @@ class Model:
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
+        self.q = None
+
         comm.Barrier()
 
     def decay_epmate(self):
-- 
2.43.0


From dfe4be8f47756cac0a2c7e9e17c19e3ad842563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 05/54] fix: sum entries with the same lattice vector when
 mapping models onto supercells

---
 elphmod/el.py   | 2 +-
 elphmod/elel.py | 2 +-
 elphmod/elph.py | 2 +-
 elphmod/ph.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 6e34c64..5254bf7 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -371,7 +371,7 @@ class Model:
                     if R not in const:
                         const[R] = np.zeros((el.size, el.size), dtype=complex)
 
-                    const[R][A:A + self.size, B:B + self.size] = self.data[n]
+                    const[R][A:A + self.size, B:B + self.size] += self.data[n]
 
                 status.update()
 
diff --git a/elphmod/elel.py b/elphmod/elel.py
index af14466..b8a38ab 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -188,7 +188,7 @@ class Model:
                         const[R] = np.zeros((elel.size, elel.size),
                             dtype=complex)
 
-                    const[R][A:A + self.size, B:B + self.size] = self.data[n]
+                    const[R][A:A + self.size, B:B + self.size] += self.data[n]
 
                 status.update()
 
diff --git a/elphmod/elph.py b/elphmod/elph.py
index c45a8cf..e66959f 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -487,7 +487,7 @@ class Model:
                     const[R][
                         X:X + self.ph.size,
                         A:A + self.el.size,
-                        B:B + self.el.size] = self.data[g, :, k]
+                        B:B + self.el.size] += self.data[g, :, k]
 
                 status.update()
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 327dfd8..58fba07 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -650,7 +650,7 @@ class Model:
                     if R not in const:
                         const[R] = np.zeros((ph.size, ph.size))
 
-                    const[R][X:X + self.size, Y:Y + self.size] = self.data[n]
+                    const[R][X:X + self.size, Y:Y + self.size] += self.data[n]
 
                 status.update()
 
-- 
2.43.0


From 043703e83bed135593140f24c1219febc921d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:40 +0000
Subject: [PATCH 06/54] fix: keep unit and flags and respect order of cells in
 el.Model.unit_cell

---
 elphmod/el.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 5254bf7..fec0c3c 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -414,24 +414,32 @@ class Model:
         el = Model()
         el.size = self.size // len(self.cells)
 
+        el.divide_ndegen = self.divide_ndegen
+        el.rydberg = self.rydberg
+
         if comm.rank == 0:
             const = dict()
 
             status = elphmod.misc.StatusBar(len(self.R),
                 title='map hoppings back to unit cell')
 
+            origin = list(map(tuple, self.cells)).index((0, 0, 0))
+            A = origin * el.size
+
             for n in range(len(self.R)):
                 for i, cell in enumerate(self.cells):
-                    t = self.data[n, :el.size, i * el.size:(i + 1) * el.size]
+                    B = i * el.size
+                    t = self.data[n, A:A + el.size, B:B + el.size]
 
                     if np.any(t != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-                        const[R] = t
+                        const[R] = const.get(R, 0) + t
 
                 status.update()
 
-            el.R = np.array(list(const.keys()), dtype=int)
-            el.data = np.array(list(const.values()))
+            el.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
+            el.data = np.array(list(const.values()),
+                dtype=complex).reshape((-1, el.size, el.size))
 
             count = len(const)
             const.clear()
-- 
2.43.0


From cb64dc080ddf85bc64ee5d03b87fd5cc903d6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 07/54] fix: respect order of cells and handedness in
 ph.Model.unit_cell, do not share arrays

---
 elphmod/ph.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 58fba07..8e5d078 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -689,14 +689,18 @@ class Model:
         ph = Model()
         ph.size = self.size // len(self.cells)
         ph.nat = self.nat // len(self.cells)
-        ph.M = self.M[:ph.nat]
-        ph.atom_order = self.atom_order[:ph.nat]
-        ph.r = self.r[:ph.nat]
+
+        origin = list(map(tuple, self.cells)).index((0, 0, 0))
+        atoms = group(origin, ph.nat)
+
+        ph.M = np.array(self.M[atoms])
+        ph.atom_order = list(self.atom_order[atoms])
+        ph.r = np.array(self.r[atoms])
 
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
         B3 = np.cross(self.N[0], self.N[1])
-        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / len(self.cells)
+        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / np.dot(self.N[0], B1)
 
         ph.divide_mass = self.divide_mass
         ph.divide_ndegen = self.divide_ndegen
@@ -716,12 +720,12 @@ class Model:
         if self.Z is None:
             ph.Z = None
         else:
-            ph.Z = self.Z[:ph.nat]
+            ph.Z = np.array(self.Z[atoms])
 
         if self.Q is None:
             ph.Q = None
         else:
-            ph.Q = self.Q[:ph.nat]
+            ph.Q = np.array(self.Q[atoms])
 
         if self.lr:
             ph.prepare_long_range()
@@ -734,16 +738,17 @@ class Model:
 
             for n in range(len(self.R)):
                 for i, cell in enumerate(self.cells):
-                    C = self.data[n, :ph.size, i * ph.size:(i + 1) * ph.size]
+                    C = self.data[n, group(origin, ph.size), group(i, ph.size)]
 
                     if np.any(C != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-                        const[R] = C
+                        const[R] = const.get(R, 0) + C
 
                 status.update()
 
-            ph.R = np.array(list(const.keys()), dtype=int)
-            ph.data = np.array(list(const.values()))
+            ph.R = np.array(list(const.keys()), dtype=int).reshape((-1, 3))
+            ph.data = np.array(list(const.values())).reshape((-1,
+                ph.size, ph.size))
 
             count = len(const)
             const.clear()
-- 
2.43.0


From d921fe97539d1c28a80ed0caa54b6d5172b94bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 08/54] fix: set documented attribute N of Coulomb models on
 supercells

---
 elphmod/elel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elphmod/elel.py b/elphmod/elel.py
index b8a38ab..67395db 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -165,6 +165,7 @@ class Model:
         elel = Model()
 
         supercell = elphmod.bravais.supercell(N1, N2, N3)
+        elel.N = list(map(tuple, supercell[1]))
         elel.cells = supercell[-1]
 
         elel.size = len(elel.cells) * self.size
-- 
2.43.0


From 4a7efb1a3be33d2cbe4df6a04d38ca63525181be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 09/54] fix: do not modify celldm passed to bravais.primitives

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 87c9771..d408b7d 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -95,7 +95,7 @@ def primitives(ibrav=8, a=1.0, b=1.0, c=1.0, cosbc=0.0, cosac=0.0, cosab=0.0,
             celldm[3] = cosab
 
     if not bohr:
-        celldm[0] *= elphmod.misc.a0
+        celldm = [celldm[0] * elphmod.misc.a0, *celldm[1:]]
 
     if ibrav == 0: # free
         if r_cell is None or cell_units is None:
-- 
2.43.0


From d650a75b439aee4958f89caeee2f407eea07b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 10/54] fix: draw square Brillouin zone with correct size

---
 elphmod/bravais.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index d408b7d..8da5a70 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1785,7 +1785,7 @@ def BZ(angle=120, angle0=0):
 
     elif angle == 90:
         M = [(1, 1), (-1, 1), (-1, -1), (1, -1), (1, 1)]
-        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M])
+        outline = np.array([k1 * b1 + k2 * b2 for k1, k2 in M]) / 2
 
     elif angle == 120:
         K = [(1, 1), (-1, 2), (-2, 1), (-1, -1), (1, -2), (2, -1), (1, 1)]
-- 
2.43.0


From 55938352bb85e4e3a72c791640ad5a3780a29e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 11/54] fix: consider third dimension in bravais.point_on_path

---
 elphmod/bravais.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 8da5a70..3c215a3 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2579,8 +2579,7 @@ def point_on_path(test_point, point_A, point_B, eps=1e-14):
         dot = np.dot(point_B - point_A, test_point - point_A)
 
         if dot >= 0:
-            squared_distance = (
-                (point_B - point_A)[0] ** 2 + (point_B - point_A)[1] ** 2)
+            squared_distance = np.dot(point_B - point_A, point_B - point_A)
 
             if dot <= squared_distance:
                 #'The test point is between A and B'
-- 
2.43.0


From 0e576482439921b092bac7827928a4e1ca18164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:01 +0000
Subject: [PATCH 12/54] fix: wait for all processes before returning sampled
 coupling in shared memory

---
 elphmod/elph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index e66959f..ff9713a 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -932,6 +932,8 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
 
                 row.Barrier()
 
+        node.Barrier()
+
         return g
 
     if col.rank == 0:
-- 
2.43.0


From 76563029a7c8a7737c50251bc7e75535963e6498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 13/54] fix: keep data type when standardizing models in
 parallel

---
 elphmod/el.py   | 3 ++-
 elphmod/elel.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index fec0c3c..1c3c402 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -580,7 +580,8 @@ class Model:
 
         if comm.rank != 0:
             self.R = np.empty((count, 3), dtype=int)
-            self.data = np.empty((count, self.size, self.size), dtype=complex)
+            self.data = np.empty((count, self.size, self.size),
+                dtype=self.data.dtype)
 
         comm.Bcast(self.R)
         comm.Bcast(self.data)
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 67395db..d2d94c2 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -260,7 +260,8 @@ class Model:
 
         if comm.rank != 0:
             self.R = np.empty((count, 3), dtype=int)
-            self.data = np.empty((count, self.size, self.size), dtype=complex)
+            self.data = np.empty((count, self.size, self.size),
+                dtype=self.data.dtype)
 
         comm.Bcast(self.R)
         comm.Bcast(self.data)
-- 
2.43.0


From 88db2dcea6e71ae83553ef80b9221818fbb8779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 14/54] fix: return band order in shared memory

---
 elphmod/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index fc36400..55ce9fa 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -168,7 +168,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             dtype=int, **memory)
 
         if comm.rank == 0:
-            o = band_order(v, V, **order_kwargs)
+            o[...] = band_order(v, V, **order_kwargs)
 
             for point in range(points):
                 v[point] = v[point, o[point]]
-- 
2.43.0


From eba43aaa98237f8444676c7aa8a7395c93b10def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 15/54] fix: read_data fails in Python 3

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index ff9713a..3fe13ac 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1612,7 +1612,7 @@ def read_data(filename):
     """Read array from ASCII file."""
 
     with open(filename) as text:
-        columns = text.next().split()
+        columns = next(text).split()
         shape = tuple(map(int, columns[:-1]))
         complex_data = {'R': False, 'C': True}[columns[-1]]
 
-- 
2.43.0


From 958e0cdbdd4c5b6ee67af21a3ca0b7bb35e7b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 16/54] fix: atomic symbols of three characters truncated by
 read_flfrc

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 8e5d078..82e4da6 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1172,7 +1172,7 @@ def read_flfrc(flfrc):
         for nt in range(ntyp):
             tmp = cells()
 
-            atm.append(tmp[1][1:3])
+            atm.append(tmp[1].strip("'"))
             amass[nt] = float(tmp[-1])
 
         # read types and positions of individual atoms:
-- 
2.43.0


From 452cf48cf1b3465c00edbb6a580f80452d7f8089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 17/54] fix: write_flfrc loses masses of isotopes

---
 elphmod/ph.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 82e4da6..fc89a00 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1312,8 +1312,16 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
     """
     dyn = isinstance(phid, tuple)
 
-    atm, amass = tuple(zip(*sorted(set(zip(atom_order, amass)),
-        key=lambda X: atom_order.index(X[0]))))
+    types = []
+    ityp = []
+
+    for atom in zip(atom_order, amass):
+        if atom not in types:
+            types.append(atom)
+
+        ityp.append(types.index(atom))
+
+    atm, amass = tuple(zip(*types))
 
     with open(flfrc, 'w') as data:
         if dyn:
@@ -1349,7 +1357,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
         # write types and positions of individual atoms:
 
         for na in range(len(tau)):
-            data.write('%5d %4d' % (na + 1, atm.index(atom_order[na]) + 1))
+            data.write('%5d %4d' % (na + 1, ityp[na] + 1))
 
             for x in range(3):
                 data.write(' %17.10f' % (tau[na, x] / alat))
-- 
2.43.0


From acaaefc3171668b5b8b81ee01d95b2204dfed8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 18/54] fix: Born charges in dynamical-matrix files not found
 by read_flfrc

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index fc89a00..e741f12 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1411,7 +1411,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
                 data.write('\n')
 
             if dyn:
-                data.write('\n     Effective charges\n')
+                data.write('\n     Effective Charges E-U: Z_{alpha}{s,beta}\n')
 
             for na in range(len(zeu)):
                 if dyn:
-- 
2.43.0


From ad86af8e5ce65bb71574476f960604f1b53ae250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 19/54] fix: avoid overflow in derivative of broadened delta
 function

---
 elphmod/occupations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/occupations.py b/elphmod/occupations.py
index 85aa34f..740ed18 100644
--- a/elphmod/occupations.py
+++ b/elphmod/occupations.py
@@ -46,7 +46,7 @@ def fermi_dirac_delta_prime(x):
     x = np.array(x)
     x.real = np.sign(x.real) * np.minimum(abs(x.real), xmax)
 
-    return -np.sinh(x) / (2 * (np.cosh(x) + 1) ** 2)
+    return -np.sinh(x) / (2 * np.cosh(x) + 2) / (np.cosh(x) + 1)
 
 def fermi_dirac_entropy(x):
     """Calculate electronic entropy."""
-- 
2.43.0


From bd05abf4458993981f42633d8c2b3c542a9f38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 20/54] fix: read_matdyn confused by slash in file names

---
 elphmod/bravais.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 3c215a3..3ca7d63 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2327,12 +2327,14 @@ def read_matdyn(filename):
     dict
         Input parameters.
     """
+    import re
+
     struct = elphmod.misc.read_input_data(filename, broadcast=False)
 
     if comm.rank == 0:
         with open(filename) as lines:
             for line in lines:
-                if '/' in line:
+                if '/' in re.sub(r'\'[^\']*\'|"[^"]*"', '', line):
                     for line in lines:
                         words = line.split()
                         if words:
-- 
2.43.0


From bd87c10a9069ca9a86c0d13bd19997bd3874ad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 21/54] fix: files written by write_win cannot be read by
 read_win

---
 elphmod/bravais.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 3ca7d63..5e54863 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2028,7 +2028,7 @@ def read_win(win):
         with open(win) as lines:
             for line in lines:
                 words = [word
-                    for column in line.split()
+                    for column in line.replace(':', ' ').split()
                     for word in column.split('=') if word]
 
                 if not words:
@@ -2169,7 +2169,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['proj']:
+        if struct.get('proj'):
             data.write('begin projections\n')
             for key, value in struct['proj'].items():
                 data.write('%s: %s\n' % (key, value))
@@ -2177,7 +2177,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        for key in ['write_hr', 'bands_plot']:
+        for key in ['write_hr', 'bands_plot', 'wannier_plot']:
             if key in struct:
                 data.write('%s = %r\n' % (key, struct[key]))
 
@@ -2189,7 +2189,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['kpoint_path']:
+        if struct.get('kpoint_path'):
             data.write('begin kpoint_path\n')
             for line in struct['kpoint_path']:
                 data.write('%s\n' % line)
@@ -2216,10 +2216,11 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        data.write('begin kpoints\n')
-        for (kx, ky, kz, wk) in struct['kpoints']:
-            data.write('%12.9f %12.9f %12.9f %12.9f\n' % (kx, ky, kz, wk))
-        data.write('end kpoints\n')
+        if 'kpoints' in struct:
+            data.write('begin kpoints\n')
+            for (kx, ky, kz, wk) in struct['kpoints']:
+                data.write('%12.9f %12.9f %12.9f %12.9f\n' % (kx, ky, kz, wk))
+            data.write('end kpoints\n')
 
 def read_ph(filename):
     """Read input parameters from Quantum ESPRESSO's ``ph.x`` input file.
-- 
2.43.0


From d76328b437fde8fc0adacb2d736cf6bd334de193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 22/54] fix: write_xsf transposes data grid

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index d7a9a6e..164d79e 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -464,7 +464,7 @@ def write_xsf(xsf, r0, a, X, tau, data, only_header=False, comm=comm):
                 text.write('%12.7f %11.7f %11.7f\n' % tuple(a[i]))
 
             if not only_header:
-                for i, value in enumerate(data.flat, 1):
+                for i, value in enumerate(data.T.flat, 1):
                     text.write('%13.5e' % value)
 
                     if not i % 6 or i == data.size:
-- 
2.43.0


From 2a4fa2376baaef6718e8aa160d361b724d002b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 23/54] fix: readPOSCAR ignores scaling factor

---
 elphmod/bravais.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 5e54863..268cc67 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2547,6 +2547,13 @@ def readPOSCAR(filename):
         t2 = np.array(list(map(float, next(POSCAR).split())))
         t3 = np.array(list(map(float, next(POSCAR).split())))
 
+        if a < 0: # negative value specifies volume
+            a = (-a / abs(np.dot(t1, np.cross(t2, t3)))) ** (1 / 3)
+
+        t1 *= a
+        t2 *= a
+        t3 *= a
+
         elements = next(POSCAR).split()
 
         numbers = list(map(int, next(POSCAR).split()))
-- 
2.43.0


From c491838d0884872d96434c300e729d12200e04dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 24/54] fix: readPOSCAR skips first atom without selective
 dynamics

---
 elphmod/bravais.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 268cc67..0e016a7 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2558,8 +2558,8 @@ def readPOSCAR(filename):
 
         numbers = list(map(int, next(POSCAR).split()))
 
-        next(POSCAR)
-        next(POSCAR)
+        if next(POSCAR).strip()[:1] in {'S', 's'}: # selective dynamics
+            next(POSCAR)
 
         atoms = dict()
 
-- 
2.43.0


From 56ef1ebe80a06e0edb9f53b81b827e10af5cb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:50 +0000
Subject: [PATCH 25/54] fix: lists and NumPy scalars in written input files not
 readable

---
 elphmod/bravais.py | 54 +++++++++++++++++++++++-----------------------
 elphmod/misc.py    | 22 +++++++++++++++++++
 2 files changed, 49 insertions(+), 27 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 0e016a7..10c0c87 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1915,7 +1915,7 @@ def write_pwi(pwi, struct):
         for key in ['title', 'prefix', 'outdir', 'pseudo_dir', 'calculation',
                 'tprnfor', 'tstress', 'nstep', 'forc_conv_thr']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
 
@@ -1924,7 +1924,7 @@ def write_pwi(pwi, struct):
         if 'celldm' in struct:
             for i, celldm in enumerate(struct['celldm'], 1):
                 if celldm:
-                    data.write('celldm(%d) = %r\n' % (i, celldm))
+                    elphmod.misc.write_item(data, 'celldm(%d)' % i, celldm)
 
         for key in ['ibrav', 'ntyp', 'nat', 'a', 'b', 'c', 'cosbc', 'cosac',
                 'cosab', 'ecutwfc', 'ecutrho', 'nbnd', 'occupations',
@@ -1933,7 +1933,7 @@ def write_pwi(pwi, struct):
                 'tot_magnetization', 'starting_magnetization', 'space_group',
                 'uniqueb', 'origin_choice', 'rhombohedral']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
 
@@ -1943,7 +1943,7 @@ def write_pwi(pwi, struct):
                 'diago_full_acc', 'mixing_beta', 'startingpot', 'startingwfc',
                 'scf_must_converge']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
 
@@ -1952,7 +1952,7 @@ def write_pwi(pwi, struct):
 
             for key in ['ion_dynamics', 'upscale']:
                 if key in struct:
-                    data.write('%s = %r\n' % (key, struct[key]))
+                    elphmod.misc.write_item(data, key, struct[key])
 
             data.write('/\n')
 
@@ -1962,7 +1962,7 @@ def write_pwi(pwi, struct):
                 for key in ['cell_dynamics', 'cell_dofree', 'press',
                         'press_conv_thr']:
                     if key in struct:
-                        data.write('%s = %r\n' % (key, struct[key]))
+                        elphmod.misc.write_item(data, key, struct[key])
 
                 data.write('/\n')
 
@@ -2158,14 +2158,14 @@ def write_win(win, struct):
     with open(win, 'w') as data:
         for key in ['num_bands', 'num_wann']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['dis_win_min', 'dis_win_max',
                 'dis_froz_min', 'dis_froz_max']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
@@ -2179,13 +2179,13 @@ def write_win(win, struct):
 
         for key in ['write_hr', 'bands_plot', 'wannier_plot']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['dis_num_iter', 'num_iter', 'search_shells']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
@@ -2255,26 +2255,26 @@ def write_ph(ph, struct):
 
         for key in ['prefix', 'outdir']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['fildyn', 'fildvscf']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['ldisp', 'nq1', 'nq2', 'nq3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['tr2_ph', 'alpha_mix', 'cdfpt', 'subspace',
                 'cdfpt_bnd', 'cdfpt_orb']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
 
@@ -2311,7 +2311,7 @@ def write_q2r(q2r, struct):
 
         for key in ['fildyn', 'flfrc', 'zasr']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
 
@@ -2373,7 +2373,7 @@ def write_matdyn(matdyn, struct):
         for key in ['flfrc', 'flfrq', 'fldos', 'fleig', 'flvec', 'asr',
                 'loto_2d', 'q_in_band_form', 'q_in_cryst_coord']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/\n')
         data.write('%d\n' % struct['nq'])
@@ -2442,38 +2442,38 @@ def write_epw(epw, struct):
 
         for key in ['prefix', 'outdir', 'dvscf_dir']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['wannierize', 'elph']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['epbwrite', 'epwwrite']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['epbread', 'epwread']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['use_ws', 'nbndsub', 'bands_skipped']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['dis_win_min', 'dis_win_max',
                 'dis_froz_min', 'dis_froz_max']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
@@ -2486,7 +2486,7 @@ def write_epw(epw, struct):
 
         for key in ['num_iter']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         if 'wdata' in struct:
             for n, value in enumerate(struct['wdata'], 1):
@@ -2497,25 +2497,25 @@ def write_epw(epw, struct):
 
         for key in ['nk1', 'nk2', 'nk3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['nq1', 'nq2', 'nq3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['nkf1', 'nkf2', 'nkf3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('\n')
 
         for key in ['nqf1', 'nqf2', 'nqf3']:
             if key in struct:
-                data.write('%s = %r\n' % (key, struct[key]))
+                elphmod.misc.write_item(data, key, struct[key])
 
         data.write('/')
         data.write('\n')
diff --git a/elphmod/misc.py b/elphmod/misc.py
index 164d79e..59b0b16 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -601,6 +601,28 @@ def read_namelists(filename):
 
     return data
 
+def write_item(data, key, value):
+    """Write item of Fortran namelist.
+
+    Parameters
+    ----------
+    data : file object
+        File to write to.
+    key : str
+        Name of item.
+    value : object
+        Value or list of values. Elements that are ``None`` are skipped.
+    """
+    if hasattr(value, 'tolist'):
+        value = value.tolist()
+
+    if isinstance(value, (list, tuple)):
+        for n, element in enumerate(value, 1):
+            if element is not None:
+                write_item(data, '%s(%d)' % (key, n), element)
+    else:
+        data.write('%s = %r\n' % (key, value))
+
 def read_input_data(filename, broadcast=True):
     """Read Quantum ESPRESSO input data.
 
-- 
2.43.0


From 7dc43c9b216fe0b93789bfa5215d9dab713fb07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:50 +0000
Subject: [PATCH 26/54] fix: exclamation mark in string mistaken for comment

---
 elphmod/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 59b0b16..fc8902e 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -527,7 +527,8 @@ def read_namelists(filename):
 
     # remove comments:
 
-    text = re.sub(r'!.*$', '', text, flags=re.MULTILINE)
+    text = re.sub(r'(\'[^\'\n]*\'|"[^"\n]*")|!.*$', lambda match:
+        match.group(1) or '', text, flags=re.MULTILINE)
 
     # protect string (which might contain spaces):
 
-- 
2.43.0


From 785519a789aa6e0d5724b0b1e8be773ef35bf3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:24 +0000
Subject: [PATCH 27/54] fix: read_pwo fails if output file contains no Fermi
 level

---
 elphmod/el.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 1c3c402..d467261 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1328,7 +1328,7 @@ def read_Fermi_level(pw_scf_out):
 def read_pwo(pw_scf_out):
     """Read energies from PW output file."""
 
-    Ne = Ns = Nk = E = None
+    Ne = Ns = Nk = E = eF = None
     e_given = False
 
     if comm.rank == 0:
-- 
2.43.0


From c715a3faad23817ea17c8bfa37637fd01035b35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:27 +0000
Subject: [PATCH 28/54] fix: origin in cube files overwritten with
 uninitialized data

---
 elphmod/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index fc8902e..2e99fd4 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -277,7 +277,6 @@ def read_cube(cube, only_header=False, comm=comm):
 
         cols = next(lines).split()
         nat = int(cols[0])
-        r0 = np.array(list(map(float, cols[1:4])))
     else:
         nat = None
 
@@ -290,6 +289,8 @@ def read_cube(cube, only_header=False, comm=comm):
     tau = np.empty((nat, 3), dtype=float)
 
     if comm.rank == 0:
+        r0[:] = list(map(float, cols[1:4]))
+
         for i in range(3):
             cols = next(lines).split()
             n[i] = int(cols[0])
-- 
2.43.0


From 81419240b596a184d5b926af2ae05d4ca8ed70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:23 +0000
Subject: [PATCH 29/54] fix: double_delta counts intersections at zone boundary
 twice

---
 elphmod/dos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 431dc7d..821745a 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -275,6 +275,8 @@ def double_delta(x, y, f=None, eps=1e-7):
         unique = dict()
 
         if comm.rank == 0:
+            D -= N * np.floor((D + eps) / N) # fold equivalent points
+
             for group in elphmod.misc.group(D, eps=eps):
                 d = np.average(D[group], axis=0)
                 w = np.average(W[group], axis=0)
-- 
2.43.0


From b521e77dd1bf3e779928c1575c2f54a5b3236877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:23 +0000
Subject: [PATCH 30/54] fix: isoline fails if energy equals two lower corners
 of triangle

---
 elphmod/dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dos.py b/elphmod/dos.py
index 821745a..9f055a2 100644
--- a/elphmod/dos.py
+++ b/elphmod/dos.py
@@ -351,7 +351,7 @@ def isoline(energies):
 
             elif B <= E < C:
                 if E == A == B:
-                    my_points.extend((tuple(i), (j)))
+                    my_points.append((tuple(i), tuple(j)))
                 else:
                     alpha = (E - B) / (C - B)
                     beta = (E - A) / (C - A)
-- 
2.43.0


From ead81e668c9d571818eee512fadbab7e60618596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:10 +0000
Subject: [PATCH 31/54] fix: interpolation of arrays with further axes fails

---
 elphmod/bravais.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 10c0c87..9760365 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -932,7 +932,9 @@ def linear_interpolation(data, angle=60, axes=(0, 1), period=None, polar=False):
 
     # make interpolant function applicable to arrays and return:
 
-    return np.vectorize(interpolant)
+    return np.vectorize(interpolant, signature='%s->(%s)'
+        % (','.join(['()'] * len(axes)),
+            ','.join('d%d' % n for n in range(data.ndim - len(axes)))))
 
 def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
         periodic=True):
@@ -1482,7 +1484,8 @@ def Fourier_interpolation(data, angle=60, sign=-1, function=True):
         return np.dot(np.exp(idphi * np.dot(points, point)), values).real
 
     if function:
-        return np.vectorize(interpolant)
+        return np.vectorize(interpolant, signature='(),()->(%s)'
+            % ','.join('d%d' % n for n in range(data.ndim - 2)))
 
     # return either interpolation function or parameter dictionary:
 
-- 
2.43.0


From aa43ad2c5025077fc79a6489d757370a5f6a80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:36 +0000
Subject: [PATCH 32/54] fix: acoustic sum rule for couplings divided by unequal
 masses

---
 elphmod/elph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 3fe13ac..49fda0a 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -683,6 +683,10 @@ class Model:
             Print sums before and after correction?
         """
         if comm.rank == 0:
+            if self.divide_mass:
+                for x in range(self.ph.size):
+                    self.data[:, x] *= np.sqrt(self.ph.M[x // 3])
+
             shape = self.data.shape
 
             self.data = self.data.reshape((len(self.Rg) * self.ph.nat, -1))
@@ -705,6 +709,10 @@ class Model:
 
             self.data = self.data.reshape(shape)
 
+            if self.divide_mass:
+                for x in range(self.ph.size):
+                    self.data[:, x] /= np.sqrt(self.ph.M[x // 3])
+
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
-- 
2.43.0


From e6a6aa3639403a4e20d68777ef4acf616f5afa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:36 +0000
Subject: [PATCH 33/54] fix: rotation sum rule antisymmetrizes wrong index

---
 elphmod/ph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index e741f12..e5b55bc 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1713,9 +1713,9 @@ def sum_rule_correction(ph, asr=True, rsr=True, eps=1e-15, report=True):
                         S = 0.0
                         for n in range(len(R)):
                             for l in range(ph.nat):
-                                S += (C[n, k, x1, l, y]
+                                S += (C[n, k, y, l, x1]
                                     * (R[n, x2] + ph.r[l, x2]))
-                                S -= (C[n, k, x2, l, y]
+                                S -= (C[n, k, y, l, x2]
                                     * (R[n, x1] + ph.r[l, x1]))
                         zero += abs(S)
         return zero
@@ -1757,8 +1757,8 @@ def sum_rule_correction(ph, asr=True, rsr=True, eps=1e-15, report=True):
                         c.append(np.zeros_like(C))
                         for n in range(len(R)):
                             for l in range(ph.nat):
-                                c[-1][n, k, x1, l, y] += R[n, x2] + ph.r[l, x2]
-                                c[-1][n, k, x2, l, y] -= R[n, x1] + ph.r[l, x1]
+                                c[-1][n, k, y, l, x1] += R[n, x2] + ph.r[l, x2]
+                                c[-1][n, k, y, l, x2] -= R[n, x1] + ph.r[l, x1]
 
     # symmetrize constraints (the force constants must be symmetric):
 
-- 
2.43.0


From caa697f7fcaa1727ae03971742a082083bdd2aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:11 +0000
Subject: [PATCH 34/54] fix: conflicting divide_mass of coupling and polar
 phonon model

---
 elphmod/elph.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 49fda0a..32d0a92 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -260,6 +260,12 @@ class Model:
         if epmatwp is None:
             return
 
+        if self.ph.lr and self.ph.divide_mass != divide_mass:
+            info("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!\n"
+                "The value from 'ph' (%r) is used." % self.ph.divide_mass)
+
+            self.divide_mass = divide_mass = self.ph.divide_mass
+
         if comm.rank == 0:
             with open(epmatwp, 'rb') as data:
                 status = elphmod.misc.StatusBar((self.data.nbytes > 1e9)
@@ -288,11 +294,6 @@ class Model:
 
             # divide by square root of atomic masses:
 
-            if self.ph.lr and self.ph.divide_mass != divide_mass:
-                print("Warning: Inconsistent 'divide_mass' in 'ph' and 'elph'!")
-                print("The value from 'ph' (%r) is used." % self.ph.divide_mass)
-                divide_mass = self.ph.divide_mass
-
             if divide_mass:
                 for x in range(ph.size):
                     self.data[:, x] /= np.sqrt(ph.M[x // 3])
-- 
2.43.0


From dedbc6411a0a06d4f56f8ff68cc9c1c055fe04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:17 +0000
Subject: [PATCH 35/54] fix: renormalize_coupling_orbital never ends for
 general interaction

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 5e96149..b81dcf8 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -822,7 +822,7 @@ def renormalize_coupling_orbital(q, e, g, W, U, **kwargs):
 
     g = g.copy()
 
-    while dg.ndim < g.ndim - 1 if dd else g.ndim:
+    while dg.ndim < (g.ndim - 1 if dd else g.ndim):
         dg = dg[:, :, np.newaxis]
 
     if dd:
-- 
2.43.0


From 5259d38898c3d0058037e103f32305c633145e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:13 +0000
Subject: [PATCH 36/54] fix: band order by mean energy sums wrong elements

---
 elphmod/dispersion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 55ce9fa..d671fd1 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -499,7 +499,9 @@ def band_order(v, V, by_mean=True, dv=float('inf'), eps=1e-10, status=True):
             bar.update()
 
     if by_mean:
-        o[:] = o[:, sorted(range(bands), key=lambda i: v[:, o[:, i]].sum())]
+        mean = np.take_along_axis(v, o, axis=1).sum(axis=0)
+
+        o[:] = o[:, sorted(range(bands), key=lambda i: mean[i])]
 
     return o
 
-- 
2.43.0


From 851b7ef5af273eaf2c26c5cd8559645abff1b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:13 +0000
Subject: [PATCH 37/54] fix: rotated eigenvectors raise exception

---
 elphmod/dispersion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index d671fd1..98e0a67 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -123,8 +123,8 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             # rotate phonon eigenvectors by negative angle of k point:
 
             if rotate:
-                k1, k2 = elphmod.bravais.to_Voronoi(*my_k[point, :2],
-                    nk=2 * np.pi, angle=angle)[0]
+                k1, k2 = min(elphmod.bravais.to_Voronoi(*my_k[point, :2],
+                    nk=2 * np.pi, angle=angle))
 
                 x, y = k1 * b1 + k2 * b2
                 phi = np.arctan2(y, x)
@@ -133,7 +133,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
 
                 for atom in range(atoms):
                     for band in range(bands):
-                        xy = point, [atom, atom + atoms], band
+                        xy = point, [3 * atom, 3 * atom + 1], band
                         my_V[xy] = elphmod.bravais.rotate(my_V[xy], -phi)
         else:
             if bands == 1:
-- 
2.43.0


From ef105e3738d64970599bbed1cc4a5d0ae786ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:13 +0000
Subject: [PATCH 38/54] fix: squared coupling overwrites input

---
 elphmod/elph.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 32d0a92..35cc89a 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -916,8 +916,7 @@ def sample(g, q, nk=None, U=None, u=None, squared=False, broadcast=True,
                             gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                         if squared:
-                            gqk *= gqk.conj()
-                            gqk = gqk.real
+                            gqk = (gqk * gqk.conj()).real
 
                         my_g[my_iq, :, K1, K2, K3, :, :] = gqk
 
@@ -1001,8 +1000,7 @@ def transform(g, q, nk, U=None, u=None, squared=False, broadcast=True,
                     gqk = np.einsum('xab,xu->uab', gqk, u[iq])
 
                 if squared:
-                    gqk *= gqk.conj()
-                    gqk = gqk.real
+                    gqk = (gqk * gqk.conj()).real
 
                 my_g[my_iq, :, k1, k2, :, :] = gqk
 
-- 
2.43.0


From ec610fdbe028649891530e4d4137de8b7bad2ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 39/54] fix: band indices of coupling interchanged in McMillan

---
 elphmod/eliashberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/eliashberg.py b/elphmod/eliashberg.py
index 6401a42..162ea7b 100644
--- a/elphmod/eliashberg.py
+++ b/elphmod/eliashberg.py
@@ -120,7 +120,7 @@ def McMillan(nq, e, w2, g2, eps=1e-10, mustar=0.0, tetra=False, kT=0.025,
                         E[:, :, m])(0)
 
                     for (k1, k2), weight in intersections.items():
-                        g2dd[iq] += weight * g2_fun(k1, k2)[:, n, m]
+                        g2dd[iq] += weight * g2_fun(k1, k2)[:, m, n]
                         dd[iq] += weight
 
         N0 = 0
-- 
2.43.0


From 748c54122510fae92dafb8c92a76712781df7797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:04 +0000
Subject: [PATCH 40/54] fix: energy evaluation modifies displacements handed in

---
 elphmod/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 318e200..163efb1 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -188,7 +188,7 @@ class Driver:
     def center_mass(self):
         """Subtract collective translational displacement component."""
 
-        self.u -= np.tile(np.average(self.u.reshape((-1, 3)), axis=0),
+        self.u = self.u - np.tile(np.average(self.u.reshape((-1, 3)), axis=0),
             self.elph.ph.nat)
 
     def find_Fermi_level(self):
-- 
2.43.0


From 5fe7f9a087cae97457e8eb3b76eaa29e7c58ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:27 +0000
Subject: [PATCH 41/54] fix: photoexcited free energy not conjugate to forces

---
 elphmod/md.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 163efb1..27ca1a8 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -266,6 +266,9 @@ class Driver:
         E += self.mu * self.n # mu N
         E -= prefactor * self.kT * self.f.entropy(self.e / self.kT).sum() # T S
 
+        if self.f is elphmod.occupations.two_fermi_dirac:
+            E += 2 * self.kT * self.f.d * self.nx # (mu_c - mu_v) N_x
+
         E += 0.5 * self.u.dot(self.C0[0].real).dot(self.u)
 
         E += self.F0.dot(self.u)
-- 
2.43.0


From b0bfaf754c1bb873c483f69576498a99966fb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:50 +0000
Subject: [PATCH 42/54] fix: photoexcited Hessian mixes two chemical potentials

---
 elphmod/md.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 27ca1a8..96564af 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -220,6 +220,21 @@ class Driver:
 
         return self.mu
 
+    def reservoirs(self):
+        """Select bands whose numbers of electrons are conserved separately.
+
+        Returns
+        -------
+        list of slice
+            All bands or, for photoexcitation, valence and conduction bands.
+        """
+        if self.f is elphmod.occupations.two_fermi_dirac:
+            nv = int(self.n) // 2
+
+            return [slice(nv), slice(nv, None)]
+
+        return [slice(None)]
+
     def diagonalize(self):
         """Diagonalize Hamiltonian of perturbed system."""
 
@@ -358,7 +373,6 @@ class Driver:
 
             dfde = np.tile(d, (self.elph.el.size, 1))
             dfde[ok] = df[ok] / de[ok]
-            dos = -d.sum() # = -np.trace(dfde)
 
             if kT is not None:
                 tmp = d if kT == self.kT else self.f.delta(self.e / kT) / kT
@@ -371,9 +385,12 @@ class Driver:
 
             V = self.U.transpose().copy()
 
-            d_orb = self.U * d[np.newaxis] @ V
-            avg = np.array([self.d0[x].multiply(d_orb).sum()
-                for x in range(self.elph.ph.size)]) / np.sqrt(dos)
+            for bands in self.reservoirs():
+                dos = -d[bands].sum()
+                d_orb = self.U[:, bands] * d[np.newaxis, bands] @ V[bands]
+                avg = np.array([self.d0[x].multiply(d_orb).sum()
+                    for x in range(self.elph.ph.size)]) / np.sqrt(dos)
+                C[0] += np.outer(avg, avg)
 
             status = elphmod.misc.StatusBar(self.elph.ph.size,
                 title='calculate static phonon self-energy')
@@ -387,7 +404,7 @@ class Driver:
                 gx = self.U @ (gx * dfde) @ V # overwriting gx to save memory
 
                 for y in range(x, self.elph.ph.size):
-                    C[0, x, y] = self.d0[y].multiply(gx).sum() + avg[x] * avg[y]
+                    C[0, x, y] += self.d0[y].multiply(gx).sum()
                     C[0, y, x] = C[0, x, y]
 
                     if kT is not None:
@@ -414,8 +431,10 @@ class Driver:
             C = elphmod.diagrams.phonon_self_energy(self.q[:nq], self.e,
                 g=self.d[:nq], kT=self.kT, occupations=self.f, eps=eps)
 
-            C[0] += elphmod.diagrams.phonon_self_energy_fermi_shift(self.e,
-                self.d[0], kT=self.kT, occupations=self.f)
+            for bands in self.reservoirs():
+                C[0] += elphmod.diagrams.phonon_self_energy_fermi_shift(
+                    self.e[..., bands], self.d[0][..., bands, bands],
+                    kT=self.kT, occupations=self.f)
 
         C += self.C0[:nq]
 
-- 
2.43.0


From 2653762943e24eb292eeab4e3cfe0a50bb35bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:23 +0000
Subject: [PATCH 43/54] fix: race conditions in Hessian of MD driver

---
 elphmod/md.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 96564af..86486f4 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -428,6 +428,8 @@ class Driver:
                 if self.node.rank == 0:
                     self.images.Bcast(self.d[iq].view(dtype=float))
 
+            comm.Barrier() # wait until coupling has been written
+
             C = elphmod.diagrams.phonon_self_energy(self.q[:nq], self.e,
                 g=self.d[:nq], kT=self.kT, occupations=self.f, eps=eps)
 
@@ -436,6 +438,8 @@ class Driver:
                     self.e[..., bands], self.d[0][..., bands, bands],
                     kT=self.kT, occupations=self.f)
 
+            comm.Barrier() # wait until coupling has been read
+
         C += self.C0[:nq]
 
         if apply_asr_simple:
-- 
2.43.0


From 6b84bb063c899966b81518d3e4653988f4df888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:41 +0000
Subject: [PATCH 44/54] fix: acoustic sum rule in MD driver uses wrong q point

---
 elphmod/md.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 86486f4..b3bee26 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -445,10 +445,10 @@ class Driver:
         if apply_asr_simple:
             C = C.reshape((nq, self.elph.ph.nat, 3, self.elph.ph.nat, 3))
 
-            corr = C.sum(axis=3)
+            corr = C[0].sum(axis=2) # q = 0
 
             for na in range(self.elph.ph.nat):
-                C[:, na, :, na, :] -= corr[:, na]
+                C[:, na, :, na, :] -= corr[na]
 
             C = C.reshape((nq, self.elph.ph.size, self.elph.ph.size))
 
-- 
2.43.0


From fb7fa0638db858f9c6de4f48ce994029cb389be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:58 +0000
Subject: [PATCH 45/54] fix: Fermi-surface average for dense MD driver
 undefined

---
 elphmod/md.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index b3bee26..77d0c53 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -438,6 +438,19 @@ class Driver:
                     self.e[..., bands], self.d[0][..., bands, bands],
                     kT=self.kT, occupations=self.f)
 
+            if kT is not None:
+                g2dd = np.empty((nq, self.elph.ph.size, self.elph.ph.size),
+                    dtype=complex)
+
+                for x in range(self.elph.ph.size):
+                    g2 = self.d[:nq, x, np.newaxis].conj() * self.d[:nq]
+
+                    g2dd[:, x], dd = (
+                        elphmod.diagrams.double_fermi_surface_average(
+                            self.q[:nq], self.e, g2, kT, self.f))
+
+                g2dd /= dd.sum()
+
             comm.Barrier() # wait until coupling has been read
 
         C += self.C0[:nq]
-- 
2.43.0


From a64b817be2dffc1a7003301f1825bc309f325077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:11 +0000
Subject: [PATCH 46/54] fix: MD driver with sparse model cannot be saved

---
 elphmod/md.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/elphmod/md.py b/elphmod/md.py
index 77d0c53..b877e53 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -872,10 +872,13 @@ class Driver:
         interactive = self.interactive
         self.interactive = False
 
-        comms = self.node, self.images
+        has_comms = hasattr(self, 'node') # not for sparse supercell model
 
-        del self.node
-        del self.images
+        if has_comms:
+            comms = self.node, self.images
+
+            del self.node
+            del self.images
 
         if not self.sparse:
             elph_comms = self.elph.node, self.elph.images
@@ -887,7 +890,8 @@ class Driver:
 
         self.interactive = interactive
 
-        self.node, self.images = comms
+        if has_comms:
+            self.node, self.images = comms
 
         if not self.sparse:
             self.elph.node, self.elph.images = elph_comms
-- 
2.43.0


From bf5226cfa9925bcbf291db2af230b324725bb435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:08 +0000
Subject: [PATCH 47/54] fix: minimum ignores function arguments

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 2e99fd4..b40a431 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -799,7 +799,7 @@ def minimum(*args):
     """
     if len(args) == 6:
         x1, x2, x3, y1, y2, y3 = args
-    if len(sys.argv) == 7:
+    elif len(sys.argv) == 7:
         x1, x2, x3, y1, y2, y3 = list(map(float, sys.argv[1:]))
     else:
         raise SystemExit('Usage: minimum x1 x2 x3 y1 y2 y3')
-- 
2.43.0


From e15f5ea0aa70e9bcd33ea172083c4efae32f13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:23 +0000
Subject: [PATCH 48/54] fix: interpolate_dynamical_matrices raises NameError

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index e5b55bc..c3c61c1 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -2074,7 +2074,7 @@ def interpolate_dynamical_matrices(D, q, nq, fildyn_template, fildyn, flfrc,
             D[:, group(na), :] *= np.sqrt(amass[na])
             D[:, :, group(na)] *= np.sqrt(amass[na])
 
-    sizes, bounds = MPI.distribute(len(q), bounds=True)
+    sizes, bounds = elphmod.MPI.distribute(len(q), bounds=True)
 
     for iq in range(*bounds[comm.rank:comm.rank + 2]):
         fildynq = fildyn + str(iq + 1)
-- 
2.43.0


From dd75d9fb64e7f6f78808bfc7a083e54694cb5a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:18 +0000
Subject: [PATCH 49/54] fix: serial fallback of MPI lacks data types

---
 elphmod/MPI.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/elphmod/MPI.py b/elphmod/MPI.py
index 7431d23..01bd9b5 100644
--- a/elphmod/MPI.py
+++ b/elphmod/MPI.py
@@ -66,6 +66,9 @@ except ImportError:
 
         @staticmethod
         def Scatterv(send, recv):
+            if isinstance(recv, tuple):
+                recv = recv[0]
+
             recv[...] = send[0].reshape(recv.shape)
 
         def Split(self, color, key=None):
@@ -74,9 +77,20 @@ except ImportError:
         def Split_type(self, color, key=None):
             return self
 
+    class Datatype:
+        def Create_contiguous(self, count):
+            return self
+
+        def Commit(self):
+            return self
+
+        def Free(self):
+            pass
+
     class Interface:
         def __init__(self):
             self.COMM_WORLD = Communicator()
+            self.UNSIGNED_CHAR = Datatype()
             self.UNDEFINED = 0
             self.COMM_TYPE_SHARED = self.UNDEFINED
             self.IN_PLACE = 1
-- 
2.43.0


From aef9ad5c6d3098a9414c489107d63d0f478cc341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:02 +0000
Subject: [PATCH 50/54] fix: cell volume and last row in read_pp_density

---
 elphmod/el.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index d467261..6d330df 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -1814,9 +1814,8 @@ def read_pp_density(filename):
         kin_energy_cutoff = float(tmp[2])
 
         # calculate unit cell and brillouin zone volume
-        A = elphmod.bravais.primitives(ibrav)
-        A[2, 2] = celldm[2]
-        uc_volume = np.linalg.det(A) * celldm[0] ** 3
+        A = elphmod.bravais.primitives(ibrav, celldm=celldm, bohr=True)
+        uc_volume = abs(np.linalg.det(A))
 #        B1, B2, B3 = elphmod.bravais.reciprocals(*A)
 #        B = np.stack((B1, B2, B3), axis=0)
 #        print(B)
@@ -1836,15 +1835,14 @@ def read_pp_density(filename):
         # read rho table
         # total number of real-space grid points:
         nr_points = np.prod(FFT_dim[:3])
-        # separated into columns of 5:
-        if divmod(nr_points, 5)[1] != 0:
-            print('Warning: Total number of grid points is not divisible by 5!')
-        rho = table(divmod(nr_points, 5)[0])
+        # separated into columns of 5 (last row may be shorter):
+        rho = []
+        while len(rho) < nr_points:
+            rho.extend(map(float, cells()))
+        rho = np.array(rho)
 
         tot_charge = rho.sum() / nr_points * uc_volume
 
-        rho = rho.reshape(np.prod(FFT_dim[:3]))
-
         return rho, tot_charge
 
 def read_rhoG_density(filename, ibrav, a=1.0, b=1.0, c=1.0):
-- 
2.43.0


From fbea8f1593a0e340479f731e915ec28bc91c7c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:02 +0000
Subject: [PATCH 51/54] fix: skip bands outside range in coupling

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 35cc89a..3a05776 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1154,7 +1154,7 @@ def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
                 ibnd -= offset
                 jbnd -= offset
 
-                if ibnd >= bands or jbnd >= bands:
+                if not (0 <= ibnd < bands and 0 <= jbnd < bands):
                     continue
 
                 indices = n, nu, k1, k2, ibnd, jbnd
-- 
2.43.0


From d8cda03e9ab4e79c5b356b3ddbf41862fcaa7de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:09 +0000
Subject: [PATCH 52/54] fix: interpolate data for images of Brillouin zone
 according to lattice angle

---
 elphmod/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 87c4983..98d57d5 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -277,7 +277,7 @@ def toBZ(data=None, points=1000,
 
     ndata, nk, nk = data.shape
 
-    fun = list(map(interpolation, data))
+    fun = [interpolation(d, angle=180 - angle) for d in data]
 
     sizes, bounds = elphmod.MPI.distribute(nky * nkx, bounds=True)
 
-- 
2.43.0


From fef09e165df8df18b9a5b43dc351ae8e379dba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:09 +0000
Subject: [PATCH 53/54] fix: choose limits of image such that rotated square
 Brillouin zone fits

---
 elphmod/plot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 98d57d5..80a8daa 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -250,8 +250,12 @@ def toBZ(data=None, points=1000,
         b3 = b1 - b2
         M = 2 / 3
 
-    kxmax = max(abs(a1[0]), abs(a2[0]), abs(a3[0])) * M
-    kymax = max(abs(a1[1]), abs(a2[1]), abs(a3[1])) * M
+    if angle == 90:
+        corners = np.array([a1 + a2, a1 - a2])
+    else:
+        corners = np.array([a1, a2, a3])
+
+    kxmax, kymax = abs(corners).max(axis=0) * M
 
     nkx = int(round(points * kxmax))
     nky = int(round(points * kymax))
-- 
2.43.0


From 4c1bce989e3a2d76286cd6e9195dfc683803d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:09 +0000
Subject: [PATCH 54/54] fix: leave colormap of user unchanged when coloring
 data

---
 elphmod/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elphmod/plot.py b/elphmod/plot.py
index 80a8daa..dc7bd54 100644
--- a/elphmod/plot.py
+++ b/elphmod/plot.py
@@ -409,7 +409,9 @@ def color(data, cmap=None, minimum=None, maximum=None, comm=comm):
     if maximum is None:
         maximum = np.nanmax(data)
 
-    for n, x in enumerate(cmap.x):
+    positions = list(cmap.x)
+
+    for n, x in enumerate(positions):
         if type(x) is str:
             cmap.x[n] = (float(x) - minimum) / (maximum - minimum)
 
@@ -431,6 +433,8 @@ def color(data, cmap=None, minimum=None, maximum=None, comm=comm):
         my_image[my_i] = cmap(data[i]).RGB()
         status.update()
 
+    cmap.x[:] = positions # Allow for reuse with different limits.
+
     image = np.empty((*shape, 3))
 
     comm.Allgatherv(my_image, (image, sizes * 3))
-- 
2.43.0

