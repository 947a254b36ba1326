From c02929b260c42e1201e2013da85b132f6c7bc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:42 +0000
Subject: [PATCH 01/38] fix: no y-direction flow between rows of different
 layers in 3D geometry factors

get_cells_G_diag_3() zeroed a single entry of the second diagonal instead of
the whole seam between each pair of layers, so that the vectorized
transmissibility matrix of a 3D grid connected cells that are not neighbors.
---
 reservoirflow/grids/regular_cartesian.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ac7678b..10e9c4e 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2845,16 +2845,16 @@ class RegularCartesian(Grid):
         dir = self.fdir[-1]
         if boundary:
             n3 = self.nx_b * self.ny_b
-            n3_ = n3 - self.nx_b
+            n2 = self.nx_b
             n4 = n3 * self.nz_b - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx_b, n3)
         else:
             n3 = self.nx * self.ny
-            n3_ = n3 - self.nx
+            n2 = self.nx
             n4 = n3 * self.nz - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx, n3)
         if diag_2 is not None:
-            diag_2[diag_2_zero_ids] = 0
+            # no flow between the last row of a layer and the first row of
+            # the next layer (these cells are not neighbors).
+            diag_2[np.arange(len(diag_2)) % n3 >= n3 - n2] = 0
         k = self.get_cells_k(dir, boundary, False, "array")
         A = self.get_cells_A(dir, boundary, False)
         d = self.get_cells_d(dir, boundary, False)
-- 
2.43.0


From 1d2b0929e36fbb57e21351b419cb6192a0151811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 02/38] fix: icoords of boundary cells when unify=False

get_cell_icoords() dropped every zero coordinate instead of the directions
without flow, so that boundary cells (with a zero coordinate) were rejected
as not compatible.
---
 reservoirflow/grids/regular_cartesian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 10e9c4e..61b87e0 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -741,8 +741,10 @@ class RegularCartesian(Grid):
             msg = "coords are out of range."
             assert utils.helpers.isin(coords, cells_coords), msg
             if not self.unify and self.D <= 2:
-                icoords = tuple(c for c in coords[::-1] if c > 0)
-                assert len(icoords) == self.get_D(), "icoords is not compatible"
+                # keep flow directions only:
+                shape = self.get_shape(True)[::-1]
+                icoords = tuple(c for c, n in zip(coords[::-1], shape) if n > 1)
+                icoords = icoords or (0,)
             else:
                 icoords = tuple(c for c in coords[::-1])
         else:
-- 
2.43.0


From 997272687eea7d416f67e3087ff1d1584f093c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 03/38] fix: set_prop()/set_props() for a single cell selected
 by id or coords

Properties are stored flatten but were indexed with icoords (k,j,i), which
raised IndexError for every grid when unify=True.
---
 reservoirflow/grids/regular_cartesian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 61b87e0..ed40c28 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2418,7 +2418,9 @@ class RegularCartesian(Grid):
                     coords = self.get_cell_coords(id, True)
                 if coords is not None:
                     icoords = self.get_cell_icoords(coords)
-                    self.__props__[name][icoords] = value
+                    shape = self.get_fshape(True, False)
+                    # flatten array is updated in place through a view:
+                    self.__props__[name].reshape(shape)[icoords] = value
                     s = "cell coords " + str(coords)
         else:
             msg = (
-- 
2.43.0


From a76a31a1b80ed71f168eb02137e7f266a0597836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 04/38] fix: grid answers follow properties which are changed
 after a query

Cell permeability, cell geometry factor, and the homogeneity/isotropy flags
were cached and never invalidated by set_prop()/set_props(). In addition,
attributes (e.g. grid.kx, grid.phi) were not updated by set_prop().
---
 reservoirflow/grids/regular_cartesian.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ed40c28..8233163 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2429,9 +2429,23 @@ class RegularCartesian(Grid):
             )
             raise ValueError(msg)
 
+        self.__update_prop(name)
+
         if self.verbose:
             print(f"[info] {name} is {value} for {s}.")
 
+    def __update_prop(self, name):
+        """Refresh what was derived from a property after it was set."""
+        prop = self.__props__[name]
+        if name in ["kx", "ky", "kz"]:
+            self.k[name[-1]] = prop
+        if name in ["kx", "ky", "kz", "phi", "z"]:
+            setattr(self, name, prop)
+        for func in [self.get_cell_k, self.get_cell_G]:
+            func.cache_clear()
+        for flag in ["homogeneous", "heterogeneous", "isotropic", "anisotropic"]:
+            getattr(type(self), f"is_{flag}").fget.cache_clear()
+
     def get_prop(
         self,
         name,
-- 
2.43.0


From b584ad470a0b40af19e1cd7ab59c90324a8520dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 05/38] fix: isotropic check includes boundary cells

When only the permeability of boundary cells differs, the grid was treated as
isotropic and the permeability at the boundary faces was averaged
arithmetically instead of harmonically.
---
 reservoirflow/grids/regular_cartesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 8233163..77de2e3 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2731,7 +2731,7 @@ class RegularCartesian(Grid):
         props = ["kx", "ky", "kz"]
         props = [name for name in props if self.__props__[name] is not None]
         for name in props:
-            prop = self.get_prop(name, False, False)
+            prop = self.get_prop(name, True, False)
             if not np.all(prop == prop[0]):
                 return False
         return True
-- 
2.43.0


From cee7f28281de6667037f0f313253727c825d8313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 06/38] fix: remove_boundaries() of a dict honours its
 arguments and keeps its input

The input dict (possibly a cached one, e.g. from get_cells_d('all')) was
overwritten, while both points and remove arguments were ignored.
---
 reservoirflow/grids/regular_cartesian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 77de2e3..7b7394f 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -1109,9 +1109,9 @@ class RegularCartesian(Grid):
             return out_data
 
         elif isinstance(in_data, dict):
-            for k, v in in_data.items():
-                in_data[k] = self.remove_boundaries(v, remove="both")
-            return in_data
+            return {
+                k: self.remove_boundaries(v, points, remove) for k, v in in_data.items()
+            }
         else:
             raise ValueError("dtype must be ndarray.")
 
-- 
2.43.0


From be1c5dec36e3a92ab5631938b27d3c2fd2f7b042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 07/38] fix: models which share a grid do not share their
 initial rates

Initial rates were a view of an array cached in the grid, so that a boundary
rate set in one model appeared in every model created later from this grid.
---
 reservoirflow/models/black_oil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c7e002a..47e3840 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -196,7 +196,8 @@ class BlackOil(Model):
     def __get_arrays(self) -> tuple:
         ones = self.grid.get_ones(True, False, False)[np.newaxis]
         pressures = ones * np.nan
-        rates = self.grid.get_zeros(True, False, False)[np.newaxis]
+        # copy is required since get_zeros() is cached in the grid:
+        rates = self.grid.get_zeros(True, False, False)[np.newaxis].copy()
         return pressures, rates
 
     def get_init_arrays(self) -> tuple:
-- 
2.43.0


From 3d4fb8a57f8dc110f2ccc5eba5f6cd9a73a9d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 08/38] fix: cell transmissibility follows current grid and
 fluid properties

get_cell_trans() was cached for ever, while get_cells_trans() is not, so that
both disagree once viscosity, FVF, or permeability is changed. The returned
dict was also shared between callers.
---
 reservoirflow/models/black_oil.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 47e3840..3ecd82b 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -266,7 +266,6 @@ class BlackOil(Model):
         if self.verbose:
             print("[info] model compressibility (comp) was calculated.")
 
-    @_lru_cache(maxsize=None)
     def get_cell_trans(
         self,
         cell_id=None,
-- 
2.43.0


From ba750f949d9ee89acde087ba73067cfb38a8e087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 09/38] fix: wells defined by a well object act as wells
 defined by arguments

set_well(well=...) kept the well attributes without set points or constrain:
the rate was ignored and the well became a zero-pressure well at the second
step. In addition, SingleCell ignored zero values (e.g. a rate set to 0).
---
 reservoirflow/models/black_oil.py  | 4 +++-
 reservoirflow/wells/single_cell.py | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 3ecd82b..4aa87d4 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -483,7 +483,9 @@ class BlackOil(Model):
             assert (
                 cell_id in self.grid.cells_id
             ), "a well must be placed within the reservoir"
-            self.wells[cell_id] = vars(well)
+            q, pwf, r, s = (getattr(well, x, None) for x in ["q", "pwf", "r", "s"])
+            self.set_well(None, cell_id, q, pwf, r, s)
+            return
         else:
             assert cell_id is not None, "id must be defined"
             assert (
diff --git a/reservoirflow/wells/single_cell.py b/reservoirflow/wells/single_cell.py
index d512343..423de26 100644
--- a/reservoirflow/wells/single_cell.py
+++ b/reservoirflow/wells/single_cell.py
@@ -31,13 +31,13 @@ class SingleCell(Well):
         self.constrain = constrain
 
     def set_props(self, cell_id=None, q=None, s=None, r=None, constrain=None):
-        if cell_id:
+        if cell_id is not None:
             self.set_cell_id(cell_id)
-        if q:
+        if q is not None:
             self.set_q(q)
-        if s:
+        if s is not None:
             self.set_s(s)
-        if r:
+        if r is not None:
             self.set_r(r)
         self.set_constrain(constrain)
 
-- 
2.43.0


From 6d41337fe9afda7edeb0500d1d525fc1bb435b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 10/38] fix: zero well or boundary pressure in vectorized
 matrices

With a flowing pressure of zero (the default limit of every rate well), the
pressure coefficient of the well was added to vector d instead of matrix A.
With a boundary pressure of zero, get_matrices_vect() failed to unpack.
---
 reservoirflow/solutions/numerical/fdm.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8d3a161..7637329 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -544,7 +544,8 @@ class FDM(Solution):
                 ((id, T),) = self.model.get_cell_trans(id_b, None, False).items()
                 p = eval(f"sym.Symbol('p{id}')")
                 b_term = self.__calc_b_term(id, id_b, p, T)
-                v0, v1 = b_term.as_coefficients_dict().values()
+                coeffs = b_term.as_coefficients_dict()
+                v0, v1 = float(coeffs[1]), float(coeffs[p])
                 self.bdict_v[id_b] = (v0, v1, id)
                 self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += v1
                 # self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] -= T * 2
@@ -559,14 +560,8 @@ class FDM(Solution):
             elif self.model.wells[id]["constrain"] == "pwf":
                 p = eval(f"sym.Symbol('p{id}')")
                 w_term = self.__calc_w_term(id, p)
-                v = w_term.as_coefficients_dict().values()
-                if len(v) == 1:
-                    ((v0),) = v
-                    v1 = 0
-                elif len(v) == 2:
-                    v0, v1 = v
-                else:
-                    raise ValueError("unknown length")
+                coeffs = w_term.as_coefficients_dict()
+                v0, v1 = float(coeffs[1]), float(coeffs[p])
                 self.d_[self.model.cells_i_dict[id], 0] -= v0
                 if not self.resolve[id]:
                     self.A_[
-- 
2.43.0


From bf8462af4c1320268a1d0857be4df9143122936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 11/38] fix: a well at its pressure limit returns to its target
 rate

When the limit stopped binding, the well was marked as rate controlled with
the last limited rate as its rate, while its pressure term remained in the
vectorized matrix A. Now the timestep is solved again with the target rate
and the well term in A follows the control mode.
---
 reservoirflow/solutions/numerical/fdm.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 7637329..b8a8315 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -50,6 +50,7 @@ class FDM(Solution):
             using sparse computing for a better performance.
         """
         super().__init__(model, sparse)
+        self.wells_returned = {}  # tstep in which a well returned to its rate
         # newtest
         self.ds = self.model.grid.get_zeros(False, False, False)[np.newaxis]
         self.As = np.zeros((1, self.model.n * self.model.n), dtype=self.model.dtype)
@@ -537,7 +538,7 @@ class FDM(Solution):
         if self.tstep == 0 or not hasattr(self, "A_"):
             # second condition allow switching vectorize True/False after
             # timestep=0.
-            self.resolve = defaultdict(lambda: False)
+            self.A_wells = defaultdict(float)  # wells terms included in A_
             self.__init_A()
             self.bdict_v = {}
             for id_b in self.model.bdict_update:
@@ -553,6 +554,7 @@ class FDM(Solution):
         self.__init_d()
 
         for id in self.model.wells.keys():
+            v1 = 0.0
             if self.model.wells[id]["constrain"] == "q":
                 w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
                 self.d_[self.model.cells_i_dict[id], 0] -= w_term
@@ -563,13 +565,13 @@ class FDM(Solution):
                 coeffs = w_term.as_coefficients_dict()
                 v0, v1 = float(coeffs[1]), float(coeffs[p])
                 self.d_[self.model.cells_i_dict[id], 0] -= v0
-                if not self.resolve[id]:
-                    self.A_[
-                        self.model.cells_i_dict[id], self.model.cells_i_dict[id]
-                    ] += v1
-                    self.resolve[id] = True
             else:
                 pass  # no constrain
+            if v1 != self.A_wells[id]:
+                self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += (
+                    v1 - self.A_wells[id]
+                )
+                self.A_wells[id] = v1
 
         for id_b in self.model.bdict.keys():
             id = self.model.grid.get_cell_neighbors(id_b, None, False, "list")
@@ -637,7 +639,14 @@ class FDM(Solution):
             else:
                 pwf_est = self.model.wells[id]["pwf"]
 
-            if pwf_est > self.model.wells[id]["pwf_sp"]:
+            # a well returns to its rate only once in a timestep:
+            returned = self.wells_returned.get(id) == self.tstep
+            if pwf_est > self.model.wells[id]["pwf_sp"] or returned:
+                if self.model.wells[id]["constrain"] == "pwf":
+                    # pressure limit does not bind anymore.
+                    self.model.wells[id]["q"] = self.model.wells[id]["q_sp"]
+                    self.wells_returned[id] = self.tstep
+                    resolve = True
                 self.model.wells[id]["constrain"] = "q"
             else:
                 if (
-- 
2.43.0


From 8dc41fcb3e888813a27cec5f82b70c5b0975d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 12/38] fix: a well without rate or pressure does not flow

Wells without constrain were solved as zero-pressure wells in symbolic
matrices, and turned into zero-pressure wells after the first timestep in
vectorized matrices.
---
 reservoirflow/solutions/numerical/fdm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index b8a8315..2dcd18e 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -164,7 +164,9 @@ class FDM(Solution):
         float
             well flow term (w_term).
         """
-        if (
+        if self.model.wells[cell_id]["constrain"] is None:
+            return 0.0
+        elif (
             "q" in self.model.wells[cell_id]
             and self.model.wells[cell_id]["constrain"] == "q"
         ):
@@ -629,6 +631,12 @@ class FDM(Solution):
         resolve = False
         tstep_w_pressures = {}
         for id in self.model.wells.keys():
+            if self.model.wells[id]["constrain"] is None:
+                # no flow (i.e. shut well).
+                tstep_w_pressures[id] = self.pressures[self.tstep, id]
+                self.rates[self.tstep, id] = 0
+                continue
+
             if "q_sp" in self.model.wells[id]:
                 pwf_est = self.pressures[self.tstep, id] + (
                     self.model.wells[id]["q_sp"]
-- 
2.43.0


From fa8858d889be37f6579d0d8694f50bd1db8c1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 13/38] fix: keep the selected solver when a timestep is solved
 again

When a well switched its control, the timestep was solved again with the
default iterative solver instead of the selected one (e.g. direct solver).
---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 2dcd18e..28e0408 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -782,7 +782,7 @@ class FDM(Solution):
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
                 self.tstep -= 1
-                self.solve(threading, vectorize, False, True, False)
+                self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
                     print(f"[info] Time step {self.tstep} was resolved.")
 
-- 
2.43.0


From 19690cbdc35a6ae9cea1c34451a0930ec4420869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 14/38] fix: number of steps follows the solved timesteps

solve() did not update nsteps, while run() updated it in advance even if a
timestep failed, so that get_shape() and get_df(melt=True) were not
consistent with the solution arrays.
---
 reservoirflow/solutions/numerical/fdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 28e0408..1eac3a7 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -768,6 +768,7 @@ class FDM(Solution):
 
         if update:
             self.tstep += 1
+            self.nsteps = self.tstep + 1
             self.pressures = np.vstack([self.pressures, self.pressures[-1]])
             self.pressures[self.tstep, self.model.grid.cells_id] = pressures
             self.rates = np.vstack([self.rates, self.rates[-1]])
@@ -828,7 +829,6 @@ class FDM(Solution):
         - SciPy: `Iterative Solvers <https://scipy-lectures.org/advanced/scipy_sparse/solvers.html#iterative-solvers>`_.
         """
         start_time = time.time()
-        self.nsteps += nsteps
         self.run_ctime = 0
         if self.model.verbose:
             self.model.verbose = False
-- 
2.43.0


From f0e14252ce5e8a2a5af3c773777e94a0bc05e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 15/38] fix: errors in threads are not ignored while matrices
 are updated

Results of executor.map() were not consumed, so that any exception raised
while a row is updated was lost and the row kept its previous values.
---
 reservoirflow/solutions/numerical/fdm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 1eac3a7..ba95819 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -414,7 +414,8 @@ class FDM(Solution):
             with ThreadPoolExecutor(self.model.n) as executor:
                 # from concurrent.futures import ProcessPoolExecutor
                 # with ProcessPoolExecutor(2) as executor:
-                executor.map(self.__update_matrices_symb, self.model.cells_id)
+                # list is required to raise exceptions from threads:
+                list(executor.map(self.__update_matrices_symb, self.model.cells_id))
         else:
             for cell_id in self.model.cells_id:
                 self.__update_matrices_symb(cell_id)
-- 
2.43.0


From c15865d19d2092dfcf47ed5e8752cda4aff3fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 16/38] fix: isolver='minres' fails since it does not accept
 atol

---
 reservoirflow/solutions/numerical/fdm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index ba95819..e115e7d 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -754,11 +754,13 @@ class FDM(Solution):
             A, d = A.tocsc(), d.toarray()
             if isolver:
                 solver = rf.solutions.numerical.solvers.get_isolver(isolver)
+                # minres has no absolute tolerance:
+                kwargs = {} if isolver == "minres" else {"atol": 0}
                 pressures, exit_code = solver(
                     A,
                     d,
-                    atol=0,
                     # x0=self.pressures[self.tstep, self.model.cells_id],
+                    **kwargs,
                 )
                 assert exit_code == 0, "unsuccessful convergence"
             else:
-- 
2.43.0


From 01980908d7d58fe29dc426e358d621cbba2a0583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 17/38] fix: symbolic equation of a cell without constant terms

If the constant terms vanish (e.g. zero initial pressure), the accumulation
term remained as a symbol on the right side and could not be converted to
float.
---
 reservoirflow/solutions/numerical/fdm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index e115e7d..8e4d5a7 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -219,6 +219,9 @@ class FDM(Solution):
             or cell_eq.rhs.as_coefficients_dict()[1] != 0.0
         ):
             cell_eq = cell_eq.simplify()
+        if cell_eq.rhs.free_symbols:
+            # pressure symbols must be on the left side only.
+            cell_eq = sym.Eq(cell_eq.lhs - cell_eq.rhs, 0)
         return cell_eq
 
     def get_cell_eq(self, cell_id):
-- 
2.43.0


From 0c0fb8ba8c0c864b37008db1f0752c53d9760f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 18/38] fix: gravity in vectorized matrices for all geometries
 and wells

Gravity terms were added only if a rate well exists, were valid only for a
homogeneous 1D grid, and turned the sparse vector d into a dense matrix.
---
 reservoirflow/solutions/numerical/fdm.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8e4d5a7..18df5f8 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -508,22 +508,12 @@ class FDM(Solution):
 
     def __update_z(self):
         """_summary_"""
-        # ToDo
-        # ----
-        # - T for different geometries is still not ready.
-
-        # all 1D in x direction.
         z = self.model.grid.z[self.model.grid.cells_id]
         if not np.all(z == z[0]):
-            z_l = np.append(z[1:], np.nan)
-            z_u = np.append(np.nan, z[:-1])
-            dz_l = self.model.fluid.g * np.nan_to_num(z_l - z)
-            dz_u = self.model.fluid.g * np.nan_to_num(z_u - z)
-            # T = self.T["x"][self.model.grid.cells_id]
-            # T = np.diag(self.get_cells_T(True, False), 1)[self.model.cells_i]
-            T = self.model.get_cells_trans_diag(True, 1)[self.model.cells_id]
-            v = T * dz_l + T * dz_u
-            self.d_ += v.reshape(-1, 1)
+            T = self.model.get_cells_trans(False, True, True).tocsr()
+            # sum of T * (z_neighbor - z) over all neighbors:
+            T_dz = T @ z - np.asarray(T.sum(axis=1)).flatten() * z
+            self.d_[:] = self.d_ + (self.model.fluid.g * T_dz).reshape(-1, 1)
 
     def get_matrices_vect(self, threading=False):
         """_summary_
@@ -540,7 +530,6 @@ class FDM(Solution):
         _type_
             _description_
         """
-        update_z = False
         if self.tstep == 0 or not hasattr(self, "A_"):
             # second condition allow switching vectorize True/False after
             # timestep=0.
@@ -564,7 +553,6 @@ class FDM(Solution):
             if self.model.wells[id]["constrain"] == "q":
                 w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
                 self.d_[self.model.cells_i_dict[id], 0] -= w_term
-                update_z = True
             elif self.model.wells[id]["constrain"] == "pwf":
                 p = eval(f"sym.Symbol('p{id}')")
                 w_term = self.__calc_w_term(id, p)
@@ -590,8 +578,7 @@ class FDM(Solution):
                         self.tstep, id_b
                     ]
 
-        if update_z:
-            self.__update_z()
+        self.__update_z()
 
         return self.A_, self.d_
 
-- 
2.43.0


From 06fc511dc9f5953bda5818300b43b67e0398d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 19/38] fix: symbolic well terms follow the well after the
 first timestep

Well terms were updated only for wells at their pressure limit, by replacing
the last flow term of the cell: a well added after the first timestep removed
a neighbor or boundary term, while a changed rate was ignored.
---
 reservoirflow/solutions/numerical/fdm.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 18df5f8..3b47108 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -92,7 +92,6 @@ class FDM(Solution):
         dz = self.model.grid.z[cell_n_id] - self.model.grid.z[cell_id]
         return trans * ((cell_n_p - cell_p) - (self.model.fluid.g * dz))
 
-    @_lru_cache(maxsize=None)
     def __calc_b_term(
         self,
         cell_id,
@@ -269,7 +268,7 @@ class FDM(Solution):
             )
             boundaries = self.model.grid.get_cell_boundaries(id=cell_id, fmt="array")
             # f_terms: flow terms, a_terms: accumulation terms
-            terms = {"f_terms": [], "a_term": 0}
+            terms = {"f_terms": [], "w_term": 0, "a_term": 0}
             T = self.model.get_cell_trans(cell_id, None, True)
             if self.model.verbose:
                 print(f"[info] cell id: {cell_id}")
@@ -290,7 +289,7 @@ class FDM(Solution):
 
             if cell_id in self.model.wells.keys():
                 w_term = self.__calc_w_term(cell_id, cell_p)
-                terms["f_terms"].append(w_term)
+                terms["w_term"] = w_term
                 if self.model.verbose:
                     print(f"[info] Well terms: {w_term}")
 
@@ -304,18 +303,15 @@ class FDM(Solution):
 
         else:
             terms = self.model.cells_terms[cell_id]
-            if (
-                cell_id in self.model.wells.keys()
-                and self.model.wells[cell_id]["constrain"] == "pwf"
-            ):
+            if cell_id in self.model.wells.keys():
                 w_term = self.__calc_w_term(cell_id, cell_p)
                 if self.model.verbose:
                     print(f"[info] Well terms (updated): {w_term}")
-                terms["f_terms"][-1] = w_term
+                terms["w_term"] = w_term
             if self.model.comp_type == "compressible":
                 terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
 
-        cell_eq = sym.Eq(sum(terms["f_terms"]), terms["a_term"])
+        cell_eq = sym.Eq(sum(terms["f_terms"]) + terms["w_term"], terms["a_term"])
         cell_eq = self.__simplify_eq(cell_eq)
         cell_eq_lhs = cell_eq.lhs.as_coefficients_dict()
 
-- 
2.43.0


From 7b93f4611d76205af1ab9c3040694a424ea6904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 20/38] fix: boundary conditions follow the last definition

Synonyms of conditions, replaced conditions, gradient conditions and
conditions defined by set_boundary()/set_all_boundaries() or after some
timesteps were ignored or mixed in the flow equations.
---
 reservoirflow/models/black_oil.py        | 63 +++++++++++++++++-------
 reservoirflow/solutions/numerical/fdm.py | 25 +++++++---
 2 files changed, 62 insertions(+), 26 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 4aa87d4..b8d47c4 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -554,31 +554,55 @@ class BlackOil(Model):
         # - d is taken at x direction for gradient.
         cond = cond.lower()
         if cond in ["rate", "q"]:
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = v
-            self.__set_rate(self.__get_tstep(), cell_b_id, v)
+            bcond = ("rate", v)
         elif cond in ["pressure", "press", "p"]:
-            # newtest
-            # self.pressures[self.get_tstep(), cell_b_id] = v
-            self.__set_pressure(self.__get_tstep(), cell_b_id, v)
+            bcond = ("pressure", v)
         elif cond in ["gradient", "grad", "g"]:
             ((cell_id, T),) = self.get_cell_trans(cell_b_id, None, False).items()
             cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
             dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
-            self.__set_rate(
-                self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v
-            )
+            bcond = ("rate", T * self.grid.d[dir][cell_id] * v)
         else:
             raise ValueError(f"cond argument {cond} is unknown.")
 
+        self.__update_boundaries({**self.bdict, cell_b_id: bcond})
+
         if self.verbose:
             print(f"[info] boundary in cell {cell_b_id} was set to constant {cond}.")
 
+    def __update_boundaries(self, bdict):
+        """Replace boundary conditions and show them in initial arrays.
+
+        Solved timesteps are not changed, since boundaries are added by
+        the solution to each timestep.
+        """
+        solutions = [s for s in self.solutions.values() if s.tstep == 0]
+        pressures = [self.init_pressures] + [s.pressures for s in solutions]
+        rates = [self.init_rates] + [s.rates for s in solutions]
+        for p, q in zip(pressures, rates):
+            p[0, list(self.bdict)] = np.nan
+            q[0, list(self.bdict)] = 0
+            for cell_b_id, (cond, v) in bdict.items():
+                if cond == "pressure":
+                    p[0, cell_b_id] = v
+                else:
+                    q[0, cell_b_id] = v
+
+        # edges of the grid have no flow with reservoir cells.
+        self.bdict = bdict
+        self.bdict_update = [
+            id_b
+            for id_b in bdict
+            if bdict[id_b][0] == "pressure"
+            and len(self.grid.get_cell_neighbors(id_b, None, False, "list")) > 0
+        ]
+        self.cells_terms = {}
+
     def set_boundaries(self, bdict: dict):
         """Set boundary conditions using a dictionary.
 
+        Previous boundary conditions are replaced.
+
         Parameters
         ----------
         bdict : dict
@@ -586,17 +610,15 @@ class BlackOil(Model):
             id and values are a tuple of cond and value (e.g.
             {0: ("pressure", 4000), 1: ("rate", 0)})
         """
-        self.bdict = bdict
         boundaries = self.grid.get_boundaries("id", "set")
         for cell_id in bdict:
             assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
+
+        self.__update_boundaries({})
+        for cell_id in bdict:
             cond, v = bdict[cell_id]
             self.set_boundary(cell_id, cond, v)
 
-        self.bdict_update = [
-            id_b for id_b in self.bdict.keys() if self.bdict[id_b][0] == "pressure"
-        ]
-
     def set_all_boundaries(self, cond, v):
         """Set the same boundary condition in all boundaries.
 
@@ -612,8 +634,13 @@ class BlackOil(Model):
             constant value to specify the condition in cond argument.
         """
         boundaries = self.grid.get_boundaries("id", "tuple")
-        for cell_id in boundaries:
-            self.set_boundary(cell_id, cond, v)
+        self.set_boundaries(
+            {
+                id_b: (cond, v)
+                for id_b in boundaries
+                if len(self.grid.get_cell_neighbors(id_b, None, False, "list")) > 0
+            }
+        )
 
     # -------------------------------------------------------------------------
     # Flow Equations:
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 3b47108..4c5731c 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -133,10 +133,10 @@ class FDM(Solution):
         # implementation 2:
         if cell_b_id in self.model.bdict:
             cond, v = self.model.bdict[cell_b_id]
-            if cond.lower() in ["pressure", "press", "p"]:
+            if cond == "pressure":
                 dz = self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id]
                 return trans * 2 * ((v - cell_p) - (self.model.fluid.g * dz))
-            else:  # elif cond in ["rate", "q", "gradient", "grad", "g"]:
+            else:  # elif cond == "rate":
                 return v
         else:
             return 0.0
@@ -526,9 +526,14 @@ class FDM(Solution):
         _type_
             _description_
         """
-        if self.tstep == 0 or not hasattr(self, "A_"):
+        if (
+            self.tstep == 0
+            or not hasattr(self, "A_")
+            or self.A_bdict is not self.model.bdict
+        ):
             # second condition allow switching vectorize True/False after
-            # timestep=0.
+            # timestep=0, third condition allow changing boundaries.
+            self.A_bdict = self.model.bdict
             self.A_wells = defaultdict(float)  # wells terms included in A_
             self.__init_A()
             self.bdict_v = {}
@@ -569,10 +574,8 @@ class FDM(Solution):
                 id = id[0]
                 if self.model.bdict[id_b][0] == "pressure":
                     self.d_[self.model.cells_i_dict[id], 0] -= self.bdict_v[id_b][0]
-                else:  # elif self.model.bdict[id_b][0] in ["gradient", "rate"]:
-                    self.d_[self.model.cells_i_dict[id], 0] -= self.rates[
-                        self.tstep, id_b
-                    ]
+                else:  # elif self.model.bdict[id_b][0] == "rate":
+                    self.d_[self.model.cells_i_dict[id], 0] -= self.model.bdict[id_b][1]
 
         self.__update_z()
 
@@ -668,6 +671,12 @@ class FDM(Solution):
         return False
 
     def __update_boundaries(self):
+        self.pressures[self.tstep, self.model.boundaries_id] = np.nan
+        self.rates[self.tstep, self.model.boundaries_id] = 0
+        for id_b, (cond, v) in self.model.bdict.items():
+            if len(self.model.grid.get_cell_neighbors(id_b, None, False, "list")) > 0:
+                array = self.pressures if cond == "pressure" else self.rates
+                array[self.tstep, id_b] = v
         for id_b in self.model.bdict_update:
             ((id_n, T),) = self.model.get_cell_trans(id_b, None, False).items()
             p_n = self.pressures[self.tstep, id_n]
-- 
2.43.0


From b228590935ef89900173dc7c277dbc0c3b090fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 21/38] fix: names of 2D and 3D multi-phase analytical methods

---
 reservoirflow/solutions/compiler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/solutions/compiler.py b/reservoirflow/solutions/compiler.py
index 0505f1c..a543239 100644
--- a/reservoirflow/solutions/compiler.py
+++ b/reservoirflow/solutions/compiler.py
@@ -15,11 +15,11 @@ METHODS = {
         "d1p2": ["d1p2", "1d2p", "1-dimension-2-phase", "1dimension2phase"],
         "d1p3": ["d1p3", "1d3p", "1-dimension-3-phase", "1dimension3phase"],
         "d2p1": ["d2p1", "2d1p", "2-dimension-1-phase", "2dimension1phase"],
-        "d2p2": ["d2p2", "2d1p", "2-dimension-2-phase", "2dimension2phase"],
-        "d2p3": ["d2p3", "2d1p", "2-dimension-3-phase", "2dimension3phase"],
+        "d2p2": ["d2p2", "2d2p", "2-dimension-2-phase", "2dimension2phase"],
+        "d2p3": ["d2p3", "2d3p", "2-dimension-3-phase", "2dimension3phase"],
         "d3p1": ["d3p1", "3d1p", "3-dimension-1-phase", "3dimension1phase"],
-        "d3p2": ["d3p2", "3d1p", "3-dimension-2-phase", "3dimension2phase"],
-        "d3p3": ["d3p3", "3d1p", "3-dimension-3-phase", "3dimension3phase"],
+        "d3p2": ["d3p2", "3d2p", "3-dimension-2-phase", "3dimension2phase"],
+        "d3p3": ["d3p3", "3d3p", "3-dimension-3-phase", "3dimension3phase"],
     },
     "neurical": {
         "pinn": [
-- 
2.43.0


From 6542cf4280da615c2c141fdede546312f6c40ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 22/38] fix: wells pressures belong to a solution and follow
 its timesteps

---
 reservoirflow/models/black_oil.py        | 29 ++++++++++++++----------
 reservoirflow/solutions/numerical/fdm.py |  2 +-
 reservoirflow/solutions/solution.py      | 17 ++++++++++++++
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index b8d47c4..16a9c92 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -4,7 +4,6 @@ BlackOil
 """
 
 import warnings
-from collections import defaultdict
 from datetime import date
 
 import matplotlib.pyplot as plt
@@ -158,7 +157,6 @@ class BlackOil(Model):
             self.start_date = start_date
 
         self.wells = {}
-        self.w_pressures = defaultdict(list)
         if well is not None:
             self.set_well(well)
 
@@ -193,6 +191,20 @@ class BlackOil(Model):
         assert self.solution is not None, "Model was not compiled."
         return (self.solution.nsteps, self.grid.get_n(boundary))
 
+    @property
+    def w_pressures(self) -> dict:
+        """Wells pressures of the current solution.
+
+        Returns
+        -------
+        dict
+            dict of lists where keys are cells id and values are well
+            pressures in each timestep.
+        """
+        if self.solution is None:
+            return {id: [self.init_pressures[0, id]] for id in self.wells}
+        return self.solution.w_pressures
+
     def __get_arrays(self) -> tuple:
         ones = self.grid.get_ones(True, False, False)[np.newaxis]
         pressures = ones * np.nan
@@ -502,11 +514,6 @@ class BlackOil(Model):
                 self.wells[cell_id]["pwf_sp"] = pwf
                 if "q" not in self.wells[cell_id].keys():
                     self.wells[cell_id]["constrain"] = "pwf"
-                # newtest
-                # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-                self.w_pressures[cell_id].append(
-                    self.__get_pressure(self.__get_tstep(), cell_id)
-                )
             if "constrain" not in self.wells[cell_id].keys():
                 self.wells[cell_id]["constrain"] = None
             if r is not None:
@@ -519,11 +526,9 @@ class BlackOil(Model):
         if "pwf" not in self.wells[cell_id].keys():
             self.wells[cell_id]["pwf"] = 0
             self.wells[cell_id]["pwf_sp"] = 0
-            # newtest
-            # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-            self.w_pressures[cell_id].append(
-                self.__get_pressure(self.__get_tstep(), cell_id)
-            )
+
+        for solution in self.solutions.values():
+            solution.add_w_pressures(cell_id)
 
         if self.verbose:
             print(f"[info] a well in cell {cell_id} was set.")
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 4c5731c..b4f4078 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -666,7 +666,7 @@ class FDM(Solution):
                 tstep_w_pressures[id] = pwf_est
 
         for id in self.model.wells.keys():
-            self.model.w_pressures[id].append(tstep_w_pressures[id])
+            self.w_pressures[id].append(tstep_w_pressures[id])
 
         return False
 
diff --git a/reservoirflow/solutions/solution.py b/reservoirflow/solutions/solution.py
index 7da4fa0..be7afad 100644
--- a/reservoirflow/solutions/solution.py
+++ b/reservoirflow/solutions/solution.py
@@ -36,6 +36,23 @@ class Solution(ABC):
         self.nsteps = 1
         self.tstep = 0
         self.ctime = 0
+        self.w_pressures = {}
+        for cell_id in self.model.wells:
+            self.add_w_pressures(cell_id)
+
+    def add_w_pressures(self, cell_id):
+        """Add a well to wells pressures.
+
+        Well pressure is the cell pressure in timesteps before a well
+        was added.
+
+        Parameters
+        ----------
+        cell_id : int
+            cell id where a well was added.
+        """
+        if cell_id not in self.w_pressures:
+            self.w_pressures[cell_id] = list(self.pressures[:, cell_id])
 
     @abstractmethod
     def solve(self):
-- 
2.43.0


From e46eef9bb1e1c5cbac12be95afc0d5d6ec4ce072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 23/38] fix: time has one value per timestep for decimal dt

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 16a9c92..f0d9073 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -810,7 +810,7 @@ class BlackOil(Model):
         return df
 
     def __get_time_vector(self):
-        return np.arange(0, (self.__get_tstep() + 1) * self.dt, self.dt)
+        return np.arange(self.__get_tstep() + 1) * self.dt
 
     def __update_time_scaler(self):
         time = self.__get_time_vector()
-- 
2.43.0


From f93abe04a634828b9f40a8428d2ee1a872216b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 24/38] fix: a timestep which is solved again is stored once

---
 reservoirflow/solutions/numerical/fdm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index b4f4078..f9805a6 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -780,6 +780,9 @@ class FDM(Solution):
             if resolve:
                 self.rates = self.rates[: self.tstep]
                 self.pressures = self.pressures[: self.tstep]
+                self.As = self.As[: self.tstep]
+                self.ds = self.ds[: self.tstep]
+                self.nsteps = self.tstep
                 self.tstep -= 1
                 self.solve(threading, vectorize, False, True, False, isolver)
                 if self.model.verbose:
-- 
2.43.0


From 7cb39e2e8f6ca829e5c057fc187a43142d9d4911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 25/38] fix: scaled pressures when a boundary pressure is
 replaced during the run

---
 reservoirflow/models/black_oil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index f0d9073..66c1f8f 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -823,6 +823,8 @@ class BlackOil(Model):
     def __update_pressures_scaler(self, boundary):
         config = self.__get_scalers_config(boundary)
         pressures = self.get_df(columns=["cells_pressure"], **config).values
+        # a boundary pressure may be defined in some timesteps only
+        pressures = pressures[~np.isnan(pressures)]
         self.pressures_scaler.fit(pressures, axis=None)
 
     def __update_rates_scaler(self, boundary):
-- 
2.43.0


From 876dd6bf38857dd1f6086138c41a15f47772598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 26/38] fix: D1P1 pressures have one row per timestep

---
 reservoirflow/solutions/analytical/d1p1.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/solutions/analytical/d1p1.py b/reservoirflow/solutions/analytical/d1p1.py
index 804a591..a279524 100644
--- a/reservoirflow/solutions/analytical/d1p1.py
+++ b/reservoirflow/solutions/analytical/d1p1.py
@@ -36,8 +36,9 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
-        tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
+        # alpha has a value for each cell: (timesteps, cells)
+        tD_values = self.model.get_alpha() * t / (L**2)
+        xD_values = np.broadcast_to(xD.flatten(), tD_values.shape)
 
         # Dependent variable: p
         p = self.pressures
@@ -145,8 +146,9 @@ class D1P1(Solution):
         t, x = self.model.get_domain(scale=False, boundary=True)
         L = x.max() - x.min()
         xD = (x - x.min()) / L
-        tD = self.model.get_alpha() * t / (L**2)
-        tD_values, xD_values = np.meshgrid(tD, xD, indexing="ij")
+        # alpha has a value for each cell: (timesteps, cells)
+        tD_values = self.model.get_alpha() * t / (L**2)
+        xD_values = np.broadcast_to(xD.flatten(), tD_values.shape)
 
         # Dependent variable: p
         p = self.pressures
-- 
2.43.0


From 5128a2732976e79d7e8d4417fd066263bf247a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:12 +0000
Subject: [PATCH 27/38] fix: cProfiler() is switched off after an exception

---
 reservoirflow/utils/profme.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/utils/profme.py b/reservoirflow/utils/profme.py
index bf0435c..82b14a2 100644
--- a/reservoirflow/utils/profme.py
+++ b/reservoirflow/utils/profme.py
@@ -64,8 +64,10 @@ def cProfiler(sort_stats="tottime", print_output=True, save_output=False):
             pr = cProfile.Profile()
             s = io.StringIO()
             pr.enable()
-            _func = func(*args, **kwargs)
-            pr.disable()
+            try:
+                _func = func(*args, **kwargs)
+            finally:
+                pr.disable()
             stats = pstats.Stats(pr, stream=s).sort_stats(sort_stats)
             stats.print_stats()
             result = s.getvalue()
-- 
2.43.0


From 13f2ab3b4cfa0f41f891c281b550de7a7a6ba81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 28/38] fix: a refused well is not kept by set_well()

A well which could not be calculated (e.g. without radius) stayed in
model.wells and failed in every timestep.
---
 reservoirflow/models/black_oil.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 66c1f8f..654ce27 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -503,8 +503,8 @@ class BlackOil(Model):
             assert (
                 cell_id in self.grid.cells_id
             ), "a well must be placed within the reservoir"
-            if cell_id not in self.wells:
-                self.wells[cell_id] = {}
+            well_old = self.wells.get(cell_id)
+            self.wells[cell_id] = dict(well_old or {})
             if q is not None:
                 self.wells[cell_id]["q"] = q
                 self.wells[cell_id]["q_sp"] = q
@@ -521,8 +521,16 @@ class BlackOil(Model):
             if s is not None:
                 self.wells[cell_id]["s"] = s
 
-        self.wells[cell_id]["r_eq"] = self.__calc_well_r_eq(cell_id)
-        self.wells[cell_id]["G"] = self.__calc_well_G(cell_id)
+        try:
+            self.wells[cell_id]["r_eq"] = self.__calc_well_r_eq(cell_id)
+            self.wells[cell_id]["G"] = self.__calc_well_G(cell_id)
+        except Exception:
+            # a refused well (e.g. without radius) is not kept.
+            if well_old is None:
+                del self.wells[cell_id]
+            else:
+                self.wells[cell_id] = well_old
+            raise
         if "pwf" not in self.wells[cell_id].keys():
             self.wells[cell_id]["pwf"] = 0
             self.wells[cell_id]["pwf_sp"] = 0
-- 
2.43.0


From 3c70a258a724f75e9fc6471f88af4d4c6098078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 29/38] fix: refused boundary conditions change nothing

set_boundaries() lost the last definition when a condition was unknown
and set_boundary() accepted cells which are not boundaries.
---
 reservoirflow/models/black_oil.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 654ce27..68bf6bd 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -565,6 +565,8 @@ class BlackOil(Model):
         # ToDo
         # ----
         # - d is taken at x direction for gradient.
+        boundaries = self.grid.get_boundaries("id", "set")
+        assert cell_b_id in boundaries, f"cell {cell_b_id} is not a boundary cell."
         cond = cond.lower()
         if cond in ["rate", "q"]:
             bcond = ("rate", v)
@@ -627,10 +629,16 @@ class BlackOil(Model):
         for cell_id in bdict:
             assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
 
+        bdict_old = self.bdict
         self.__update_boundaries({})
-        for cell_id in bdict:
-            cond, v = bdict[cell_id]
-            self.set_boundary(cell_id, cond, v)
+        try:
+            for cell_id in bdict:
+                cond, v = bdict[cell_id]
+                self.set_boundary(cell_id, cond, v)
+        except Exception:
+            # a refused definition does not replace the last one.
+            self.__update_boundaries(bdict_old)
+            raise
 
     def set_all_boundaries(self, cond, v):
         """Set the same boundary condition in all boundaries.
-- 
2.43.0


From e0032a4ef05977cd9e4598be2754b4b38c0d4e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 30/38] fix: a singular timestep is refused by the sparse
 direct solver

---
 reservoirflow/solutions/numerical/fdm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index f9805a6..a3d7846 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -760,6 +760,9 @@ class FDM(Solution):
                 assert exit_code == 0, "unsuccessful convergence"
             else:
                 pressures = ssl.spsolve(A, d, use_umfpack=True)
+                # spsolve() only warns:
+                if not np.isfinite(pressures).all():
+                    raise np.linalg.LinAlgError("Matrix is singular.")
             A = A.toarray()
         else:
             pressures = sl.solve(A, d).flatten()
-- 
2.43.0


From f49f8073dda3b99a495f1d4736fddac4c772a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 31/38] fix: a compressible model without initial pressure is
 refused

---
 reservoirflow/solutions/numerical/fdm.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index a3d7846..7135c00 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -205,12 +205,11 @@ class FDM(Solution):
         if self.model.comp_type == "incompressible":
             return 0.0
         else:
-            try:
-                return self.model.RHS[cell_id] * (
-                    cell_p - self.pressures[self.tstep, cell_id]
-                )
-            except:
+            if np.isnan(self.pressures[self.tstep, cell_id]):
                 raise ValueError("Initial pressure (pi) must be specified")
+            return self.model.RHS[cell_id] * (
+                cell_p - self.pressures[self.tstep, cell_id]
+            )
 
     def __simplify_eq(self, cell_eq):
         if (
@@ -492,13 +491,12 @@ class FDM(Solution):
             self.d_ = np.zeros((self.model.n, 1), dtype=self.model.dtype)
 
         if self.model.comp_type == "compressible":
-            try:
-                self.d_[:] = (
-                    -self.model.RHS[self.model.grid.cells_id]
-                    * self.pressures[self.tstep, self.model.grid.cells_id]
-                ).reshape(-1, 1)
-            except:
-                raise Exception("Initial pressure (pi) must be specified")
+            if np.isnan(self.pressures[self.tstep, self.model.grid.cells_id]).any():
+                raise ValueError("Initial pressure (pi) must be specified")
+            self.d_[:] = (
+                -self.model.RHS[self.model.grid.cells_id]
+                * self.pressures[self.tstep, self.model.grid.cells_id]
+            ).reshape(-1, 1)
 
         return self.d_
 
-- 
2.43.0


From 234f733c8cf67d73f03c9eb4a8d71dfc0d257dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 32/38] fix: plots read the selected solution

---
 reservoirflow/models/black_oil.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 68bf6bd..8858867 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -1134,14 +1134,16 @@ class BlackOil(Model):
         tstep : int, optional
             time step. If None, the last time step is selected.
         """
+        assert self.solution is not None, "Model was not compiled."
         if tstep is None:
             tstep = self.__get_tstep()
 
+        values = getattr(self.solution, prop)
         if id is not None:
-            exec(f"plt.plot(self.{prop}[:, id].flatten())")
+            plt.plot(values[:, id].flatten())
             plt.xlabel("Days")
         elif tstep is not None:
-            exec(f"plt.plot(self.{prop}[tstep, :].flatten())")
+            plt.plot(values[tstep, :].flatten())
             plt.xlabel("Grid (id)")
             boundary = True
             x_skip = 5
@@ -1153,10 +1155,12 @@ class BlackOil(Model):
         plt.show()
 
     def plot_grid(self, property: str = "pressures", tstep: int = None):
+        assert self.solution is not None, "Model was not compiled."
         if tstep is None:
             tstep = self.__get_tstep()
         cells_id = self.grid.get_cells_id(False, False, "list")
-        exec(f"plt.imshow(self.{property}[tstep][cells_id][np.newaxis, :])")
+        values = getattr(self.solution, property)
+        plt.imshow(values[tstep][cells_id][np.newaxis, :])
         plt.colorbar(label=f"{property.capitalize()} ({self.units[property[:-1]]})")
         plt.title(f"{property.capitalize()} Distribution")
         plt.yticks([])
-- 
2.43.0


From 537d3002f1ad765309512ed5e3bb963d8cc423ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 33/38] fix: the grid plot names all cells of the grid

---
 reservoirflow/models/black_oil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 8858867..117b8b4 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -1165,7 +1165,8 @@ class BlackOil(Model):
         plt.title(f"{property.capitalize()} Distribution")
         plt.yticks([])
         plt.xlabel("Grid (i)")
-        plt.xticks(ticks=range(0, 4), labels=range(1, 5))
+        n = self.grid.get_n(False)
+        plt.xticks(ticks=range(0, n), labels=range(1, n + 1))
         plt.show()
 
     def copy(self):
-- 
2.43.0


From ad1c030553933e1ed17aa3b084efda2ea47b60ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 34/38] fix: cell plots are drawn over time

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 117b8b4..7ad6c60 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -1140,7 +1140,7 @@ class BlackOil(Model):
 
         values = getattr(self.solution, prop)
         if id is not None:
-            plt.plot(values[:, id].flatten())
+            plt.plot(self.get_time().flatten(), values[:, id].flatten())
             plt.xlabel("Days")
         elif tstep is not None:
             plt.plot(values[tstep, :].flatten())
-- 
2.43.0


From 3e7b4493619e663dfb45132035ed6201e79524d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 35/38] fix: diffusivity follows current grid and fluid
 properties

---
 reservoirflow/models/black_oil.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 7ad6c60..4a35da3 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -681,7 +681,6 @@ class BlackOil(Model):
             raise ValueError("compressibility type is unknown.")
         return self.RHS
 
-    @_lru_cache(maxsize=1)
     def get_alpha(
         self,
     ):
-- 
2.43.0


From 01d590d60ba11e21216111686296b4d765a2ba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 36/38] fix: messages are switched on again after a run which
 failed

---
 reservoirflow/solutions/numerical/fdm.py | 27 ++++++++++++------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 7135c00..91a7e71 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -846,16 +846,20 @@ class FDM(Solution):
             leave=True,
         )
 
-        for step in pbar:
-            pbar.set_description(f"[step] {step}")
-            self.solve(
-                threading,
-                vectorize,
-                check_MB,
-                True,
-                print_arrays,
-                isolver,
-            )
+        try:
+            for step in pbar:
+                pbar.set_description(f"[step] {step}")
+                self.solve(
+                    threading,
+                    vectorize,
+                    check_MB,
+                    True,
+                    print_arrays,
+                    isolver,
+                )
+        finally:
+            # also after a step which failed:
+            self.model.verbose = verbose_restore
 
         self.run_ctime = round(time.time() - start_time, 2)
         self.ctime += self.run_ctime
@@ -866,9 +870,6 @@ class FDM(Solution):
         if check_MB:
             print(f"[info] Material Balance Error: {self.error}.")
 
-        if verbose_restore:
-            self.model.verbose = True
-
     # -------------------------------------------------------------------------
     # Material Balance:
     # -------------------------------------------------------------------------
-- 
2.43.0


From 8cf5bd89d2c026a3a2f34cdc4c9d501f913f275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:04 +0000
Subject: [PATCH 37/38] fix: a refused compressibility changes nothing

---
 reservoirflow/fluids/fluid.py | 3 +--
 reservoirflow/grids/grid.py   | 3 +--
 reservoirflow/models/model.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/fluids/fluid.py b/reservoirflow/fluids/fluid.py
index b740c29..8fadb4c 100644
--- a/reservoirflow/fluids/fluid.py
+++ b/reservoirflow/fluids/fluid.py
@@ -54,14 +54,13 @@ class Fluid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/grids/grid.py b/reservoirflow/grids/grid.py
index c81ec02..b8a3565 100644
--- a/reservoirflow/grids/grid.py
+++ b/reservoirflow/grids/grid.py
@@ -80,14 +80,13 @@ class Grid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/models/model.py b/reservoirflow/models/model.py
index 6552f7e..873e350 100644
--- a/reservoirflow/models/model.py
+++ b/reservoirflow/models/model.py
@@ -65,14 +65,13 @@ class Model(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
             self.comp_type = "incompressible"
         elif comp > 0:
             self.comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
 
     def compile(
         self,
-- 
2.43.0


From affbf8f980fc083b81786a39ded45ebabfe8a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:04 +0000
Subject: [PATCH 38/38] fix: shaped arrays are accepted as property values

---
 reservoirflow/grids/regular_cartesian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 7b7394f..34aa3de 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2411,6 +2411,8 @@ class RegularCartesian(Grid):
         #     s = "cell id " + str(id)
         if name in self.__props__.keys():
             if id is None and coords is None:
+                if np.ndim(value) > 1:
+                    value = np.ravel(value)  # natural order
                 self.__props__[name] = self.get_ones(True, False, False) * value
                 s = "all cells"
             else:
-- 
2.43.0

