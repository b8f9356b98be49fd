From 5e81f31256f2cbb8e5be6463a62b56c9a768f038 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 01/40] fix: flux approximation returned values of an earlier
 DOF vector

The cache compared against a reference of the last DOF vector (stale after an
in-place update) and against uninitialised memory before the first call.
---
 finite_element/flux_approximation.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/finite_element/flux_approximation.py b/finite_element/flux_approximation.py
index d7434f1..de9cc9f 100644
--- a/finite_element/flux_approximation.py
+++ b/finite_element/flux_approximation.py
@@ -18,18 +18,12 @@ class FluxApproximation:
     """
 
     _flux: Callable[[np.ndarray], np.ndarray]
-    _flux_approximation: np.ndarray
-    _last_dof_vector = np.empty(1)
 
     def __init__(self, flux: Callable[[np.ndarray], np.ndarray]):
         self._flux = flux
 
     def __call__(self, dof_vector: np.ndarray) -> np.ndarray:
-        if (dof_vector != self._last_dof_vector).any():
-            self._flux_approximation = self._flux(dof_vector)
-            self._last_dof_vector = dof_vector
-
-        return self._flux_approximation
+        return self._flux(dof_vector)
 
 
 def build_flux_approximation(problem: str) -> FluxApproximation:
-- 
2.43.0


From a33a146706b732ecee7c0fac6a7f709f15a2c4c9 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 02/40] fix: discrete solution shared its value array with the
 caller

The solver passes the ODE solver's state, which is updated in place. A rejected
update (non finite values) therefore still overwrote the stored solution.
---
 core/discrete_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index fd2cd8c..4b64ece 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -23,7 +23,7 @@ class DiscreteSolution(Generic[T]):
         space=None,
     ):
         self._time = initial_time
-        self._value = initial_value
+        self._value = initial_value.copy()
         self._space = space
 
     @property
@@ -55,7 +55,7 @@ class DiscreteSolution(Generic[T]):
             raise ValueError("Solution is not finite.")
 
         self._time += time_step
-        self._value = value
+        self._value = value.copy()
 
     def set_value(self, value: np.ndarray, time=0.0):
         self.update(time - self._time, value)
-- 
2.43.0


From 0ace9c7c14a6c77c0d315a992d9d0deff9f0b4e9 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 03/40] fix: wave speed of scalar Riemann problems ignored
 negative velocities

For negative Burgers states the Lax-Friedrichs flux became anti-diffusive.
---
 finite_volume/scalar/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/scalar/core.py b/finite_volume/scalar/core.py
index f7aa1b3..5b94624 100644
--- a/finite_volume/scalar/core.py
+++ b/finite_volume/scalar/core.py
@@ -22,7 +22,7 @@ class WaveSpeed:
 
     def __call__(self, value_left, value_right) -> Tuple:
         wave_speed = np.maximum(
-            self._flux_prime(value_left), self._flux_prime(value_right)
+            np.abs(self._flux_prime(value_left)), np.abs(self._flux_prime(value_right))
         )
 
         return -wave_speed, wave_speed
-- 
2.43.0


From b8a5f1cfa559637b8d955ddd52a67366c9e6a33f Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 04/40] fix: Riemann solver returned NaN for Riemann problems
 without waves

---
 core/riemann_solver.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/core/riemann_solver.py b/core/riemann_solver.py
index 09a0837..9b68dc9 100644
--- a/core/riemann_solver.py
+++ b/core/riemann_solver.py
@@ -1,5 +1,7 @@
 from typing import Any, Callable, Tuple
 
+import numpy as np
+
 FLUX = Callable
 WAVE_SPEED = Callable
 
@@ -28,11 +30,18 @@ class RiemannSolver:
             value_left, value_right
         )
 
-        factor = 1 / (self._wave_speed_right - self._wave_speed_left)
-        self.intermediate_state = factor * (
-            self._wave_speed_right * value_right
-            - self._wave_speed_left * value_left
-            - (self.flux_right - self.flux_left)
+        fan_width = self._wave_speed_right - self._wave_speed_left
+        no_waves = fan_width == 0
+        factor = 1 / np.where(no_waves, 1, fan_width)
+        self.intermediate_state = np.where(
+            no_waves,
+            (value_left + value_right) / 2,
+            factor
+            * (
+                self._wave_speed_right * value_right
+                - self._wave_speed_left * value_left
+                - (self.flux_right - self.flux_left)
+            ),
         )
 
         return (
-- 
2.43.0


From 2426689d74d87590b41e770e82bc8298469b2e71 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 05/40] fix: scalar finite volume MCL was not conservative for
 periodic boundaries

The local bounds of the ghost cells differed from those of the cells they copy,
such that the limited fluxes of the first and last node did not coincide.
---
 finite_volume/index_mapping.py     | 11 ++++++++---
 finite_volume/scalar/solver/mcl.py |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/finite_volume/index_mapping.py b/finite_volume/index_mapping.py
index d46c68c..49f4cfe 100644
--- a/finite_volume/index_mapping.py
+++ b/finite_volume/index_mapping.py
@@ -7,14 +7,19 @@ class NeighbourIndicesMapping(index_mapping.NeighbourIndicesMapping):
     """Returns neighboured indices for a DOF index (finite elements). It
     contains all DOF indices of the cells it belongs to.
 
+    GHOST_CELLS denotes how many of the MESH_SIZE cells on each side are ghost
+    cells, i.e. (in the periodic case) copies of the cells at the other side.
+
     """
 
     _mesh_size: int
     _periodic: bool
+    _ghost_cells: int
 
-    def __init__(self, mesh_size: int, periodic=False):
+    def __init__(self, mesh_size: int, periodic=False, ghost_cells=0):
         self._mesh_size = mesh_size
         self._periodic = periodic
+        self._ghost_cells = ghost_cells
 
         neighbours = self._build_neighbours()
         self._neighbour_indices = self._build_neighbours_array(neighbours)
@@ -25,7 +30,7 @@ class NeighbourIndicesMapping(index_mapping.NeighbourIndicesMapping):
         neighbour_indices[-1] -= set([self._mesh_size])
 
         if self._periodic:
-            neighbour_indices[0] |= set([self._mesh_size - 1])
-            neighbour_indices[-1] |= set([0])
+            neighbour_indices[0] |= set([self._mesh_size - 1 - 2 * self._ghost_cells])
+            neighbour_indices[-1] |= set([2 * self._ghost_cells])
 
         return neighbour_indices
diff --git a/finite_volume/scalar/solver/mcl.py b/finite_volume/scalar/solver/mcl.py
index 9abc814..5169038 100644
--- a/finite_volume/scalar/solver/mcl.py
+++ b/finite_volume/scalar/solver/mcl.py
@@ -89,7 +89,9 @@ class MCLFluxGetter(finite_volume.FluxGetter):
     ) -> finite_volume.NumericalFlux:
         riemann_solver = scalar.get_riemann_solver(benchmark.problem)
         neighbours_mapping = finite_volume.NeighbourIndicesMapping(
-            len(space.mesh) + 2, benchmark.boundary_conditions == ("periodic",)
+            len(space.mesh) + 2,
+            benchmark.boundary_conditions == ("periodic",),
+            ghost_cells=1,
         )
         return MCLFlux(riemann_solver, neighbours_mapping)
 
-- 
2.43.0


From 8c24c3c4a286aec7054c0f9489bb33045191ad66 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 06/40] fix: RungeKutta8 could not be used by solvers

Its initial time argument was named differently to the other ODE solvers, so cg
with polynomial degree three or higher crashed.
---
 core/ode_solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ode_solver.py b/core/ode_solver.py
index 278bbf5..ecbe052 100644
--- a/core/ode_solver.py
+++ b/core/ode_solver.py
@@ -130,9 +130,12 @@ class RungeKutta8(ExplicitRungeKuttaMethod):
     """
 
     def __init__(
-        self, right_hand_side: Callable[[float, T], T], initial_value: T, start_time=0
+        self,
+        right_hand_side: Callable[[float, T], T],
+        initial_value: T,
+        initial_time=0.0,
     ):
-        super().__init__(right_hand_side, initial_value, start_time)
+        super().__init__(right_hand_side, initial_value, initial_time)
         self._build_runge_kutta_matrix()
         self._build_weights()
         self._build_nodes()
-- 
2.43.0


From f42bdee396d3c58ed4b9142a5b5b9a74482ad72a Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 07/40] fix: finite element solvers did not accept
 ++polynomial-degree

---
 finite_element/scalar/solver/cg.py     | 1 +
 finite_element/scalar/solver/cg_low.py | 1 +
 finite_element/scalar/solver/mcl.py    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/finite_element/scalar/solver/cg.py b/finite_element/scalar/solver/cg.py
index 9633ca7..d583ef0 100644
--- a/finite_element/scalar/solver/cg.py
+++ b/finite_element/scalar/solver/cg.py
@@ -91,6 +91,7 @@ class CGParser(finite_element.SolverParser):
     solver = ContinuousGalerkinSolver
 
     def _add_arguments(self):
+        super()._add_arguments()
         self.add_argument(
             "++exact-flux", action="store_true", help="Calculate flux matrices exactly."
         )
diff --git a/finite_element/scalar/solver/cg_low.py b/finite_element/scalar/solver/cg_low.py
index 1e7c2b1..7fdd4fd 100644
--- a/finite_element/scalar/solver/cg_low.py
+++ b/finite_element/scalar/solver/cg_low.py
@@ -130,5 +130,6 @@ class CGLowParser(finite_element.SolverParser):
     _cfl_default = 1.0
 
     def _add_arguments(self):
+        super()._add_arguments()
         self._add_adaptive_time_stepping()
         self._add_ode_solver()
diff --git a/finite_element/scalar/solver/mcl.py b/finite_element/scalar/solver/mcl.py
index af2d562..65411f9 100644
--- a/finite_element/scalar/solver/mcl.py
+++ b/finite_element/scalar/solver/mcl.py
@@ -164,5 +164,6 @@ class MCLParser(finite_element.SolverParser):
     _cfl_default = 1.0
 
     def _add_arguments(self):
+        super()._add_arguments()
         self._add_adaptive_time_stepping()
         self._add_ode_solver()
-- 
2.43.0


From 49cab27f6d2cf28662682c93f0c3ddd93380b7cc Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 08/40] fix: solver option values equal to a solver key started
 a new solver

E.g. '-s mcl ++flux llf' or '-s lw +s llf' were split into two solvers.
---
 core/solver.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/solver.py b/core/solver.py
index 1be643b..dfd744b 100644
--- a/core/solver.py
+++ b/core/solver.py
@@ -213,7 +213,7 @@ class SolverAction(argparse.Action):
             if (
                 i > 0
                 and value in self.solver_parsers.keys()
-                and values[i - 1] not in ["+f"]
+                and not self._expects_value(values[0], values[i - 1])
             ):
                 slice_index = i
                 break
@@ -223,6 +223,17 @@ class SolverAction(argparse.Action):
 
         return solver_arguments
 
+    def _expects_value(self, solver_key: str, option: str) -> bool:
+        """Returns whether OPTION is a solver option followed by a value."""
+        if solver_key not in self.solver_parsers or not option.startswith("+"):
+            return False
+
+        return any(
+            action.nargs != 0
+            for action in self.solver_parsers[solver_key]._actions
+            if any(string.startswith(option) for string in action.option_strings)
+        )
+
     def _get_solver_namespace(
         self, raw_solver_arguments: Sequence[str]
     ) -> argparse.Namespace:
-- 
2.43.0


From 452ed9daf061145f62ecc02f58fb83e5727cff2d Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 09/40] fix: generate-data ignored its end time option

---
 command/generate_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/command/generate_data.py b/command/generate_data.py
index 3b9d4b6..31895c4 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -474,6 +474,8 @@ class GenerateDataParser(CalculateParser):
         self._build_directory(arguments)
         arguments.overwrite = not arguments.append
         arguments.benchmark = shallow_water.OscillationNoTopographyBenchmark()
+        if arguments.end_time:
+            arguments.benchmark.end_time = arguments.end_time
         self._build_solver(arguments)
         arguments.solver = arguments.solver[0]
 
-- 
2.43.0


From a017b3cd4caacf7c6ea8a8c954eeb7249ef59205 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 10/40] fix: --save-plot of error evolution series crashed

---
 command/error_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/error_evolution.py b/command/error_evolution.py
index 5367268..2dbcc28 100644
--- a/command/error_evolution.py
+++ b/command/error_evolution.py
@@ -259,7 +259,7 @@ class GenerateShallowWaterErrorEvolutionSeries(Command):
 
         if self._save_plot:
             plotter = ShallowWaterPlotter(
-                benchmark, show=False, save=f"{self._directory}/plot_{index}.png"
+                benchmark, show=False, save_plot=f"{self._directory}/plot_{index}.png"
             )
             Plot(
                 benchmark, solver, plotter, solver_executed=True, write_warnings=False
-- 
2.43.0


From 69293e9d30e583fcafa3e1b8e9d3e68c986a123b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 11/40] fix: data analysis commands called functions which do
 not exist

---
 command/analyze_curvature.py | 9 ++++++---
 command/analyze_data.py      | 6 ++++--
 command/delete_curvature.py  | 7 +++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/command/analyze_curvature.py b/command/analyze_curvature.py
index b7224c6..7fd17cc 100644
--- a/command/analyze_curvature.py
+++ b/command/analyze_curvature.py
@@ -1,7 +1,6 @@
 import argparse
 from typing import Any
 
-import core
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -101,8 +100,12 @@ class PlotCurvatureAgainstSubgridFlux(Command):
         self._save = save
 
     def execute(self):
-        df_llf = core.load_data("data/reduced-llf/data.csv")
-        df_es1 = core.load_data("data/reduced-es1/data.csv")
+        df_llf = pd.read_csv(
+            "data/reduced-llf/data.csv", header=[0, 1], skipinitialspace=True, index_col=0
+        )
+        df_es1 = pd.read_csv(
+            "data/reduced-es1/data.csv", header=[0, 1], skipinitialspace=True, index_col=0
+        )
 
         curvature = Curvature(2.0)
         curvature_llf = curvature.transform(df_llf.values[:, :8])
diff --git a/command/analyze_data.py b/command/analyze_data.py
index 372f111..86905ba 100644
--- a/command/analyze_data.py
+++ b/command/analyze_data.py
@@ -1,8 +1,8 @@
 import argparse
 from typing import Any, List, Tuple
 
-import core
 import matplotlib.pyplot as plt
+import pandas as pd
 
 from .command import Command, CommandParser
 
@@ -17,7 +17,9 @@ class AnalyzeData(Command):
 
     def execute(self):
         for data_path in self._data_paths:
-            data = core.load_data(data_path)
+            data = pd.read_csv(
+                data_path, header=[0, 1], skipinitialspace=True, index_col=0
+            )
             print(data_path.upper())
             print("-" * len(data_path))
             print(data.describe())
diff --git a/command/delete_curvature.py b/command/delete_curvature.py
index 4a44002..bb911fe 100644
--- a/command/delete_curvature.py
+++ b/command/delete_curvature.py
@@ -2,6 +2,7 @@ import argparse
 from typing import Any
 
 import core
+import pandas as pd
 from finite_volume.shallow_water.solver.reduced_model import Curvature
 
 from .command import Command, CommandParser
@@ -29,7 +30,9 @@ class DeleteCurvature(Command):
         self._curvature_discharge_threshold = curvature_discharge_threshold or 0.5
 
     def execute(self):
-        df = core.load_data(self._data_path)
+        df = pd.read_csv(
+            self._data_path, header=[0, 1], skipinitialspace=True, index_col=0
+        )
         curvature = Curvature(step_length=self._step_length).transform(
             df.values[:, :8]
         )[:, 8:]
@@ -39,7 +42,7 @@ class DeleteCurvature(Command):
             & (curvature[:, 1] < self._curvature_discharge_threshold)
         ]
 
-        core.save_data(df, self._target_path)
+        df.to_csv(self._target_path)
 
 
 class DeleteCurvatureParser(CommandParser):
-- 
2.43.0


From cc610599271df8ccaa3606e57ffefdde649eb573 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 12/40] fix: flux getters could not be called with a bathymetry

---
 finite_volume/shallow_water/numerical_flux.py       | 7 ++++---
 finite_volume/shallow_water/solver/energy_stable.py | 7 ++++---
 finite_volume/shallow_water/solver/lax_wendroff.py  | 7 ++++---
 finite_volume/shallow_water/solver/low_order.py     | 7 ++++---
 finite_volume/shallow_water/solver/reduced_model.py | 7 ++++---
 5 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/finite_volume/shallow_water/numerical_flux.py b/finite_volume/shallow_water/numerical_flux.py
index 27e3206..acae6b3 100644
--- a/finite_volume/shallow_water/numerical_flux.py
+++ b/finite_volume/shallow_water/numerical_flux.py
@@ -75,9 +75,10 @@ class FluxGetter(finite_volume.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
         numerical_flux = self._get_flux(benchmark)
 
         return NumericalFlux(
diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index adc92ee..3970c94 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -138,9 +138,10 @@ class FirstOrderDiffusiveEnergyStableFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
         return FirstOrderDiffusiveEnergyStableFlux(
             benchmark.gravitational_acceleration, bathymetry
         )
diff --git a/finite_volume/shallow_water/solver/lax_wendroff.py b/finite_volume/shallow_water/solver/lax_wendroff.py
index bd2ec34..4dbbaba 100644
--- a/finite_volume/shallow_water/solver/lax_wendroff.py
+++ b/finite_volume/shallow_water/solver/lax_wendroff.py
@@ -47,9 +47,10 @@ class LaxWendroffFluxGetter(finite_volume.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
         numerical_flux = LaxWendroffFlux(
             space.mesh.step_length, benchmark.gravitational_acceleration
         )
diff --git a/finite_volume/shallow_water/solver/low_order.py b/finite_volume/shallow_water/solver/low_order.py
index f644df6..5e3db06 100644
--- a/finite_volume/shallow_water/solver/low_order.py
+++ b/finite_volume/shallow_water/solver/low_order.py
@@ -119,9 +119,10 @@ class LowOrderFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
 
         return LowOrderFlux(
             benchmark.gravitational_acceleration,
diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index a63293a..5238c6b 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -190,9 +190,10 @@ class ReducedFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(
+                benchmark, len(space.mesh)
+            )
         numerical_flux = self._flux_getter(benchmark, space)
         numerical_flux = finite_volume.CorrectedNumericalFlux(
             numerical_flux, self._subgrid_flux
-- 
2.43.0


From 264c8a4de2770a042227d87ffc819848df0f7f1e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 13/40] fix: random benchmarks replaced parameters and seeds
 equal to zero

---
 benchmark/shallow_water.py | 43 +++++++++++++++++++++++++++-----------
 command/generate_data.py   |  2 +-
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 95d98e8..50b6a78 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -1,4 +1,4 @@
-from typing import Dict
+from typing import Callable, Dict
 
 import defaults
 import numpy as np
@@ -220,6 +220,11 @@ class OscillationNoTopographyBenchmark(ShallowWaterBenchmark):
         }
 
 
+def _get_value(value, draw: Callable):
+    """Returns VALUE and draws one only if none is given."""
+    return value if value is not None else draw()
+
+
 class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
     seed: int
     _generator: np.random.Generator
@@ -242,16 +247,28 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
         super().__init__(
             end_time=end_time,
-            height_average=height_average or HEIGHT_AVERAGE,
-            height_amplitude=height_amplitude or self._generator.uniform(0.2, 0.6),
-            height_phase_shift=height_phase_shift
-            or self._generator.uniform(0, 2 * np.pi),
-            height_wave_number=height_wave_number or self._generator.integers(1, 6),
-            velocity_average=velocity_average or self._generator.uniform(1, 2),
-            velocity_amplitude=velocity_amplitude or self._generator.uniform(0.2, 0.6),
-            velocity_phase_shift=velocity_phase_shift
-            or self._generator.uniform(0, 2 * np.pi),
-            velocity_wave_number=velocity_wave_number or self._generator.integers(1, 5),
+            height_average=height_average,
+            height_amplitude=_get_value(
+                height_amplitude, lambda: self._generator.uniform(0.2, 0.6)
+            ),
+            height_phase_shift=_get_value(
+                height_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
+            ),
+            height_wave_number=_get_value(
+                height_wave_number, lambda: self._generator.integers(1, 6)
+            ),
+            velocity_average=_get_value(
+                velocity_average, lambda: self._generator.uniform(1, 2)
+            ),
+            velocity_amplitude=_get_value(
+                velocity_amplitude, lambda: self._generator.uniform(0.2, 0.6)
+            ),
+            velocity_phase_shift=_get_value(
+                velocity_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
+            ),
+            velocity_wave_number=_get_value(
+                velocity_wave_number, lambda: self._generator.integers(1, 5)
+            ),
         )
 
     def as_dict(self) -> Dict:
@@ -267,7 +284,9 @@ class RandomBenchmarkGenerator:
         self._benchmark_kwargs = {"end_time": end_time or 40.0} | kwargs
 
     def __call__(self, seed=None) -> RandomOscillationNoTopographyBenchmark:
-        seed = seed or self._seed_generator.integers(int(1e9))
+        if seed is None:
+            seed = self._seed_generator.integers(int(1e9))
+
         return RandomOscillationNoTopographyBenchmark(seed, **self._benchmark_kwargs)
 
     def __repr__(self) -> str:
diff --git a/command/generate_data.py b/command/generate_data.py
index 31895c4..252c49c 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -303,7 +303,7 @@ class GenerateData(Command):
         self._solver = solver
         self._solution_number = solution_number or defaults.SOLUTION_NUMBER
         self._get_benchmark = shallow_water.RandomBenchmarkGenerator(
-            seed=seed or defaults.SEED, end_time=end_time
+            seed=seed if seed is not None else defaults.SEED, end_time=end_time
         )
         self._benchmark_df_builder = BenchparkParameterDataFrameBuilder()
         self._subgrid_flux_df_builder = self._get_subgrid_flux_data_frame_builder(
-- 
2.43.0


From d2a90539d46e73f4d3c37243ea3844af48389b10 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 14/40] fix: antidiffusion solver replaced a vanishing gamma by
 the default

---
 finite_volume/shallow_water/solver/antidiffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/shallow_water/solver/antidiffusion.py b/finite_volume/shallow_water/solver/antidiffusion.py
index 85c15dd..ed422af 100644
--- a/finite_volume/shallow_water/solver/antidiffusion.py
+++ b/finite_volume/shallow_water/solver/antidiffusion.py
@@ -18,7 +18,7 @@ class LinearAntidiffusiveSolver(swe.Solver):
         flux_getter=None,
         **kwargs
     ) -> Dict:
-        self._gamma = gamma or defaults.ANTIDIFFUSION_GAMMA
+        self._gamma = gamma if gamma is not None else defaults.ANTIDIFFUSION_GAMMA
         self._get_raw_flux = flux_getter or LaxFriedrichsFluxGetter()
 
         return super()._get_solver_args(benchmark, **kwargs)
-- 
2.43.0


From 7949fed54f1d5a1530972d27b95d844bde3daeea Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 15/40] fix: rejected values and returned arrays changed the
 solution history

---
 command/generate_data.py  | 5 ++++-
 core/discrete_solution.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 252c49c..5827e1b 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -79,7 +79,7 @@ class DiscreteSolutionWithInputData(core.DiscreteSolution[T]):
 
     @property
     def time_history(self) -> np.ndarray:
-        return self._time_history
+        return self._time_history.copy()
 
     @property
     def time_step_history(self) -> np.ndarray:
@@ -108,6 +108,9 @@ class DiscreteSolutionWithInputData(core.DiscreteSolution[T]):
         )
 
     def set_value(self, value: np.ndarray, time=0.0):
+        if not np.isfinite(value).all():
+            raise ValueError("Solution is not finite.")
+
         values_past = self._time_history < time
         self._time_history = self.time_history[values_past]
         self._coarse_node_neighbours_history = self.coarse_node_neighbours_history[
diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index 4b64ece..8e191f0 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -92,7 +92,7 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
 
     @property
     def time_history(self) -> np.ndarray:
-        return self._time_history
+        return self._time_history.copy()
 
     @property
     def time_step_history(self) -> np.ndarray:
@@ -110,6 +110,9 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
         )
 
     def set_value(self, value: np.ndarray, time=0.0):
+        if not np.isfinite(value).all():
+            raise ValueError("Solution is not finite.")
+
         values_past = self.time_history < time
         self._time_history = self.time_history[values_past]
         self._value_history = self.value_history[values_past]
-- 
2.43.0


From 66d3d37cc3b717743a039797bf7c6b8065829c8b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 16/40] fix: Lax-Wendroff solver ignored the bathymetry

---
 .../shallow_water/solver/lax_wendroff.py      | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/finite_volume/shallow_water/solver/lax_wendroff.py b/finite_volume/shallow_water/solver/lax_wendroff.py
index 4dbbaba..e9812b2 100644
--- a/finite_volume/shallow_water/solver/lax_wendroff.py
+++ b/finite_volume/shallow_water/solver/lax_wendroff.py
@@ -63,10 +63,27 @@ class LaxWendroffFluxGetter(finite_volume.FluxGetter):
 
 
 class LaxWendroffRightHandSide(finite_volume.NumericalFluxDependentRightHandSide):
-    _numerical_flux: LaxWendroffFlux
+    _lax_wendroff_flux: LaxWendroffFlux
+
+    def __init__(
+        self,
+        lax_wendroff_flux: LaxWendroffFlux,
+        step_length: float,
+        boundary_conditions: core.BoundaryConditions,
+        gravitational_acceleration=None,
+        bathymetry=None,
+    ):
+        self._lax_wendroff_flux = lax_wendroff_flux
+        super().__init__(
+            swe.NumericalFlux(
+                lax_wendroff_flux, gravitational_acceleration, bathymetry=bathymetry
+            ),
+            step_length,
+            boundary_conditions,
+        )
 
     def set_time_step(self, time_step: float):
-        self._numerical_flux.set_time_step(time_step)
+        self._lax_wendroff_flux.set_time_step(time_step)
 
 
 class LaxWendroffSolver(swe.Solver):
@@ -102,6 +119,10 @@ class LaxWendroffSolver(swe.Solver):
             LaxWendroffFlux(step_length, benchmark.gravitational_acceleration),
             step_length,
             boundary_conditions,
+            benchmark.gravitational_acceleration,
+            swe.build_bathymetry_discretization(
+                benchmark, len(solver_args["solution"].space.mesh)
+            ),
         )
 
         return solver_args
-- 
2.43.0


From e288a25435bf7e5daec2063c31dee9d5fc2a9e4b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 17/40] fix: reduced fluxes counted the bathymetry source term
 twice

---
 .../shallow_water/solver/reduced_model.py         | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index 5238c6b..e1e566f 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -190,20 +190,9 @@ class ReducedFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        if bathymetry is None:
-            bathymetry = swe.build_bathymetry_discretization(
-                benchmark, len(space.mesh)
-            )
-        numerical_flux = self._flux_getter(benchmark, space)
-        numerical_flux = finite_volume.CorrectedNumericalFlux(
-            numerical_flux, self._subgrid_flux
-        )
+        numerical_flux = self._flux_getter(benchmark, space, bathymetry)
 
-        return swe.NumericalFlux(
-            numerical_flux,
-            benchmark.gravitational_acceleration,
-            bathymetry=bathymetry,
-        )
+        return finite_volume.CorrectedNumericalFlux(numerical_flux, self._subgrid_flux)
 
 
 class ReducedSolverParser(finite_volume.SolverParser):
-- 
2.43.0


From ee4aa47f1e9797f282500b56176130f1b35a3bfa Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 18/40] fix: wall boundary mirrored only the outermost cell for
 larger radii

---
 finite_volume/shallow_water/boundary.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/finite_volume/shallow_water/boundary.py b/finite_volume/shallow_water/boundary.py
index 5f0da20..3faaa37 100644
--- a/finite_volume/shallow_water/boundary.py
+++ b/finite_volume/shallow_water/boundary.py
@@ -4,16 +4,26 @@ import core
 
 
 class LeftReflectingCell(core.GhostCell):
+    _index: int
+
+    def __init__(self, index=0):
+        self._index = index
+
     def __call__(self, dof_vector: np.ndarray, time=None):
-        value = dof_vector[0].copy()
+        value = dof_vector[self._index].copy()
         value[1] *= -1
 
         return value
 
 
 class RightReflectingCell(core.GhostCell):
+    _index: int
+
+    def __init__(self, index=0):
+        self._index = index
+
     def __call__(self, dof_vector: np.ndarray, time=None):
-        value = dof_vector[-1].copy()
+        value = dof_vector[-self._index - 1].copy()
         value[1] *= -1
 
         return value
@@ -38,7 +48,7 @@ class BoundaryConditionsBuilder(core.BoundaryConditionsBuilder):
         self, condition: str, index: int, inflow_left=None
     ) -> core.GhostCell:
         if condition == "wall":
-            return LeftReflectingCell()
+            return LeftReflectingCell(index)
         else:
             return super()._build_left_cell(condition, index, inflow_left=inflow_left)
 
@@ -46,7 +56,7 @@ class BoundaryConditionsBuilder(core.BoundaryConditionsBuilder):
         self, condition: str, index: int, inflow_right=None
     ) -> core.GhostCell:
         if condition == "wall":
-            return RightReflectingCell()
+            return RightReflectingCell(index)
         else:
             return super()._build_right_cell(
                 condition, index, inflow_right=inflow_right
-- 
2.43.0


From 8a51a54b685c54e22f762da330a658cffcab227b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 19/40] fix: energy stable flux was neither well-balanced nor
 energy conservative

---
 .../shallow_water/solver/energy_stable.py     | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index 3970c94..1f85bd5 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -11,17 +11,31 @@ import numpy as np
 
 class EnergyStableFlux(finite_volume.NumericalFlux):
     input_dimension = 2
-    _flux: swe.Flux
-    _average: np.ndarray
+    _gravitational_acceleration: float
 
     def __init__(self, gravitational_acceleration=None):
-        self._flux = swe.Flux(gravitational_acceleration)
+        self._gravitational_acceleration = (
+            gravitational_acceleration or defaults.GRAVITATIONAL_ACCELERATION
+        )
 
     def __call__(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray]:
-        self._average = swe.get_average(value_left, value_right)
-        flux = self._flux(self._average)
+        height_left, height_right = swe.get_heights(value_left, value_right)
+        height = swe.get_average(height_left, height_right)
+        if np.any(height < 0):
+            raise ValueError("Height is negative.")
+
+        height_squared = swe.get_average(height_left**2, height_right**2)
+        velocity = swe.get_average(*swe.get_velocities(value_left, value_right))
+
+        flux = np.array(
+            [
+                height * velocity,
+                height * velocity**2
+                + self._gravitational_acceleration / 2 * height_squared,
+            ]
+        ).T
         return -flux, flux
 
 
-- 
2.43.0


From 5502159ce0a5ba269fac05c196e3b6ece44384ea Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 20/40] fix: dry states led to NaN in low order and MCL scheme

---
 finite_volume/shallow_water/core.py             | 10 ++++++++++
 finite_volume/shallow_water/solver/low_order.py |  6 +++---
 finite_volume/shallow_water/solver/mcl.py       | 16 ++++++++++------
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/finite_volume/shallow_water/core.py b/finite_volume/shallow_water/core.py
index eda87ce..17e04f0 100644
--- a/finite_volume/shallow_water/core.py
+++ b/finite_volume/shallow_water/core.py
@@ -20,6 +20,16 @@ def get_average(value_left: np.ndarray, value_right: np.ndarray) -> np.ndarray:
     return np.average((value_left, value_right), axis=0)
 
 
+def divide(numerator: np.ndarray, denominator: np.ndarray) -> np.ndarray:
+    """Returns zero where DENOMINATOR vanishes (e.g. for dry states)."""
+    return np.divide(
+        numerator,
+        denominator,
+        out=np.zeros(np.broadcast(numerator, denominator).shape),
+        where=denominator != 0,
+    )
+
+
 def get_height(dof_vector: np.ndarray):
     return dof_vector[:, 0].copy() if len(dof_vector.shape) == 2 else dof_vector[0]
 
diff --git a/finite_volume/shallow_water/solver/low_order.py b/finite_volume/shallow_water/solver/low_order.py
index 5e3db06..17d8cdd 100644
--- a/finite_volume/shallow_water/solver/low_order.py
+++ b/finite_volume/shallow_water/solver/low_order.py
@@ -104,11 +104,11 @@ class LowOrderFlux(swe.NumericalFlux):
         if self._bathymetry_step is None:
             self._source_term = np.array([0.0])
         else:
-            self._source_term = -(
+            self._source_term = -swe.divide(
                 self._gravitational_acceleration
                 * height_average
-                * self._height_positivity_fix
-                / self._wave_speed
+                * self._height_positivity_fix,
+                self._wave_speed,
             )
 
 
diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index f824d8f..7abafc2 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -115,7 +115,9 @@ class MCLFlux(LowOrderFlux):
         self,
         limited_height_flux: np.ndarray,
     ):
-        self._limited_height = self._height_HLL + limited_height_flux / self._wave_speed
+        self._limited_height = self._height_HLL + swe.divide(
+            limited_height_flux, self._wave_speed
+        )
 
     def _get_limited_discharge_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -135,9 +137,10 @@ class MCLFlux(LowOrderFlux):
         return -limited_fq, limited_fq
 
     def _build_velocity_bar_state(self):
-        self._velocity_bar_state = (
-            self._modified_discharge_left + self._modified_discharge_right
-        ) / (self._modified_height_left + self._modified_height_right)
+        self._velocity_bar_state = swe.divide(
+            self._modified_discharge_left + self._modified_discharge_right,
+            self._modified_height_left + self._modified_height_right,
+        )
 
     def _get_antidiffusive_velocity_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -180,8 +183,9 @@ class MCLFlux(LowOrderFlux):
 
         self._replace_nans(hl, hr, vl, vr, ql, qr)
 
-        velocity_maximum = core.maximum(vl, vr, ql / hl, qr / hr)
-        velocity_minimum = core.minimum(vl, vr, ql / hl, qr / hr)
+        wl, wr = swe.divide(ql, hl), swe.divide(qr, hr)
+        velocity_maximum = core.maximum(vl, vr, wl, wr)
+        velocity_minimum = core.minimum(vl, vr, wl, wr)
 
         return velocity_maximum, velocity_minimum
 
-- 
2.43.0


From 2acb50d82bed059d70fb954e6d3358c48b8f9957 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 21/40] fix: saved shallow water plots contained figures of
 earlier plots

---
 command/plot.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/command/plot.py b/command/plot.py
index 48ee71d..5a1a7bd 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -240,6 +240,14 @@ class ShallowWaterPlotter(Plotter[np.ndarray]):
             ax.grid()
             ax.tick_params(labelsize="xx-large")
 
+    def _show_plots(self):
+        if self._show:
+            plt.show()
+        else:
+            plt.close(self._height_figure)
+            plt.close(self._discharge_figure)
+            plt.close(self._velocity_figure)
+
     def _save_plots(self):
         if self._save_plot:
             base_name, extension = os.path.splitext(self._save_plot)
-- 
2.43.0


From c39ac495ca7031466654c262343604ddc0adb821 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 22/40] fix: system matrix kept its old inverse after its
 values changed

---
 core/system.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/system.py b/core/system.py
index e2205d0..3e7a6d1 100644
--- a/core/system.py
+++ b/core/system.py
@@ -53,7 +53,7 @@ class SystemMatrix:
     def __init__(self, dimension: int):
         self.dimension = dimension
 
-        self._inverse_function = lambda vector: spsolve(self._csr_values, vector)
+        self._reset_inverse()
         self._lil_values = lil_matrix((dimension, dimension))
 
     def __call__(self) -> spmatrix:
@@ -65,6 +65,10 @@ class SystemMatrix:
     def set_values(self, values: np.ndarray):
         self._csr_values = csr_matrix(values)
         self._lil_values = lil_matrix(values)
+        self._reset_inverse()
+
+    def _reset_inverse(self):
+        self._inverse_function = lambda vector: spsolve(self._csr_values, vector)
 
     def build_inverse(self):
         self._inverse = splu(self._csr_values.tocsc())
@@ -76,6 +80,7 @@ class SystemMatrix:
 
     def update_csr_values(self):
         self._csr_values = csr_matrix(self._lil_values)
+        self._reset_inverse()
 
     def __getitem__(self, key):
         return self._lil_values[key]
-- 
2.43.0


From c4079daff7633a80f09c2226d4905b54e071a5ce Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 23/40] Revert "fix: random benchmarks replaced parameters and
 seeds equal to zero"

This reverts commit 264c8a4de2770a042227d87ffc819848df0f7f1e.
---
 benchmark/shallow_water.py | 43 +++++++++++---------------------------
 command/generate_data.py   |  2 +-
 2 files changed, 13 insertions(+), 32 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 50b6a78..95d98e8 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -1,4 +1,4 @@
-from typing import Callable, Dict
+from typing import Dict
 
 import defaults
 import numpy as np
@@ -220,11 +220,6 @@ class OscillationNoTopographyBenchmark(ShallowWaterBenchmark):
         }
 
 
-def _get_value(value, draw: Callable):
-    """Returns VALUE and draws one only if none is given."""
-    return value if value is not None else draw()
-
-
 class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
     seed: int
     _generator: np.random.Generator
@@ -247,28 +242,16 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
         super().__init__(
             end_time=end_time,
-            height_average=height_average,
-            height_amplitude=_get_value(
-                height_amplitude, lambda: self._generator.uniform(0.2, 0.6)
-            ),
-            height_phase_shift=_get_value(
-                height_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
-            ),
-            height_wave_number=_get_value(
-                height_wave_number, lambda: self._generator.integers(1, 6)
-            ),
-            velocity_average=_get_value(
-                velocity_average, lambda: self._generator.uniform(1, 2)
-            ),
-            velocity_amplitude=_get_value(
-                velocity_amplitude, lambda: self._generator.uniform(0.2, 0.6)
-            ),
-            velocity_phase_shift=_get_value(
-                velocity_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
-            ),
-            velocity_wave_number=_get_value(
-                velocity_wave_number, lambda: self._generator.integers(1, 5)
-            ),
+            height_average=height_average or HEIGHT_AVERAGE,
+            height_amplitude=height_amplitude or self._generator.uniform(0.2, 0.6),
+            height_phase_shift=height_phase_shift
+            or self._generator.uniform(0, 2 * np.pi),
+            height_wave_number=height_wave_number or self._generator.integers(1, 6),
+            velocity_average=velocity_average or self._generator.uniform(1, 2),
+            velocity_amplitude=velocity_amplitude or self._generator.uniform(0.2, 0.6),
+            velocity_phase_shift=velocity_phase_shift
+            or self._generator.uniform(0, 2 * np.pi),
+            velocity_wave_number=velocity_wave_number or self._generator.integers(1, 5),
         )
 
     def as_dict(self) -> Dict:
@@ -284,9 +267,7 @@ class RandomBenchmarkGenerator:
         self._benchmark_kwargs = {"end_time": end_time or 40.0} | kwargs
 
     def __call__(self, seed=None) -> RandomOscillationNoTopographyBenchmark:
-        if seed is None:
-            seed = self._seed_generator.integers(int(1e9))
-
+        seed = seed or self._seed_generator.integers(int(1e9))
         return RandomOscillationNoTopographyBenchmark(seed, **self._benchmark_kwargs)
 
     def __repr__(self) -> str:
diff --git a/command/generate_data.py b/command/generate_data.py
index 5827e1b..29a29c6 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -306,7 +306,7 @@ class GenerateData(Command):
         self._solver = solver
         self._solution_number = solution_number or defaults.SOLUTION_NUMBER
         self._get_benchmark = shallow_water.RandomBenchmarkGenerator(
-            seed=seed if seed is not None else defaults.SEED, end_time=end_time
+            seed=seed or defaults.SEED, end_time=end_time
         )
         self._benchmark_df_builder = BenchparkParameterDataFrameBuilder()
         self._subgrid_flux_df_builder = self._get_subgrid_flux_data_frame_builder(
-- 
2.43.0


From 51882f9179d35886c964489eb5a97d8e87179174 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 24/40] fix: generate-data replaced seed 0 by the default seed

---
 command/generate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 29a29c6..5827e1b 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -306,7 +306,7 @@ class GenerateData(Command):
         self._solver = solver
         self._solution_number = solution_number or defaults.SOLUTION_NUMBER
         self._get_benchmark = shallow_water.RandomBenchmarkGenerator(
-            seed=seed or defaults.SEED, end_time=end_time
+            seed=seed if seed is not None else defaults.SEED, end_time=end_time
         )
         self._benchmark_df_builder = BenchparkParameterDataFrameBuilder()
         self._subgrid_flux_df_builder = self._get_subgrid_flux_data_frame_builder(
-- 
2.43.0


From 832e3dfeceaf1b8f989adb20685b6795f9c24a2e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 25/40] fix: shallow water MCL limited velocities of both cells
 with the height of one

---
 finite_volume/shallow_water/solver/mcl.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index 7abafc2..f03d7e4 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -25,6 +25,7 @@ class MCLFlux(LowOrderFlux):
     _boundary_conditions: core.BoundaryConditions
 
     _limited_height: np.ndarray
+    _limited_height_left: np.ndarray
     _velocity_bar_state: np.ndarray
 
     def __init__(
@@ -115,9 +116,9 @@ class MCLFlux(LowOrderFlux):
         self,
         limited_height_flux: np.ndarray,
     ):
-        self._limited_height = self._height_HLL + swe.divide(
-            limited_height_flux, self._wave_speed
-        )
+        height_correction = swe.divide(limited_height_flux, self._wave_speed)
+        self._limited_height = self._height_HLL + height_correction
+        self._limited_height_left = self._height_HLL + -height_correction
 
     def _get_limited_discharge_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -161,11 +162,11 @@ class MCLFlux(LowOrderFlux):
 
         flux_maximum = self._wave_speed * np.minimum(
             self._limited_height * (velocity_max_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_min_left),
+            self._limited_height_left * (self._velocity_bar_state - velocity_min_left),
         )
         flux_minimum = self._wave_speed * np.maximum(
             self._limited_height * (velocity_min_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_max_left),
+            self._limited_height_left * (self._velocity_bar_state - velocity_max_left),
         )
 
         limited_flux = np.maximum(
-- 
2.43.0


From 8527925571390846fdec3cd0baaceb5b34203aef Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 26/40] fix: Riemann solver returned NaN for subnormal wave
 speeds

---
 core/riemann_solver.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/riemann_solver.py b/core/riemann_solver.py
index 9b68dc9..12288e0 100644
--- a/core/riemann_solver.py
+++ b/core/riemann_solver.py
@@ -32,16 +32,15 @@ class RiemannSolver:
 
         fan_width = self._wave_speed_right - self._wave_speed_left
         no_waves = fan_width == 0
-        factor = 1 / np.where(no_waves, 1, fan_width)
         self.intermediate_state = np.where(
             no_waves,
             (value_left + value_right) / 2,
-            factor
-            * (
+            (
                 self._wave_speed_right * value_right
                 - self._wave_speed_left * value_left
                 - (self.flux_right - self.flux_left)
-            ),
+            )
+            / np.where(no_waves, 1, fan_width),
         )
 
         return (
-- 
2.43.0


From b5d7f30316ad40f58db693442628e21f6bfa8f92 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 27/40] fix: diffusion of es1 flux was too small by a factor
 depending on the gravitational acceleration

---
 .../shallow_water/solver/energy_stable.py          | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index 1f85bd5..61ff2c2 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -121,15 +121,11 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
     def _get_Lambda(
         self, wave_speed_minus: np.ndarray, wave_speed_plus: np.ndarray
     ) -> np.ndarray:
-        Lambda = (
-            1
-            / np.sqrt(2 * self._gravitational_acceleration)
-            * np.array(
-                [
-                    [np.abs(wave_speed_minus), np.zeros(wave_speed_minus.shape)],
-                    [np.zeros(wave_speed_plus.shape), np.abs(wave_speed_plus)],
-                ]
-            )
+        Lambda = np.array(
+            [
+                [np.abs(wave_speed_minus), np.zeros(wave_speed_minus.shape)],
+                [np.zeros(wave_speed_plus.shape), np.abs(wave_speed_plus)],
+            ]
         )
         return np.moveaxis(Lambda, -1, 0)
 
-- 
2.43.0


From 002556e8cd32d8fa302ab00c50411f7785c99a5c Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 28/40] fix: setting a solution to a time missed the time by
 rounding

A history kept the record of an earlier run if its start time was
missed by rounding.
---
 core/discrete_solution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index 8e191f0..f10c37e 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -59,6 +59,7 @@ class DiscreteSolution(Generic[T]):
 
     def set_value(self, value: np.ndarray, time=0.0):
         self.update(time - self._time, value)
+        self._time = time
 
     def __repr__(self) -> str:
         return (
@@ -118,6 +119,8 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
         self._value_history = self.value_history[values_past]
 
         self.update(time - self.time, value)
+        self._solution.set_value(value, time)
+        self._time_history[-1] = time
 
 
 class CoarseSolution(DiscreteSolution[T]):
-- 
2.43.0


From 84590adb9734a44d95456aa3d0bba02dfaeb3d4c Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 29/40] fix: assembling a finite element matrix again added up
 its entries

---
 finite_element/system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finite_element/system.py b/finite_element/system.py
index d89ee7e..467a25d 100644
--- a/finite_element/system.py
+++ b/finite_element/system.py
@@ -66,6 +66,8 @@ class LocallyAssembledSystemMatrix(SystemMatrix):
         self.assemble()
 
     def assemble(self):
+        self._lil_values = lil_matrix((self.dimension, self.dimension))
+
         for cell_index in range(len(self._element_space.mesh)):
             for local_index_1 in range(self._element_space.polynomial_degree + 1):
                 for local_index_2 in range(self._element_space.polynomial_degree + 1):
-- 
2.43.0


From ee441acd8c50f6de9a10b61ee73c3fac8aabfbff Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 30/40] fix: diffusion of es1 flux took unrelated Riemann
 problems for neighbouring ones

Training data of es1 contained differences of states at consecutive times
instead of differences between both cells of the node.
---
 .../shallow_water/solver/energy_stable.py     | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index 61ff2c2..b04d3ee 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -74,11 +74,7 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
     def _get_diffusion(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> np.ndarray:
-        entropy = self._entropy(
-            finite_volume.get_dof_vector(value_left, value_right),
-            bathymetry=self._bathymetry,
-        )
-        entropy_step = self._get_entropy_step(entropy)
+        entropy_step = self._get_entropy_step(value_left, value_right)
 
         diffusion_matrix = self._get_diffusion_matrix(value_left, value_right)
 
@@ -129,8 +125,17 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
         )
         return np.moveaxis(Lambda, -1, 0)
 
-    def _get_entropy_step(self, entropy: np.ndarray) -> np.ndarray:
-        entropy_step = np.diff(entropy, axis=0)
+    def _get_entropy_step(
+        self, value_left: np.ndarray, value_right: np.ndarray
+    ) -> np.ndarray:
+        bathymetry_left, bathymetry_right = self._bathymetry, self._bathymetry
+        if len(self._bathymetry) > 1:
+            bathymetry_left = self._bathymetry[:-1]
+            bathymetry_right = self._bathymetry[1:]
+
+        entropy_step = self._entropy(value_right, bathymetry_right) - self._entropy(
+            value_left, bathymetry_left
+        )
         return entropy_step[..., None]
 
 
-- 
2.43.0


From ae05fe6d78b807298108344518fa7a75860d579c Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 31/40] fix: generate-data refused input radii larger than the
 default node index

---
 command/generate_data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/command/generate_data.py b/command/generate_data.py
index 5827e1b..7bccb2f 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -459,9 +459,8 @@ class GenerateDataParser(CalculateParser):
     def _add_node_index(self, parser):
         parser.add_argument(
             "--node-index",
-            help="Determines for which node the subgrid fluxes are calculated. The most left node has the index 0.",
+            help="Determines for which node the subgrid fluxes are calculated. The most left node has the index 0. If not specified use the input radius.",
             type=core.positive_int,
-            default=defaults.INPUT_RADIUS,
             metavar="<index>",
         )
 
-- 
2.43.0


From ee1f3715a55a844439dcba5032a652c4006a6359 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 32/40] fix: saving an animation with fewer frames than seconds
 asked for zero frames per second

---
 command/animate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/animate.py b/command/animate.py
index 094da6e..693699e 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -80,7 +80,8 @@ class Animator(ABC, Generic[T]):
 
     @property
     def frames_per_second(self) -> int:
-        return int((len(self._temporal_grid) - self.start_index) / self._duration)
+        frames = len(self._temporal_grid) - self.start_index
+        return max(1, int(frames / self._duration))
 
     def set_suptitle(self, suptitle: str):
         self._figure.suptitle(
-- 
2.43.0


From 40e709e69af6d8cf279bc5d55131918bd030d2cc Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 33/40] fix: animations without solvers failed

---
 command/animate.py   | 2 +-
 command/calculate.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index 693699e..ce2af73 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -399,7 +399,7 @@ class Animate(Command):
         if isinstance(solver, core.Solver):
             self._solver = [solver]
         else:
-            self._solver = solver
+            self._solver = solver or []
 
     def execute(self):
         if not self._solver_executed:
diff --git a/command/calculate.py b/command/calculate.py
index 1a74d33..a4509b9 100644
--- a/command/calculate.py
+++ b/command/calculate.py
@@ -212,5 +212,5 @@ class CalculateParser(CommandParser):
             arguments.solver = solver_list
 
     def _add_save_history_argument(self, arguments):
-        for solver_arguments in arguments.solver:
+        for solver_arguments in arguments.solver or []:
             solver_arguments.save_history = True
-- 
2.43.0


From 9130e5b0486fa1e3035632965b630ebca23fa02a Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:05 +0000
Subject: [PATCH 34/40] fix: show the total height of the water completely in
 animations

---
 command/animate.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index ce2af73..2149f53 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -320,9 +320,9 @@ class ShallowWaterAnimator(Animator[np.ndarray]):
 
         self._height_axes.set_xlabel("x")
         self._height_axes.set_ylabel("h+b")
+        total_height_max = self._get_max_total_height()
         self._height_axes.set_ylim(
-            top=swe.get_height(values_max)
-            + additional_border_factor * swe.get_height(values_max)
+            top=total_height_max + additional_border_factor * abs(total_height_max)
         )
         self._height_axes.legend()
 
@@ -356,6 +356,14 @@ class ShallowWaterAnimator(Animator[np.ndarray]):
 
         return values_min, values_max
 
+    def _get_max_total_height(self) -> float:
+        return np.max(
+            [
+                np.max(self._get_total_height(grid, swe.get_heights(*values)))
+                for grid, values in zip(self._spatial_grids, self._values_per_solver)
+            ]
+        )
+
     def _get_min_max_velocities(self) -> Tuple[float, float]:
         velocities_per_solver = [
             swe.get_velocities(*value) for value in self._values_per_solver
-- 
2.43.0


From 13cf4fc118590aa91bd2a6facb96f165995debdc Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:37 +0000
Subject: [PATCH 35/40] fix: optimal finite volume time step failed for inflow
 conditions

The time was not passed on to the boundary conditions.
---
 finite_volume/time_stepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/time_stepping.py b/finite_volume/time_stepping.py
index 557a880..81e082b 100644
--- a/finite_volume/time_stepping.py
+++ b/finite_volume/time_stepping.py
@@ -20,7 +20,7 @@ class OptimalTimeStep:
 
     def __call__(self, time: float, dof_vector: np.ndarray) -> float:
         self._riemann_solver.solve(
-            *self._boundary_conditions.get_node_neighbours(dof_vector)
+            *self._boundary_conditions.get_node_neighbours(dof_vector, time=time)
         )
 
         return self._step_length / np.max(
-- 
2.43.0


From 37d26c43015b445d477fdba07ad16917bdfdae1b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:20 +0000
Subject: [PATCH 36/40] fix: animations ignored a start time of zero

---
 command/animate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/command/animate.py b/command/animate.py
index 2149f53..d0d273a 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -63,7 +63,9 @@ class Animator(ABC, Generic[T]):
             time_steps or defaults.TIME_STEPS,
         )
         self._save = save
-        self._start_time = start_time or self._benchmark.start_time
+        self._start_time = (
+            self._benchmark.start_time if start_time is None else start_time
+        )
         self._duration = duration or defaults.DURATION
         self._show = show
 
-- 
2.43.0


From c0d50e60d092a49a934181cdb4361b74199c612b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:06 +0000
Subject: [PATCH 37/40] fix: whole numbers as initial values broke the time
 integration

An integer initial value (e.g. data which are 0 or 1 at all nodes) could not be
updated in place by floating point increments.
---
 core/ode_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ode_solver.py b/core/ode_solver.py
index ecbe052..f43654d 100644
--- a/core/ode_solver.py
+++ b/core/ode_solver.py
@@ -86,7 +86,7 @@ class ExplicitRungeKuttaMethod(Generic[T]):
 
             stages.append(self._right_hand_side(time_node, stage_value))
 
-        self._solution += time_step * np.sum(
+        self._solution = self._solution + time_step * np.sum(
             np.array([weight * stage for weight, stage in zip(self._weights, stages)]),
             axis=0,
         )
-- 
2.43.0


From 10ec33367a8420af6a9f6ab0bc044e791dfce913 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:36 +0000
Subject: [PATCH 38/40] fix: Lax-Wendroff flux failed without gravitational
 acceleration

---
 finite_volume/shallow_water/solver/lax_wendroff.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finite_volume/shallow_water/solver/lax_wendroff.py b/finite_volume/shallow_water/solver/lax_wendroff.py
index e9812b2..cf46784 100644
--- a/finite_volume/shallow_water/solver/lax_wendroff.py
+++ b/finite_volume/shallow_water/solver/lax_wendroff.py
@@ -1,6 +1,7 @@
 from typing import Tuple
 
 import core
+import defaults
 import finite_volume
 import finite_volume.shallow_water as swe
 
@@ -19,7 +20,9 @@ class LaxWendroffFlux(finite_volume.NumericalFlux):
         self._llf_flux = finite_volume.LaxFriedrichsFlux(
             swe.RiemannSolver(gravitational_acceleration)
         )
-        self._wave_speed = swe.MaximumWaveSpeed(gravitational_acceleration)
+        self._wave_speed = swe.MaximumWaveSpeed(
+            gravitational_acceleration or defaults.GRAVITATIONAL_ACCELERATION
+        )
 
     def set_time_step(self, time_step: float):
         self._time_step = time_step
-- 
2.43.0


From 75a8dd0278f1a2f9036670f5310e5c855bd4ac74 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:36 +0000
Subject: [PATCH 39/40] fix: convergence orders failed for other than three
 norms

---
 command/error.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/command/error.py b/command/error.py
index 2370889..cf07ce6 100644
--- a/command/error.py
+++ b/command/error.py
@@ -57,8 +57,8 @@ class EOCCalculator:
     ) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
         refine_number = len(solvers) - 1
         dofs = np.empty(refine_number + 1)
-        errors = np.empty((3, refine_number + 1))
-        eocs = np.empty((3, refine_number + 1))
+        errors = np.empty((len(self._norms), refine_number + 1))
+        eocs = np.empty((len(self._norms), refine_number + 1))
 
         for index, (solver, solver_space) in enumerate(zip(solvers, solver_spaces)):
             dofs[index] = solver.solution.dimension
@@ -106,7 +106,7 @@ class EOCCalculator:
 
     def _calculate_eoc(self, errors: np.ndarray, current_index: int) -> np.ndarray:
         if current_index == 0:
-            return np.array([np.nan, np.nan, np.nan])
+            return np.full(len(self._norms), np.nan)
         else:
             return np.array(
                 [
-- 
2.43.0


From 5b18bcc8d6c784db5893c467bf89037b2809b32c Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:36 +0000
Subject: [PATCH 40/40] fix: periodic conditions given for each side were not
 treated as periodic

---
 core/boundary.py                   | 4 +++-
 finite_volume/scalar/solver/mcl.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/boundary.py b/core/boundary.py
index 5a7712c..33acd37 100644
--- a/core/boundary.py
+++ b/core/boundary.py
@@ -134,7 +134,9 @@ class BoundaryConditionsBuilder:
             for i in range(radius)
         ]
         return BoundaryConditions(
-            *left_cells, *right_cells, periodic=conditions == ("periodic",)
+            *left_cells,
+            *right_cells,
+            periodic=condition_left == condition_right == "periodic",
         )
 
     def _build_left_cell(
diff --git a/finite_volume/scalar/solver/mcl.py b/finite_volume/scalar/solver/mcl.py
index 5169038..52d14ad 100644
--- a/finite_volume/scalar/solver/mcl.py
+++ b/finite_volume/scalar/solver/mcl.py
@@ -90,7 +90,7 @@ class MCLFluxGetter(finite_volume.FluxGetter):
         riemann_solver = scalar.get_riemann_solver(benchmark.problem)
         neighbours_mapping = finite_volume.NeighbourIndicesMapping(
             len(space.mesh) + 2,
-            benchmark.boundary_conditions == ("periodic",),
+            set(benchmark.boundary_conditions) == {"periodic"},
             ghost_cells=1,
         )
         return MCLFlux(riemann_solver, neighbours_mapping)
-- 
2.43.0

