"""Workload generators: benchmarks, states and solvers used by many checks."""
import os

import core
import finite_element.scalar.solver as fe
import finite_volume.scalar.solver as fv
import finite_volume.shallow_water as swe
import finite_volume.shallow_water.solver as sw
import numpy as np
from benchmark.shallow_water import ShallowWaterBenchmark
from core.benchmark import Benchmark

import ref

ODE = {
    "euler": core.ForwardEuler,
    "heun": core.Heun,
    "ssp3": core.StrongStabilityPreservingRungeKutta3,
}


class Conditions:
    """Boundary conditions of a benchmark, however the repository stores its own."""

    _kept = None

    @property
    def boundary_conditions(self):
        try:
            return super().boundary_conditions
        except AttributeError:
            return self._kept

    def keep(self, conditions):
        self._kept = tuple(conditions)
        self._boundary_conditions = conditions if len(conditions) > 1 else conditions[0]


class ScalarBenchmark(Conditions, Benchmark):
    """Scalar benchmark with arbitrary data."""

    def __init__(self, problem, data, domain=(0.0, 1.0), end_time=1.0, start_time=0.0,
                 conditions=("periodic",), inflow=(None, None)):
        self.problem = problem
        self.domain = core.Interval(*domain)
        self.start_time, self.end_time = start_time, end_time
        self.keep(conditions)
        self._data, self._inflow = data, inflow

    def initial_data(self, x):
        return self._data(x)

    def inflow_left(self, t):
        return self._inflow[0](t)

    def inflow_right(self, t):
        return self._inflow[1](t)


class SWEBenchmark(Conditions, ShallowWaterBenchmark):
    def __init__(self, data, domain=(0.0, 1.0), end_time=1.0, start_time=0.0,
                 conditions=("periodic",), inflow=(None, None), g=None, bathymetry=None):
        self.domain = core.Interval(*domain)
        self.start_time, self.end_time = start_time, end_time
        self.keep(conditions)
        self._data, self._inflow = data, inflow
        if g is not None:
            self.gravitational_acceleration = g
        self._bathymetry = bathymetry

    def bathymetry(self, x):
        return 0.0 if self._bathymetry is None else self._bathymetry(x)

    def initial_data(self, x):
        return self._data(x)

    def inflow_left(self, t):
        return self._inflow[0](t)

    def inflow_right(self, t):
        return self._inflow[1](t)


# ---------------------------------------------------------------- initial data
KINDS = ("smooth", "step", "noise", "spike", "plateau", "islands")


def profile(rng, kind, a, b, n, low=-1.0, high=1.0):
    """Random function on [a, b] with values within [low, high]."""
    length = b - a
    mid, half = (low + high) / 2, (high - low) / 2
    if kind == "smooth":
        k = rng.integers(1, 4, 3)
        phase = rng.uniform(0, 2 * np.pi, 3)
        weight = rng.dirichlet(np.ones(3))
        return lambda x: float(
            mid + half * np.sum(weight * np.sin(2 * np.pi * k * (x - a) / length + phase))
        )
    if kind == "step":
        cuts = np.sort(rng.uniform(0, 1, rng.integers(1, 5)))
        values = rng.uniform(low, high, len(cuts) + 1)
        values[0] = values[-1] if rng.random() < 0.5 else values[0]
        values[rng.integers(len(values))] = rng.choice([low, high])
        return lambda x: float(values[np.searchsorted(cuts, (x - a) / length)])
    if kind == "noise":
        values = rng.uniform(low, high, n)
        return lambda x: float(values[min(n - 1, max(0, int((x - a) / length * n)))])
    if kind == "spike":
        base, top = rng.uniform(low, high), rng.choice([low, high])
        at, width = rng.uniform(0.1, 0.9), rng.uniform(0.5, 3) / n
        return lambda x: float(top if abs((x - a) / length - at) < width else base)
    if kind == "plateau":
        c = rng.uniform(0.1, 0.4)
        d = rng.uniform(0.5, 0.9)
        x0, x1 = rng.uniform(low, high, 2)
        return lambda x: float(x0 if c < (x - a) / length < d else x1)
    if kind == "islands":  # noise here and there, one level (zero, if possible) elsewhere
        cuts = np.sort(rng.uniform(0, 1, rng.integers(2, 7)))
        level = 0.0 if low <= 0 <= high and rng.random() < 0.7 else float(rng.choice([low, high]))
        values = rng.uniform(low, high, n) if rng.random() < 0.5 else np.full(n, rng.uniform(low, high))

        def islands(x):
            s = (x - a) / length
            return level if np.searchsorted(cuts, s) % 2 == 0 else float(values[min(n - 1, max(0, int(s * n)))])

        return islands
    raise ValueError(kind)


def random_domain(rng):
    a = float(rng.choice([0.0, -1.0, rng.uniform(-50, 50)]))
    return a, a + float(rng.choice([1.0, 2 * np.pi, 10 ** rng.uniform(-1, 2)]))


def random_scalar_state(rng, n, scale=None):
    if scale is None:
        scale = 10 ** (rng.uniform(-2, 2) if rng.random() < 0.85 else rng.uniform(-9, 4))
    kind = rng.integers(7)
    if kind == 6:  # variations of very different sizes
        u = rng.choice([0.0, 1.0]) + rng.normal(size=n) * 10 ** rng.uniform(-6, 0, n)
    elif kind == 5:
        u = rng.normal(size=n)
        k = int(rng.integers(n))
        u[k : k + max(2, n // 2)] = 0.0
    elif kind == 0:
        u = rng.normal(size=n)
    elif kind == 1:
        u = np.sin(2 * np.pi * rng.integers(1, 4) * np.arange(n) / n + rng.uniform(0, 6))
    elif kind == 2:
        u = rng.choice([-1.0, 0.0, 1.0], n)
    elif kind == 3:
        u = np.full(n, rng.normal())
        u[rng.integers(n)] = rng.normal()
    else:
        u = rng.uniform(0, 1, n) * rng.choice([-1, 1])
    return scale * u


def random_swe_state(rng, n, froude=2.0):
    kind = rng.integers(4)
    if kind == 0:
        h = 10 ** rng.uniform(-2, 1, n)
    elif kind == 1:
        h = 2 + np.sin(2 * np.pi * rng.integers(1, 4) * np.arange(n) / n + rng.uniform(0, 6))
    elif kind == 2:
        h = rng.choice([0.1, 1.0, 5.0], n)
    else:
        h = np.full(n, rng.uniform(0.5, 3))
        h[rng.integers(n)] *= rng.uniform(0.2, 3)
    u = rng.uniform(-froude, froude, n) * np.sqrt(h * 9.81)
    if rng.random() < 0.2:
        u = np.zeros(n)
    return np.array([h, h * u]).T


def random_bathymetry(rng, a, b, height=0.3):
    kind = rng.integers(3)
    length = b - a
    if kind == 0:
        k = rng.integers(1, 4)
        return lambda x: float(height / 2 * (1 + np.sin(2 * np.pi * k * (x - a) / length)))
    if kind == 1:
        c, d = np.sort(rng.uniform(0.1, 0.9, 2))
        return lambda x: float(height if c < (x - a) / length < d else 0.0)
    cuts = np.sort(rng.uniform(0, 1, 6))
    values = rng.uniform(0, height, 7)
    return lambda x: float(values[np.searchsorted(cuts, (x - a) / length)])


# --------------------------------------------------------------------- solvers
SCALAR_FV = {"llf": fv.LaxFriedrichsSolver, "central": fv.CentralFluxSolver, "mcl-fv": fv.MCLSolver}
FE = {
    "cg": fe.ContinuousGalerkinSolver,
    "cg-low": fe.LowOrderContinuousGalerkinSolver,
    "mcl-fem": fe.MCLSolver,
}
SWE = {
    "llf": sw.LaxFriedrichsSolver,
    "lw": sw.LaxWendroffSolver,
    "low-order": sw.LowOrderSolver,
    "central": sw.CentralFluxSolver,
    "es": sw.EnergyStableSolver,
    "es1": sw.FirstOrderDiffusiveEnergyStableSolver,
    "mcl": sw.MCLSolver,
    "antidiffusion": sw.LinearAntidiffusiveSolver,
    "coarse": sw.CoarseSolver,
}


def rhs_of(solver):
    return solver.as_dict()["right_hand_side"]


def flux_of(solver):
    return rhs_of(solver).as_dict()["numerical_flux"]


def solve(solver):
    solver.solve(disable=True)
    return solver


def setting(benchmark, n, inflow=(None, None)):
    """Reference setting for a benchmark discretised with N cells."""
    a, b = benchmark.domain.a, benchmark.domain.b
    bathymetry = None
    g = ref.G
    if benchmark.problem == "shallow_water":
        bathymetry = ref.cell_averages(benchmark.bathymetry, a, b, n)
        g = benchmark.gravitational_acceleration
    return ref.Setting(
        benchmark.problem, n, b - a, benchmark.boundary_conditions, g, bathymetry, inflow
    )


# ------------------------------------------------------------------ run setup
def cells(rng, low, high, share=0.08, largest=1500):
    """Size of a mesh: mostly LOW to HIGH (exclusive), sometimes a large one."""
    if rng.random() < share:
        return int(np.exp(rng.uniform(np.log(high), np.log(largest))))
    return int(rng.integers(low, high))


def scalar_setup(rng, problem, n=None, steps=10, conditions=("periodic",), inflow=(None, None),
                 low=None, high=None, kind=None, courant=None, domain=None, start=None):
    """Random scalar benchmark and a CFL number which makes about STEPS steps
    with at most the Courant number COURANT (0.5 is the bound of low order schemes)."""
    n = cells(rng, 5, 40) if n is None else n
    a, b = random_domain(rng) if domain is None else domain
    if low is None:
        scale = 10 ** rng.uniform(-1, 1)
        low, high = np.sort(rng.uniform(-scale, scale, 2))
        if rng.random() < 0.2:
            low, high = 0.0, max(high, 1.0)
    kind = rng.choice(KINDS) if kind is None else kind
    data = profile(rng, kind, a, b, n, low, high)
    speed = 1.0 if problem == "advection" else max(abs(low), abs(high), 1e-3)
    courant = rng.uniform(0.1, 0.5) if courant is None else courant
    cfl = courant / speed
    start = float(rng.choice([0.0, rng.uniform(-3, 3)])) if start is None else start
    end = start + steps * cfl * (b - a) / n
    bench = ScalarBenchmark(problem, data, (a, b), end, start, conditions, inflow)
    bench.low, bench.high, bench.kind, bench.n = low, high, kind, n
    return bench, {"mesh_size": n, "cfl_number": cfl}


def swe_setup(rng, n=None, steps=10, conditions=("periodic",), inflow=(None, None), bottom=False,
              kind=None, froude=1.0, courant=None, domain=None, start=None, g=None, h=(0.5, 3.0)):
    n = cells(rng, 6, 40) if n is None else n
    a, b = random_domain(rng) if domain is None else domain
    g = float(rng.choice([1.0, 9.812, 10 ** rng.uniform(-0.5, 1.5)])) if g is None else g
    depth = 10 ** rng.uniform(-1, 1)
    lo, hi = h[0] * depth, h[1] * depth
    kind = rng.choice(KINDS) if kind is None else kind
    height = profile(rng, kind, a, b, n, lo, hi)
    c = np.sqrt(g * hi)
    limit = froude * np.sqrt(g * lo)
    velocity = profile(rng, rng.choice([kind, "smooth"]), a, b, n, -limit, limit)
    bathymetry = random_bathymetry(rng, a, b, 0.5 * lo) if bottom else None

    def data(x):
        return np.array([height(x), height(x) * velocity(x)])

    speed = limit + c
    courant = rng.uniform(0.1, 0.4) if courant is None else courant
    cfl = courant / speed
    start = float(rng.choice([0.0, rng.uniform(-3, 3)])) if start is None else start
    end = start + steps * cfl * (b - a) / n
    bench = SWEBenchmark(data, (a, b), end, start, conditions, inflow, g, bathymetry)
    bench.kind, bench.n, bench.speed = kind, n, speed
    return bench, {"mesh_size": n, "cfl_number": cfl}


def newton_cotes(p):
    """Integrals of the Lagrange basis on p+1 equidistant nodes of [0, 1]."""
    x = np.linspace(0, 1, p + 1)
    return np.linalg.solve(np.vander(x, increasing=True).T, 1 / np.arange(1, p + 2))


def fe_integral(u, length, p):
    """Integral of a periodic finite element function (DOFs ordered in space)."""
    n = len(u) // p
    w = newton_cotes(p) * length / n
    return sum(w[j] * u[(e * p + j) % len(u)] for e in range(n) for j in range(p + 1))


# ------------------------------------------------------------------- networks
class Network:
    """Random network stored where the reduced solvers expect it (relative to cwd)."""

    def __init__(self, rng, second=False, output=0.05):
        import os
        import tempfile

        import torch
        self.type = sw.LaxFriedrichs2Network if second else sw.LaxFriedrichsNetwork
        self.directory = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        os.chdir(self.directory)
        for name in ("reduced-llf", "reduced-llf-2"):
            os.makedirs(os.path.join("data", name))
        self.x_mean, self.x_scale = rng.uniform(0.5, 3, 8), rng.uniform(0.5, 2, 8)
        self.y_mean, self.y_scale = rng.normal(size=2) * output, rng.uniform(0.1, 1, 2) * output
        # two data determine means and deviations; no training, random weights
        network = self.type(max_epochs=0, train_split=None)
        network.fit(
            np.array([self.x_mean - self.x_scale, self.x_mean + self.x_scale]),
            np.array([self.y_mean - self.y_scale, self.y_mean + self.y_scale]),
        )
        state = network.module_.state_dict()
        self.weights = {
            key: rng.normal(size=tuple(value.shape)) / np.sqrt(value.shape[-1])
            for key, value in state.items()
        }
        network.module_.load_state_dict(
            {key: torch.tensor(value, dtype=torch.float32) for key, value in self.weights.items()}
        )
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            network.save_params()
        self.network = network

    def __call__(self, X):
        """Evaluates the network layer by layer with numpy."""
        x = ((np.asarray(X, dtype=np.float64).astype(np.float32) - self.x_mean) / self.x_scale)
        layers = sorted({int(key.split(".")[1]) for key in self.weights})
        prefix = next(iter(self.weights)).split(".")[0]
        for i, k in enumerate(layers):
            x = x @ np.float32(self.weights[f"{prefix}.{k}.weight"]).T + np.float32(self.weights[f"{prefix}.{k}.bias"])
            if i < len(layers) - 1:
                x = np.where(x > 0, x, 0.01 * x)
        return x * self.y_scale + self.y_mean


# --------------------------------------------------------- step-wise execution
def time_steps(solver):
    """The solver's own time steps (public time stepping iterator)."""
    return solver.as_dict()["time_stepping"]


def do_step(solver, dt):
    """One step as the solver performs it."""
    ode = solver.as_dict()["ode_solver"]
    ode.execute(dt)
    solver.solution.update(dt, ode.solution)


# --------------------------------------------------------------- command line
def cli(*arguments):
    """Runs the cls1 script with the given command line arguments."""
    import sys

    path = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "cls1")
    argv, sys.argv = sys.argv, [path, *map(str, arguments)]
    try:
        with open(path) as f:
            exec(compile(f.read(), path, "exec"), {"__name__": "__main__", "__file__": path})
    finally:
        sys.argv = argv
        if hasattr(sys, "monitoring"):  # the script leaves its profiler on if it fails
            sys.monitoring.free_tool_id(sys.monitoring.PROFILER_ID)


def parse(*arguments):
    """What the command line parser makes of the given arguments."""
    from command import PARSER_COMMANDS
    from parser import CustomArgumentParser

    return CustomArgumentParser(PARSER_COMMANDS).parse_arguments([str(x) for x in arguments])


# -------------------------------------------------------------------- figures
class Line:
    def __init__(self, line):
        self.label = str(line.get_label())
        self.x = np.array(line.get_xdata(), dtype=float)
        self.y = np.array(line.get_ydata(), dtype=float)


class Figure:
    """What is visible in a matplotlib figure at the moment."""

    def __init__(self, figure, path=None):
        self.path = path
        self.axes = [[Line(line) for line in ax.get_lines()] for ax in figure.axes]
        self.lines = [line for lines in self.axes for line in lines]
        self.fills = [np.array(c.get_paths()[0].vertices) for ax in figure.axes for c in ax.collections if c.get_paths()]
        self.texts = [t.get_text() for ax in figure.axes for t in ax.texts]
        self.title = "\n".join(t.get_text() for t in figure.texts)
        self.labels = [(ax.get_title(), ax.get_xlabel(), ax.get_ylabel()) for ax in figure.axes]
        self.limits = [(*sorted(ax.get_xlim()), *sorted(ax.get_ylim())) for ax in figure.axes]
        self.legends = [[t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else [] for ax in figure.axes]


class Drawn:
    """Records figures when they are saved or shown and frames of animations."""

    def __init__(self, real=False):
        self.saved, self.shown, self.films, self.real = [], [], [], real

    def __enter__(self):
        import matplotlib.animation as animation
        import matplotlib.figure as figure
        import matplotlib.pyplot as plt

        self._old = figure.Figure.savefig, plt.show, animation.Animation.save
        savefig, show, save = self._old
        recorder = self

        def hooked_savefig(self, fname, *args, **kwargs):
            recorder.saved.append(Figure(self, str(fname)))
            if recorder.real:
                savefig(self, fname, *args, **{"dpi": 30, **kwargs})
            else:
                with open(fname, "wb") as f:
                    f.write(b"figure")

        def hooked_show(*args, **kwargs):
            recorder.shown.append([Figure(plt.figure(i)) for i in plt.get_fignums()])

        class Writer(animation.AbstractMovieWriter):
            def __init__(self, fps):
                super().__init__(fps or 5)
                self.frames = []

            def setup(self, fig, outfile, dpi=None):
                self.fig, self.outfile, self._dpi = fig, outfile, dpi

            def grab_frame(self, **kwargs):
                self.frames.append(Figure(self.fig))

            def finish(self):
                with open(self.outfile, "wb") as f:
                    f.write(b"film")

        def hooked_save(self, filename, writer=None, fps=None, **kwargs):
            tape = Writer(fps)
            tape.interval = getattr(self.event_source, "interval", None)
            save(self, filename, writer=tape)
            tape.path, tape.given_fps = str(filename), fps
            recorder.films.append(tape)

        figure.Figure.savefig, plt.show, animation.Animation.save = hooked_savefig, hooked_show, hooked_save
        return self

    def __exit__(self, *error):
        import matplotlib.animation as animation
        import matplotlib.figure as figure
        import matplotlib.pyplot as plt

        figure.Figure.savefig, plt.show, animation.Animation.save = self._old
        plt.close("all")


def magnitude(rng, share=0.25):
    """Size of data: sometimes tiny or huge."""
    return 10 ** (rng.uniform(-18, 12) if rng.random() < share else rng.uniform(-3, 3))
