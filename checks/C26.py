"""C26: evaluations neither alter their inputs nor depend on earlier ones."""
import threading

import core
import finite_element as fem
import finite_volume
import finite_volume.scalar as scalar
import finite_volume.shallow_water as swe
import finite_volume.shallow_water.solver as sw
import numpy as np

import work

RULE = (
    "random call sequences (with repeated, interleaved and failing arguments) on one shared right-hand side / flux / Riemann "
    "solver / time step / norm / coarsener / operator: each result is compared bitwise with the result of an object which was "
    "never used before; arguments and all results handed out earlier must stay as they were. Several solvers which share "
    "benchmark, time stepping iterators advanced in random interleavings, are compared bitwise with separate runs. "
    "Non-trivial: more than two different arguments."
)
QUICK_ROUNDS = 5
REQUIRE = {"evaluations": 3000, "repeated evaluations": 400, "results kept": 1500, "interleaved steps": 1500, "objects": 150, "reused buffers": 500}


def freeze(value):
    """A deep copy for comparisons."""
    if isinstance(value, np.ndarray):
        return value.copy()
    if isinstance(value, (list, tuple)):
        return tuple(freeze(v) for v in value)
    return value


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if callable(a):
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def attempt(call, args):
    try:
        return call(*args)
    except Exception as error:
        return (type(error).__name__,)


def refill(buffers, args):
    """Passes the arguments in arrays which were used for other arguments before."""
    out = []
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray):
            buffer = buffers.setdefault((i, a.shape), np.empty_like(a))
            buffer[...] = a
            a = buffer
        out.append(a)
    return tuple(out)


def relative(rng, args):
    """Arguments which have much in common with ARGS."""
    kind = int(rng.integers(5))
    out = []
    for a in args:
        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and len(a) > 2:
            a = a.copy()
            if kind == 0:
                a = np.roll(a, int(rng.integers(1, len(a))), axis=0)
            elif kind == 1:
                a = a[::-1].copy()
            elif kind == 2:
                k = int(rng.integers(1, len(a) - 1))
                a[k] = a[k] * 1.25
            elif kind == 3:
                a = a[rng.permutation(len(a))]
            else:
                a = a * 0.5
        out.append(a)
    return tuple(out)


def coarse_numbers(args):
    """Few digits: sums do not depend on the order of their terms."""
    return tuple(np.ceil(a * 16) / 16 if isinstance(a, np.ndarray) and a.dtype.kind == "f" else a for a in args)


def sequence(m, rng, name, make, argument, length=10):
    """MAKE returns a new callable, ARGUMENT a random argument tuple."""
    with np.errstate(all="ignore"):
        m.observe("objects")
        pool = [argument() for _ in range(int(rng.integers(2, 5)))]
        if rng.random() < 0.5:
            pool.append(coarse_numbers(pool[0]))
        for _ in range(2):
            pool.append(relative(rng, pool[-1]))
        m.input(name, *[np.concatenate([np.ravel(np.asarray(a, dtype=object)) for a in args]).astype(str) if args else 0 for args in pool], nontrivial=len(pool) > 2, sample={"object": name})
        expected = [freeze(attempt(make(), freeze(args))) for args in pool]
        shared, handed, last, buffers = make(), [], None, {}
        for step in range(length):
            k = int(rng.integers(len(pool))) if rng.random() < 0.7 else len(pool) - 1 - int(rng.integers(3))
            args, reused = pool[k], False
            if rng.random() < 0.3 and all(isinstance(a, (np.ndarray, float)) for a in args):
                args, reused = refill(buffers, args), True
            before = freeze(args)
            result = attempt(shared, args)
            m.observe("failing evaluations" if isinstance(result, tuple) and isinstance(result[0], str) else "evaluations")
            if last == k:
                m.observe("repeated evaluations")
            last = k
            m.check(same(args, before), f"{name}: arguments unchanged", step=step)
            m.check(same(result, expected[k]), f"{name}: result independent of earlier evaluations", step=step, actual=result, expected=expected[k])
            if reused:
                m.observe("reused buffers")
            else:
                handed.append((result, freeze(result), args))
        for result, kept, _ in handed:
            m.check(same(result, kept), f"{name}: results handed out stay unchanged")
            m.observe("results kept")


# ------------------------------------------------------------- right-hand sides
def swe_conditions(rng):
    if rng.random() < 0.5:
        return ("periodic",), (None, None)
    sides = tuple(str(rng.choice(["outflow", "wall", "inflow"])) for _ in range(2))
    values = [np.array([rng.uniform(1, 2), rng.normal()]) for _ in range(2)]
    return sides, tuple((lambda t, v=v: v * (1 + 0.1 * np.sin(t))) for v in values)


def swe_rhs(m, rng, scheme):
    conditions, inflow = swe_conditions(rng)
    n = 2 * work.cells(rng, 4, 12, 0.08, 400)
    if scheme.startswith("reduced"):
        work.Network(rng, second=scheme.endswith("2"))
        kind = {"reduced-llf": sw.ReducedLaxFriedrichsSolver, "reduced-llf-2": sw.ReducedLaxFriedrichs2Solver}[scheme]
    else:
        kind = work.SWE[scheme]
    if scheme == "coarse":
        return
    bottom = scheme in ("low-order", "mcl", "central", "es", "es1", "antidiffusion") and rng.random() < 0.6
    bench, options = work.swe_setup(rng, n=n, bottom=bottom, conditions=conditions, inflow=inflow)
    if scheme == "antidiffusion":
        options["gamma"] = float(rng.uniform(0, 1))
    build = lambda: work.rhs_of(kind(bench, **options))

    def argument():
        state = work.random_swe_state(rng, n)
        if rng.random() < 0.15:
            state[rng.integers(n), 0] = rng.choice([-1.0, 0.0])
        return float(rng.uniform(0, 3)), state

    sequence(m, rng, f"{scheme} right-hand side", build, argument)
    # the numerical flux on its own
    radius = work.rhs_of(kind(bench, **options)).as_dict()["numerical_flux"].input_dimension // 2
    nodes = swe.get_boundary_conditions(*bench.boundary_conditions, radius=radius, inflow_left=bench.inflow_left, inflow_right=bench.inflow_right)
    sequence(m, rng, f"{scheme} flux", lambda: work.flux_of(kind(bench, **options)), lambda: tuple(np.array(v) for v in nodes.get_node_neighbours(work.random_swe_state(rng, n), radius=radius, time=0.0)))


def scalar_rhs(m, rng, family, scheme, problem):
    n = work.cells(rng, 4, 16, 0.08, 800) if family == "fv" else work.cells(rng, 3, 8, 0.08, 80)
    conditions, inflow = ("periodic",), (None, None)
    if family == "fv" and scheme != "mcl-fv" and rng.random() < 0.5:
        conditions = tuple(str(rng.choice(["outflow", "inflow"])) for _ in range(2))
        inflow = tuple((lambda t, v=v: v + np.cos(t)) for v in rng.normal(size=2))
    bench, options = work.scalar_setup(rng, problem, n=n, conditions=conditions, inflow=inflow)
    kind = {"fv": work.SCALAR_FV, "fe": work.FE}[family][scheme]
    if family == "fe":
        options["polynomial_degree"] = int(rng.integers(1, 4))
        if scheme == "cg":
            options["exact_flux"] = bool(rng.integers(2))
    size = len(kind(bench, **options).solution.value)
    sequence(m, rng, f"{scheme} right-hand side", lambda: work.rhs_of(kind(bench, **options)), lambda: (float(rng.uniform(0, 3)), work.random_scalar_state(rng, size)), 8)


# ------------------------------------------------------------------- operators
def pointwise(m, rng):
    n = work.cells(rng, 1, 20)
    g = float(rng.uniform(0.5, 12))
    wet = lambda: work.random_swe_state(rng, n)

    def hostile():
        state = wet()
        state[rng.random(n) < 0.3] = rng.choice([0.0, 1e-14])
        if rng.random() < 0.2:
            state[rng.integers(n), 0] *= -1
        return state

    sequence(m, rng, "shallow water flux", lambda: swe.Flux(g), lambda: (hostile(),))
    sequence(m, rng, "flux jacobian", lambda: swe.FluxJacobian(g), lambda: (hostile(),))
    sequence(m, rng, "wave speed", lambda: swe.WaveSpeed(g), lambda: (hostile(), hostile()))
    sequence(m, rng, "maximum wave speed", lambda: swe.MaximumWaveSpeed(g), lambda: (hostile(), hostile()))
    sequence(m, rng, "entropy", lambda: swe.Entropy(g), lambda: (hostile(), rng.normal(size=n)))
    sequence(m, rng, "potential", lambda: swe.Potential(g), lambda: (hostile(),))
    sequence(m, rng, "nullify", lambda: swe.nullify, lambda: (hostile(),))
    sequence(m, rng, "velocity", lambda: swe.get_velocity, lambda: (hostile(),))
    sequence(m, rng, "height and discharge", lambda: swe.get_height_and_discharge, lambda: (hostile(),))
    sequence(m, rng, "height positivity fix", lambda: swe.get_height_positivity_fix, lambda: (rng.uniform(0, 2, n), rng.normal(size=n)))
    sequence(m, rng, "shallow water Riemann solver", lambda: swe.RiemannSolver(g).solve, lambda: (hostile(), hostile()))
    for problem in ("advection", "burgers"):
        vector = lambda: (work.random_scalar_state(rng, n), work.random_scalar_state(rng, n))
        sequence(m, rng, f"{problem} Riemann solver", lambda: scalar.get_riemann_solver(problem).solve, vector)
        sequence(m, rng, f"{problem} flux", lambda: scalar.get_flux(problem), lambda: vector()[:1])

    # all results of one Riemann problem belong together
    def riemann():
        solver = swe.RiemannSolver(g)

        def call(left, right):
            flux, state = solver.solve(left, right)
            return flux, state, solver.flux_left, solver.flux_right, solver.wave_speed_left, solver.wave_speed_right

        return call

    sequence(m, rng, "Riemann solver attributes", riemann, lambda: (wet(), wet()))


def boundaries(m, rng):
    n, radius = int(rng.integers(4, 12)), int(rng.integers(1, 4))
    for vector in (False, True):
        names = ["outflow", "inflow"] + (["wall"] if vector else [])
        sides = ("periodic",) if rng.random() < 0.4 else tuple(str(rng.choice(names)) for _ in range(2))
        fixed = [rng.normal(size=2) if vector else float(rng.normal()) for _ in range(2)]
        inflow = [lambda t, v=v: v * (1 + t) for v in fixed]
        builder = swe.get_boundary_conditions if vector else core.get_boundary_conditions
        make = lambda: builder(*sides, radius=radius, inflow_left=inflow[0], inflow_right=inflow[1])
        data = lambda: rng.normal(size=(n, 2) if vector else n)
        sequence(m, rng, "node neighbours", lambda: (lambda o: lambda v, t: o.get_node_neighbours(v, radius=radius, time=t))(make()), lambda: (data(), float(rng.uniform(0, 3))))
        nodes = lambda: rng.normal(size=(n - 1 + 2 * radius, 2) if vector and sides == ("periodic",) else n - 1 + 2 * radius)
        sequence(m, rng, "cell neighbours", lambda: make().get_cell_neighbours, lambda: (nodes(), nodes())[: int(rng.integers(1, 3))])


def spaces(m, rng):
    a, b = work.random_domain(rng)
    n, p = int(rng.integers(3, 7)), int(rng.integers(1, 4))
    mesh = core.UniformMesh(core.Interval(a, b), n)
    space = fem.LagrangeSpace(mesh, p)
    size = len(space.basis_nodes)
    vector = lambda: (work.random_scalar_state(rng, size),)
    for problem in ("advection", "burgers"):
        sequence(m, rng, f"{problem} flux approximation", lambda: fem.build_flux_approximation(problem), vector, 6)
        for exact in (False, True):
            sequence(m, rng, f"{problem} flux gradient", lambda: fem.build_flux_gradient(problem, space, exact), vector, 6)

        def diffusion():
            matrix = fem.build_artificial_diffusion(problem, space)

            def call(u):
                if hasattr(matrix, "assemble"):
                    matrix.assemble(u) if problem == "burgers" else None
                return matrix.dot(u)

            return call

        sequence(m, rng, f"{problem} artificial diffusion", diffusion, vector, 6)
    sequence(m, rng, "mass", lambda: fem.MassMatrix(space).dot, vector, 6)
    sequence(m, rng, "inverse mass", lambda: fem.MassMatrix(space).inverse, vector, 6)
    sequence(m, rng, "discrete gradient", lambda: fem.DiscreteGradient(space).dot, vector, 6)
    neighbours = fem.NeighbourIndicesMapping(space.global_index)
    sequence(m, rng, "local maximum", lambda: core.LocalMaximum(neighbours), vector, 6)
    sequence(m, rng, "local minimum", lambda: core.LocalMinimum(neighbours), vector, 6)
    sequence(m, rng, "finite element", lambda: (lambda u: np.array([space.element(u)(i, x) for i in range(n) for x in np.linspace(mesh[i].a, mesh[i].b, 3)])), vector, 5)
    for name, norm in (("L1", core.L1Norm), ("L2", core.L2Norm), ("sup", lambda mesh, points: core.norm.solver_spaces(mesh, points_per_cell=points))):
        make = lambda: norm(mesh, 3)
        sequence(m, rng, f"{name} norm", lambda: (lambda o: lambda u: o(space.element(u)))(make()), vector, 5)
    for c in (1, 2, 3):
        if (n * 6) % c == 0:
            sequence(m, rng, "vector coarsener", lambda: core.VectorCoarsener(c), lambda: (rng.normal(size=(n * 6, 2)[: int(rng.integers(1, 3))]),), 6)
    times = np.sort(rng.uniform(0, 1, 6))
    sequence(m, rng, "temporal interpolation", core.TemporalInterpolator, lambda: (times, rng.normal(size=(6, n, 2)), np.sort(rng.uniform(0, 1, 4))), 6)
    sequence(m, rng, "spatial interpolation", core.SpatialInterpolator, lambda: (times, rng.normal(size=(n, 6, 2)), np.sort(rng.uniform(0, 1, 4))), 6)


def helpers(m, rng):
    """The parts fluxes, matrices and time steps are made of."""
    n = work.cells(rng, 2, 16)
    g, gamma, dx = float(rng.uniform(0.5, 12)), float(rng.uniform(0, 1)), float(10 ** rng.uniform(-2, 1))
    wet = lambda: work.random_swe_state(rng, n)
    llf = lambda: finite_volume.LaxFriedrichsFlux(swe.RiemannSolver(g))
    sequence(m, rng, "antidiffusive flux", lambda: finite_volume.LinearAntidiffusiveFlux(gamma, dx), lambda: (wet(), wet()), 6)
    sequence(m, rng, "central flux", lambda: finite_volume.CentralFlux(swe.Flux(g)), lambda: (wet(), wet()), 6)
    sequence(m, rng, "corrected flux", lambda: finite_volume.CorrectedNumericalFlux(llf(), finite_volume.LinearAntidiffusiveFlux(gamma, dx)), lambda: (wet(), wet(), wet(), wet())[: 2 * int(rng.integers(1, 3))], 6)
    bottom = rng.uniform(0, 0.5, n - 1) if n > 2 and rng.random() < 0.5 else None
    sequence(m, rng, "flux over a bottom", lambda: swe.NumericalFlux(finite_volume.NumericalFluxWithArbitraryInput(llf()), g, bottom), lambda: (wet(), wet()), 6)
    sequence(m, rng, "recorded flux", lambda: finite_volume.NumericalFluxWithHistory(llf()), lambda: (wet(), wet()), 6)
    sequence(m, rng, "average", lambda: swe.get_average, lambda: (wet(), wet()), 6)
    number = lambda: np.where(rng.random(n) < 0.3, 0.0, rng.normal(size=n))
    sequence(m, rng, "division", lambda: swe.divide, lambda: (number(), number()), 6)
    functions = [np.sin, np.exp, abs, lambda x: x * x, lambda x: np.array([x, 1 - x])]
    nodes = int(rng.integers(1, 6))
    a, b = work.random_domain(rng)
    sequence(m, rng, "quadrature", lambda: core.GaussianQuadrature(nodes, core.Interval(a, b)).integrate, lambda: (functions[int(rng.integers(len(functions)))],), 8)
    sequence(m, rng, "mesh", lambda: (lambda mesh: lambda x: (mesh.find_cell_indices(x), [(c.a, c.b) for c in mesh.find_cells(x)]))(core.UniformMesh(core.Interval(a, b), n)), lambda: (float(rng.uniform(a, b)),), 6)
    interval = lambda: core.Interval(a, b)
    point = lambda: (float(rng.choice([a, b, rng.uniform(a - 1, b + 1)])),)
    for name in ("is_in_inner", "is_in_boundary", "__contains__"):
        if hasattr(core.Interval, name):
            sequence(m, rng, f"interval {name}", lambda: getattr(interval(), name), point, 6)
    problem = str(rng.choice(["advection", "burgers"]))
    sequence(
        m, rng, "optimal finite volume step",
        lambda: finite_volume.OptimalTimeStep(swe.RiemannSolver(g), swe.get_boundary_conditions("periodic", radius=1), dx), lambda: (float(rng.uniform(0, 3)), wet()), 6,
    )
    cells, p = int(rng.integers(3, 7)), int(rng.integers(1, 4))
    space = fem.LagrangeSpace(core.UniformMesh(core.Interval(a, b), cells), p)
    vector = lambda: (work.random_scalar_state(rng, cells * p),)
    dense = lambda matrix: np.asarray(matrix.todense())
    for name, build in (("mass", fem.MassMatrix), ("gradient", fem.DiscreteGradient)):
        sequence(m, rng, f"rows of the {name} matrix", lambda: (lambda o: lambda u: dense(o.multiply_row(u)))(build(space)), vector, 4)
        sequence(m, rng, f"columns of the {name} matrix", lambda: (lambda o: lambda u: dense(o.multiply_column(u)))(build(space)), vector, 4)
    sequence(m, rng, "lumped mass", lambda: fem.LumpedMassVector(space), vector, 4)

    def fast():
        element = fem.QuadratureFastElement(space, core.LocalElementQuadrature(p + 1))
        element.set_values()

        def call(u):
            element.dof_vector = u
            return np.array([element(i, q) for i in range(cells) for q in range(p + 1)])

        return call

    sequence(m, rng, "finite element at quadrature points", fast, vector, 5)
    sequence(m, rng, "interpolation", lambda: (lambda f: np.array(space.interpolate(f)) if hasattr(space, "interpolate") else 0), lambda: (functions[int(rng.integers(4))],), 5)


def networks(m, rng):
    """Fits and predictions leave the data of the caller as they were."""
    network = work.Network(rng, second=bool(rng.integers(2)))
    for _ in range(2):
        rows = int(rng.integers(10, 40))
        x = (network.x_mean + network.x_scale * rng.normal(size=(rows, 8))).astype(np.float32)
        y = (network.y_mean + network.y_scale * rng.normal(size=(rows, 2))).astype(np.float32)
        xs, ys = x.copy(), y.copy()
        learner = network.type(max_epochs=int(rng.integers(0, 3)), verbose=0)
        learner.fit(x, y)
        m.check(same(x, xs) and same(y, ys), "fit leaves its data unchanged")
        x32, kept = xs.copy(), xs.copy()
        before = learner.predict(x32)
        m.check(same(x32, kept), "prediction leaves its input unchanged", change=x32 - kept)
        again = learner.predict(x32)
        m.check(same(before, again), "equal inputs, equal predictions", first=before, second=again)
        other = learner.predict(x32[::-1].copy())
        m.close(other[::-1], before, "predictions of earlier calls", 1e-5)
        m.input(x, y, nontrivial=rows > 1, sample={"rows": rows})
        m.observe("network predictions")


# ------------------------------------------------------------------ interleaved
class Running:
    """A solver running in its own thread, which moves on only when told to."""

    def __init__(self, solver):
        self.solver, self.log, self.done, self.error = solver, [], False, None
        self._go, self._stop = threading.Semaphore(0), threading.Semaphore(0)
        ode = solver.as_dict()["ode_solver"]
        execute = ode.execute

        def hooked(dt):
            self._pause()
            execute(dt)
            self.log.append((dt, ode.time, np.array(ode.solution)))
            self._pause()

        ode.execute = hooked
        self._thread = threading.Thread(target=self._run, daemon=True)
        self._thread.start()

    def _pause(self):
        self._stop.release()
        self._go.acquire()

    def _run(self):
        self._go.acquire()
        try:
            work.solve(self.solver)
        except Exception as error:
            self.error = error
        self.done = True
        self._stop.release()

    def move(self):
        self._go.release()
        self._stop.acquire()


def finished(running):
    if running.error is not None:
        raise running.error
    return [*running.log, (None, running.solver.solution.time, np.array(running.solver.solution.value))]


def run(solver):
    running = Running(solver)
    while not running.done:
        running.move()
    return finished(running)


def builders(rng, family):
    """Some solver builders for ONE benchmark."""
    makers = []
    if family == "swe":
        bottom = bool(rng.integers(2))
        n = 2 * work.cells(rng, 4, 10, 0.08, 400)
        bench, options = work.swe_setup(rng, n=n, bottom=bottom, kind="smooth", froude=0.2, courant=0.1, steps=8)
        names = ["low-order", "mcl", "central", "es", "es1", "antidiffusion"] + ([] if bottom else ["llf", "lw", "coarse", "reduced"])
        if not bottom:
            work.Network(rng, output=1e-3)
        for name in rng.choice(names, 3):
            extra = dict(options)
            extra["mesh_size"] = n if rng.random() < 0.7 else 2 * int(rng.integers(4, 10))
            if name == "antidiffusion":
                extra["gamma"] = 0.1 * bench.speed * bench.domain.length / extra["mesh_size"]
            if name == "coarse":
                extra["coarsening_degree"] = 2
            if name not in ("lw",):
                extra["ode_solver_type"] = list(work.ODE.values())[rng.integers(3)]
            kind = sw.ReducedLaxFriedrichsSolver if name == "reduced" else work.SWE[name]
            makers.append((str(name), kind, extra))
    else:
        problem = str(rng.choice(["advection", "burgers"]))
        bench, options = work.scalar_setup(rng, problem, n=int(rng.integers(5, 12)), steps=8, kind="smooth", courant=0.1)
        names = list(work.SCALAR_FV) + list(work.FE)
        for name in rng.choice(names, 3):
            extra = dict(options)
            kind = work.SCALAR_FV.get(name) or work.FE[name]
            if name in work.FE:
                extra["polynomial_degree"] = int(rng.integers(1, 3))
                extra["cfl_number"] = 0.5 if name != "cg" else 0.5 * extra["cfl_number"]
            if name != "cg":
                extra["ode_solver_type"] = list(work.ODE.values())[rng.integers(3)]
            makers.append((str(name), kind, extra))
    return bench, makers


def interleaved(m, rng, family):
    for _ in range(4):
        bench, makers = builders(rng, family)
        names = [name for name, *_ in makers]
        alone = [run(kind(bench, **extra)) for _, kind, extra in makers]
        solvers = [kind(bench, **extra) for _, kind, extra in makers]
        m.input(family, *names, *[log[-1][2] for log in alone], nontrivial=sum(map(len, alone)) > 4, sample={"solvers": names, "steps": [len(log) for log in alone]})
        if rng.random() < 0.3:  # one after another with solve
            for i in rng.permutation(len(solvers)):
                work.solve(solvers[i])
            for name, solver, log in zip(names, solvers, alone):
                m.check(solver.solution.time == log[-1][1] and same(solver.solution.value, log[-1][2]), f"{name}: solved one after another")
            m.observe("interleaved steps", sum(map(len, alone)))
            continue
        runs = [Running(solver) for solver in solvers]
        while not all(r.done for r in runs):
            m.observe("interleaved steps")
            r = runs[rng.choice([i for i, r in enumerate(runs) if not r.done])]
            r.move()
        for name, log, other in zip(names, map(finished, runs), alone):
            m.check(len(log) == len(other), f"{name}: number of steps of interleaved runs", actual=len(log), expected=len(other))
            for (dt, t, u), (other_dt, s, v) in zip(log, other):
                m.check(dt == other_dt and t == s and same(u, v), f"{name}: interleaved run equals separate run", time=t, expected_time=s)


def build(plan):
    for scheme in list(work.SWE) + ["reduced-llf", "reduced-llf-2"]:
        if scheme != "coarse":
            plan.case(f"rhs/{scheme}", swe_rhs, scheme)
    for problem in ("advection", "burgers"):
        for family, table in (("fv", work.SCALAR_FV), ("fe", work.FE)):
            for scheme in table:
                plan.case(f"rhs/{problem}/{scheme}", scalar_rhs, family, scheme, problem)
    plan.case("pointwise", pointwise)
    plan.case("boundaries", boundaries)
    plan.case("spaces", spaces)
    plan.case("helpers", helpers)
    plan.case("networks", networks)
    for family in ("swe", "scalar"):
        for i in range(3):
            plan.case(f"interleaved/{family}/{i}", interleaved, family)
