"""C05: time stepping reaches the end time exactly with admissible steps."""
import contextlib
import io

import core
import defaults
import numpy as np

import work

RULE = (
    "random time intervals (tiny, huge, non-representable, integer multiples of the step and just off them), CFL "
    "numbers and optimal steps (fixed or changing from step to step) drive the real time stepping, alone and inside every "
    "solver with hooks on each executed step; a trace checker judges the recorded times and steps. "
    "Non-trivial: at least two steps."
)
QUICK_ROUNDS = 6
REQUIRE = {"time stepping traces": 300, "solver traces": 100, "steps": 5000, "too small": 30}


def interval(rng):
    """(start, end, step) with at most a few hundred steps."""
    start = float(rng.choice([0.0, rng.uniform(-10, 10), rng.uniform(-1, 1) * 10 ** rng.uniform(-3, 4)]))
    length = float(rng.choice([1.0, 0.1, 10 ** rng.uniform(-4, 4)]))
    number = rng.integers(1, 200)
    kind = rng.integers(4)
    if kind == 0:
        step = length / number
    elif kind == 1:
        step = length / rng.uniform(0.3, 150)
    elif kind == 2:  # just beside a divisor
        step = length / number * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-13, -3))
    else:
        step = float(rng.choice([0.1, 0.2, 0.3, 0.01])) * length
    return start, start + length, float(step)


def check_trace(m, label, start, end, steps, bounds, times=None, fixed=None):
    """STEPS taken from START, BOUNDS the admissible sizes."""
    steps = np.asarray(steps)
    scale = max(abs(start), abs(end), 1e-300)
    m.observe("steps", len(steps))
    if not m.check(len(steps) > 0, f"{label}: makes steps", start=start, end=end):
        return
    m.check((steps > 0).all(), f"{label}: steps are positive", steps=steps)
    m.check((steps <= np.asarray(bounds) * (1 + 1e-12)).all(), f"{label}: steps are admissible", steps=steps, bounds=bounds)
    if fixed is not None:
        m.close_each(steps[:-1], np.full(len(steps) - 1, fixed), f"{label}: fixed steps", 1e-12, start=start, end=end, number=len(steps))
        # rounding of the accumulated time may leave a rest of this size
        rest = 2e-12 + 1e-15 * scale * (len(steps) + 4)
        m.check(
            len(steps) * fixed >= end - start - rest and (len(steps) - 1) * fixed <= end - start + rest,
            f"{label}: number of steps", number=len(steps), expected=(end - start) / fixed, last=steps[-1],
        )
    total = start + np.cumsum(steps)
    m.check((total <= end + 1e-12 * scale * len(steps)).all(), f"{label}: never beyond the end", times=total, end=end)
    m.check(abs(total[-1] - end) <= 2e-12 + 1e-13 * scale * len(steps), f"{label}: reaches the end", time=total[-1], end=end)
    if times is not None:
        m.check(len(times) == len(steps) + 1, f"{label}: recorded times", number=len(times), steps=len(steps))
        m.check(times[0] == start, f"{label}: starts at the start time", time=times[0], start=start)
        m.check((np.diff(times) > 0).all(), f"{label}: times increase", times=times)
        if len(times) == len(steps) + 1:
            m.close(times[1:], total, f"{label}: times are sums of the steps", 0.0, 1e-12 + 1e-13 * scale * len(steps))


def stepping_fixed(m, rng):
    for _ in range(25):
        start, end, step = interval(rng)
        cfl = float(rng.choice([1.0, 0.1, 10 ** rng.uniform(-2, 1)]))
        optimal = step / cfl
        calls = []

        def optimal_step():
            calls.append(0)
            return optimal if len(calls) == 1 else optimal * 0.1

        ts = core.TimeStepping(end, cfl, optimal_step, start_time=start)
        announced = len(ts)
        m.input(start, end, step, cfl, nontrivial=announced > 1, sample={"start": start, "end": end, "step": step, "cfl": cfl})
        for repetition in range(2):
            times, steps = [], []
            for dt in ts:
                times.append(ts.time)
                steps.append(dt)
                m.check(ts.time_steps_number == len(steps), "time stepping: counts its steps", counted=ts.time_steps_number, steps=len(steps))
                if repetition and len(steps) > 3 and rng.random() < 0.02:
                    break
                if len(steps) > 100000:
                    m.fail("time stepping: ends", start=start, end=end, step=step)
                    return
            else:
                m.observe("time stepping traces")
                check_trace(m, "fixed time stepping", start, end, steps, np.full(len(steps), cfl * optimal), [start, *times], cfl * optimal)
                m.check(times[-1] == end, "time stepping: time equals the end time", time=times[-1], end=end)
                # an announced number differs at most by a step of rounding size
                m.check(
                    announced == len(steps) or (abs(announced - len(steps)) == 1 and min(steps[-1], abs(np.sum(steps[:announced]) + start - end)) < 1e-9 * step + 2e-12 + 1e-15 * max(abs(end), abs(start)) * (announced + 4)),
                    "time stepping: announced number of steps", announced=announced, steps=len(steps), start=start, end=end, step=step, cfl=cfl,
                )


def stepping_adaptive(m, rng):
    for _ in range(25):
        start, end, step = interval(rng)
        cfl = float(rng.choice([1.0, 0.1, 10 ** rng.uniform(-2, 1)]))
        given = []

        def optimal_step():
            given.append(step / cfl * 10 ** rng.uniform(-0.5, 0.5))
            return given[-1]

        ts = core.TimeStepping(end, cfl, optimal_step, adaptive=True, start_time=start)
        m.check(len(ts) == 0, "adaptive time stepping: announces no number", number=len(ts))
        times, steps, bounds = [start], [], []
        for dt in ts:
            bounds.append(cfl * given[-1])
            steps.append(dt)
            times.append(ts.time)
            if len(steps) > 100000:
                m.fail("time stepping: ends", start=start, end=end, step=step)
                return
        m.input(start, end, step, cfl, nontrivial=len(steps) > 1)
        m.observe("time stepping traces")
        check_trace(m, "adaptive time stepping", start, end, steps, bounds, times)
        m.check(times[-1] == end, "time stepping: time equals the end time", time=times[-1], end=end)
        # each step but the last is the full admissible one of the moment
        m.close_each(steps[:-1], bounds[:-1], "adaptive time stepping: full steps", 1e-12)


def too_small(m, rng):
    """Steps which become too small stop the time stepping."""
    for _ in range(15):
        start, end, step = interval(rng)
        cfl = float(10 ** rng.uniform(-2, 1))
        broken = int(rng.integers(0, 6))
        tiny = float(rng.choice([0.0, 1e-13, 9e-13, -0.1, -1.0]))
        adaptive = rng.random() < 0.7
        calls = []

        def optimal_step():
            calls.append(0)
            if not adaptive or len(calls) > broken:
                return tiny / cfl
            return (end - start) / 10 / cfl

        ts = core.TimeStepping(end, cfl, optimal_step, adaptive=adaptive, start_time=start)
        iterator = iter(ts)
        m.input(start, end, tiny, broken, nontrivial=True)
        m.observe("too small")
        for _ in range(broken if adaptive else 0):
            next(iterator)
        before = ts.time
        m.raises(lambda: next(iterator), core.TimeStepTooSmallError, "time stepping: too small steps are refused", step=tiny)
        m.check(ts.time == before, "time stepping: refused step does not advance", time=ts.time, before=before)


def too_small_solver(m, rng):
    """The solver stops with a warning and keeps the last solution."""
    bench, options = work.scalar_setup(rng, "advection", n=10, steps=10, kind="smooth")
    full = work.solve(work.SCALAR_FV["llf"](bench, save_history=True, **options)).solution
    good = int(rng.integers(0, 5))
    model = work.SCALAR_FV["llf"](bench, save_history=True, **options)
    dt = options["cfl_number"] * model.solution.space.mesh.step_length
    steps = [dt] * good + [float(rng.choice([0.0, 1e-13, -1e-3]))] * 20

    class Run(core.Solver):
        def reinitialize(self, benchmark):
            raise NotImplementedError

    clock = core.TimeStepping(bench.end_time, 1.0, lambda: steps.pop(0), adaptive=True, start_time=bench.start_time)
    solver = Run(model.solution, work.rhs_of(model), type(model.as_dict()["ode_solver"]), clock)
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        solver.solve(disable=True)
    m.input("solver", good)
    m.observe("too small")
    m.check("time step is too small" in out.getvalue(), "solver: warns about a too small time step", output=out.getvalue())
    m.close(solver.solution.value_history, full.value_history[: good + 1], "solver: keeps the solution before the too small step", 1e-14)


def traced(solver):
    """Records every step the ODE solver executes and the state before it."""
    ode = solver.as_dict()["ode_solver"]
    execute = ode.execute
    steps, states, before = [], [], []

    def hooked(time_step):
        before.append((solver.solution.time, solver.solution.value))
        execute(time_step)
        steps.append(time_step)
        states.append((ode.time, np.array(ode.solution)))

    ode.execute = hooked
    return steps, states, before


def solver_run(m, rng, family, scheme, problem=None):
    for _ in range(3):
        steps = work.cells(rng, 1, 25, 0.1, 1500)
        m.observe("long runs", int(steps > 100))
        default_cfl = rng.random() < 0.3
        extra = {}
        if family == "swe":
            bench, options = work.swe_setup(rng, n=2 * work.cells(rng, 3, 15, 0.08 * (steps < 25), 400), steps=steps, kind="smooth", froude=0.3, courant=0.1)
            classes, cfl_default = work.SWE, defaults.FINITE_VOLUME_CFL_NUMBER
            if scheme == "coarse":
                extra["coarsening_degree"] = 2
            if scheme == "antidiffusion":
                extra["gamma"] = 0.0
        else:
            bench, options = work.scalar_setup(rng, problem, n=work.cells(rng, 5, 40 if steps < 25 else 15, 0.08 * (steps < 25), 400) if family == "fv" else int(rng.integers(5, 40 if steps < 25 else 8)), steps=steps, kind="smooth", courant=0.1)
            classes = work.SCALAR_FV if family == "fv" else work.FE
            cfl_default = defaults.FINITE_VOLUME_CFL_NUMBER if family == "fv" else defaults.FINITE_ELEMENT_CFL_NUMBER
            if family == "fe":
                extra["polynomial_degree"] = int(rng.integers(1, 4))
                if scheme == "cg":
                    options["cfl_number"] = 0.02 / max(1, abs(bench.low), abs(bench.high))
        n = options["mesh_size"]
        dx = bench.domain.length / n
        cfl = options["cfl_number"]
        if default_cfl:
            options.pop("cfl_number")
            cfl = cfl_default
        adaptive = family == "fe" and scheme != "cg" and rng.random() < 0.5
        if adaptive:
            extra["adaptive"] = True
        number = rng.choice([steps, steps + rng.uniform(0, 1), 0.3, steps * (1 + 1e-12), steps * (1 - 1e-12)])
        if family == "fe" and scheme != "cg":
            cfl = min(cfl, 0.5)
            if not default_cfl:
                options["cfl_number"] = cfl
            probe = classes[scheme](bench, **options, **extra)
            step = next(iter(work.time_steps(probe)))
            bench.end_time = float(bench.start_time + number * min(step, dx))
        else:
            step = cfl * dx
            if default_cfl and step > 0.3 * dx / getattr(bench, "speed", max(1, abs(bench.low) if family != "swe" else 1, abs(bench.high) if family != "swe" else 1)):
                number = min(number, 3)
            bench.end_time = float(bench.start_time + number * step)
        solver = classes[scheme](bench, save_history=True, **options, **extra)
        trace, states, before = traced(solver)
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                solver.solve(disable=True)
            except ValueError:  # unstable run; judged by C23
                m.observe("unstable runs")
                continue
        m.input(family, scheme, bench.start_time, bench.end_time, cfl, n, nontrivial=len(trace) > 1,
                sample={"scheme": scheme, "start": bench.start_time, "end": bench.end_time, "cfl": cfl, "n": n, "adaptive": adaptive})
        m.observe("solver traces")
        label = f"{family}/{scheme}"
        solution = solver.solution
        if family == "fe" and scheme != "cg":
            # optimal step as defined by the low order scheme, at the recorded states
            optimal = [admissible(problem, solution.space, u) for _, u in before]
            bounds = cfl * np.array(optimal)
            if not adaptive:
                bounds = np.full(len(trace), bounds[0])
            full = np.array(trace[:-1])
            m.close_each(full, bounds[:-1], f"{label}: steps are the CFL number times the optimal step", 1e-10, adaptive=adaptive)
            fixed = None if adaptive else bounds[0]
        else:
            bounds, fixed = np.full(len(trace), step), step
        check_trace(m, label, bench.start_time, bench.end_time, trace, bounds * (1 + 1e-12), solution.time_history, fixed)
        if len(solution.time_history) != len(trace) + 1:
            continue
        m.check(len(solution.value_history) == len(trace) + 1, f"{label}: one recorded value per step")
        m.close(solution.time_step_history, trace, f"{label}: recorded time steps", 0.0, 1e-12 + 1e-12 * max(1e-3, abs(bench.start_time), abs(bench.end_time)))
        m.check(solution.time == solution.time_history[-1], f"{label}: time is the last recorded time")
        if scheme != "coarse":
            m.close(solution.value_history[1:], [u for _, u in states], f"{label}: recorded values are the computed ones", 0.0)
        m.close([t for t, _ in states], solution.time_history[1:], f"{label}: ODE solver and solution agree on the time", 0.0, 1e-12 * max(1e-3, abs(bench.end_time)))


def admissible(problem, space, u):
    """min m_i / (2 |d_ii|), assembled with exact integration on each element."""
    p = space.polynomial_degree
    n = len(u) // p
    length = space.mesh.domain.length / n
    x = np.linspace(0, 1, p + 1)
    coefficients = np.linalg.inv(np.vander(x, increasing=True))  # columns: basis functions
    k = np.arange(p + 1)
    mass, gradient = np.zeros(len(u)), np.zeros((len(u), len(u)))
    for e in range(n):
        dofs = [(e * p + j) % len(u) for j in range(p + 1)]
        for i in range(p + 1):
            mass[dofs[i]] += length * np.sum(coefficients[:, i] / (k + 1))
            for j in range(p + 1):
                derivative = coefficients[1:, j] * k[1:]
                product = np.polynomial.polynomial.polymul(coefficients[:, i], derivative)
                gradient[dofs[i], dofs[j]] += np.sum(product / (np.arange(len(product)) + 1))
    diffusion = np.zeros(len(u))
    for i in range(len(u)):
        for j in range(len(u)):
            if i != j:
                if problem == "advection":
                    diffusion[i] += max(abs(gradient[i, j]), abs(gradient[j, i]))
                else:
                    diffusion[i] += max(abs(u[j] * gradient[i, j]), abs(u[i] * gradient[j, i]))
    return np.min(mass / (2 * diffusion))


def fv_optimal(m, rng):
    """Optimal finite volume step: cell size over the fastest wave."""
    import finite_volume
    import finite_volume.scalar as scalar
    import finite_volume.shallow_water as swe

    import ref

    for _ in range(15):
        problem = rng.choice(["advection", "burgers", "shallow_water"])
        n = work.cells(rng, 2, 20, 0.08, 1000)
        conditions = ("periodic",)
        if rng.random() < 0.6:
            conditions = tuple(str(c) for c in rng.choice(["outflow", "inflow"] + ["wall"] * (problem == "shallow_water"), 2))
        u = work.random_swe_state(rng, n) if problem == "shallow_water" else work.random_scalar_state(rng, n)
        g = float(rng.uniform(0.5, 20))
        riemann = swe.RiemannSolver(g) if problem == "shallow_water" else scalar.get_riemann_solver(problem)
        dx = float(10 ** rng.uniform(-3, 1))
        get = swe.get_boundary_conditions if problem == "shallow_water" and hasattr(swe, "get_boundary_conditions") else core.get_boundary_conditions
        t = float(rng.choice([0.0, 1.0, -1.0]) * rng.uniform(0.1, 5))
        data = (work.random_swe_state(rng, 4) if problem == "shallow_water" else work.random_scalar_state(rng, 4))[:2]
        # inflow data for the right time only
        inflow = [lambda s, v=v: v if s == t else 1e3 * (np.abs(v) + 1) for v in (data[0], data[1])]
        boundary = get(*conditions, radius=1, inflow_left=inflow[0], inflow_right=inflow[1])
        step = finite_volume.OptimalTimeStep(riemann, boundary, dx)
        ends = []
        for side, condition in zip((0, -1), conditions * 2):
            end = {"periodic": u[-1 - side], "outflow": u[side], "inflow": data[side], "wall": u[side] * np.array([1, -1]) if problem == "shallow_water" else None}[condition]
            ends.append(np.asarray(end)[None])
        ext = np.concatenate([ends[0], u, ends[1]])
        speed = max(ref.llf(problem, a, b, g)[2] for a, b in zip(ext[:-1], ext[1:]))
        m.input(problem, conditions, u, dx)
        m.observe("optimal steps")
        m.close(step(t, u.copy()), dx / speed, "finite volume optimal time step", 1e-10, problem=problem, conditions=conditions, u=u)


def build(plan):
    for i in range(2):
        plan.case(f"fixed/{i}", stepping_fixed)
        plan.case(f"adaptive/{i}", stepping_adaptive)
    plan.case("too-small", too_small)
    for i in range(4):
        plan.case(f"too-small-solver/{i}", too_small_solver)
    for problem in ("advection", "burgers"):
        for scheme in work.SCALAR_FV:
            plan.case(f"run/{problem}/{scheme}", solver_run, "fv", scheme, problem)
        for scheme in work.FE:
            plan.case(f"run/{problem}/{scheme}", solver_run, "fe", scheme, problem)
    for scheme in work.SWE:
        plan.case(f"run/swe/{scheme}", solver_run, "swe", scheme)
    plan.case("finite-volume-optimal", fv_optimal)
