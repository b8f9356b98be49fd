"""C14: a re-initialised solver behaves like a new one."""
import copy

import core
import numpy as np

import work

RULE = (
    "random solver, options and benchmark family (same domain, times, boundary conditions, bottom and gravity, other "
    "initial data, now and then constant states, which runs leave unchanged); 1-5 random operations on one solver object (complete runs, runs broken off by an exception in the "
    "right-hand side, by a too small step or by leaving the step loop, manual steps, overwritten records, repeated "
    "re-initialisation), then re-initialisation and a run which is compared with a new solver's run "
    "step by step. Non-trivial: at least one earlier step."
)
QUICK_ROUNDS = 6
REQUIRE = {"comparisons": 200, "earlier steps": 800, "broken runs": 100, "compared steps": 1500}


class Broken(Exception):
    pass


def variant(rng, bench, n):
    """The same benchmark with other initial data of the same range."""
    if bench.kind == "constant" and rng.random() < 0.6:
        return bench
    other = copy.copy(bench)
    a, b = bench.domain.a, bench.domain.b
    if bench.problem == "shallow_water":
        old = np.array([bench.initial_data(x) for x in np.linspace(a, b, 50)])
        lo, hi = old[:, 0].min(), old[:, 0].max()
        height = work.profile(rng, str(rng.choice(work.KINDS if bench.kind not in ("smooth", "constant") else ["smooth"])), a, b, n, lo, hi)
        v = np.abs(old[:, 1] / old[:, 0]).max()
        velocity = work.profile(rng, "smooth", a, b, n, -v, v)
        other._data = lambda x: np.array([height(x), height(x) * velocity(x)])
    else:
        other._data = work.profile(rng, "smooth" if bench.kind in ("smooth", "constant") else str(rng.choice(work.KINDS)), a, b, n, bench.low, bench.high)
    return other


CONDITIONS = {
    "swe": [("periodic",), ("outflow", "outflow"), ("wall", "wall"), ("inflow", "outflow"), ("outflow", "wall")],
    "scalar": [("periodic",), ("outflow", "outflow"), ("inflow", "outflow"), ("inflow", "inflow")],
}


def make(rng, family, scheme):
    """(constructor, benchmark)"""
    if family == "swe":
        conditions = CONDITIONS["swe"][int(rng.integers(5))]
        state = np.array([1.0, rng.uniform(-0.3, 0.3)])
        phase = rng.uniform(0, 6)
        inflow = (lambda t: state * (1.2 + 0.1 * np.sin(t + phase)),) * 2
        bottom = scheme in ("low-order", "mcl", "central", "es", "es1") and rng.random() < 0.5
        mild = scheme in ("central", "lw", "es", "antidiffusion", "coarse") or scheme.startswith("reduced")
        bench, options = work.swe_setup(
            rng, n=2 * work.cells(rng, 4, 12, 0.08, 400), steps=int(rng.integers(2, 8)), conditions=conditions, inflow=inflow, bottom=bottom,
            kind="smooth" if mild else None, froude=0.2 if mild else 0.8, courant=0.1 if mild else None,
        )
        if scheme.startswith("reduced"):
            network = work.Network(rng, scheme.endswith("2"), 0.01)
            import finite_volume.shallow_water.solver as sw

            solver = sw.ReducedLaxFriedrichs2Solver if scheme.endswith("2") else sw.ReducedLaxFriedrichsSolver
        else:
            solver = work.SWE[scheme]
        if scheme == "antidiffusion":
            options["gamma"] = float(0.05 * bench.speed * bench.domain.length / options["mesh_size"])
        if scheme == "coarse":
            options["coarsening_degree"] = 2
    elif family == "scalar":
        conditions = CONDITIONS["scalar"][int(rng.integers(4))]
        phase = rng.uniform(0, 6)
        inflow = (lambda t: 0.1 * np.sin(t + phase), lambda t: 0.1 * np.cos(t + phase))
        problem = str(rng.choice(["advection", "burgers"]))
        bench, options = work.scalar_setup(rng, problem, steps=int(rng.integers(2, 12)), conditions=conditions, inflow=inflow,
                                           **({"kind": "smooth", "courant": 0.1} if scheme == "central" else {}))
        solver = work.SCALAR_FV[scheme]
    else:
        problem = str(rng.choice(["advection", "burgers"]))
        p = int(rng.integers(1, 4)) if scheme == "cg" else 1
        bench, options = work.scalar_setup(rng, problem, n=work.cells(rng, 4, 9, 0.05, 60), steps=int(rng.integers(2, 8)), courant=0.05 / p)
        options["polynomial_degree"] = p
        solver = work.FE[scheme]
        if scheme != "cg":
            options["adaptive"] = bool(rng.random() < 0.7)
            options["cfl_number"] = 0.5
            trial = solver(bench, **options)
            steps = max(float(trial.as_dict()["time_stepping"].as_dict()["time_step_generator"]()), 1e-6)
            bench.end_time = bench.start_time + rng.uniform(2, 8) * min(steps, 10 * (bench.domain.b - bench.domain.a))
    if "ode_solver_type" not in options and scheme in ("llf", "low-order", "mcl", "mcl-fv", "mcl-fem", "cg-low") and rng.random() < 0.5:
        options["ode_solver_type"] = work.ODE[str(rng.choice(list(work.ODE)))]
    history = bool(rng.random() < 0.7)
    if rng.random() < 0.25:
        # steady states: a run ends with the values it began with
        constant = bench.initial_data(bench.domain.a + rng.uniform(0, 1) * bench.domain.length)
        bench._data = lambda x: constant
        bench.kind = "constant"

    def new(benchmark):
        return solver(benchmark, save_history=history, **options)

    same = family == "fe" and scheme != "cg" and not options.get("adaptive") and problem == "burgers"
    return new, bench, options["mesh_size"], history, same


def trace(solver, log=None):
    """Runs the solver and records each step."""
    ode = solver.as_dict()["ode_solver"]
    log = [] if log is None else log
    execute = type(ode).execute

    def hooked(dt):
        execute(ode, dt)
        log.append((dt, ode.time, np.array(ode.solution)))

    ode.execute = hooked
    try:
        work.solve(solver)
    finally:
        del ode.execute
    return log


def attempt(solver):
    """Recorded steps and whether the run broke (the data may be too wild for its time steps)."""
    log = []
    try:
        trace(solver, log)
    except ValueError:
        return [x for x in log if np.isfinite(x[2]).all()], True
    return log, False


def use(m, rng, solver):
    """Some earlier use of the solver."""
    ode = solver.as_dict()["ode_solver"]
    operation = rng.choice(["solve", "break", "manual", "nan", "leave", "overwrite"])
    if operation == "solve":
        try:
            m.observe("earlier steps", len(trace(solver)))
        except ValueError:
            m.observe("broken runs")
    elif operation in ("break", "nan"):
        execute = type(ode).execute
        left = [int(rng.integers(0, 6))]

        def hooked(dt):
            if left[0] == 0:
                if operation == "break":
                    if rng.random() < 0.5:
                        execute(ode, dt)
                    raise Broken
                execute(ode, dt)
                ode.solution[...] = np.nan
                return
            left[0] -= 1
            m.observe("earlier steps")
            execute(ode, dt)

        ode.execute = hooked
        try:
            work.solve(solver)
        except (Broken, ValueError):
            m.observe("broken runs")
        finally:
            del ode.execute
    elif operation == "manual":
        try:  # an earlier broken run may have left non-finite values in the integrator
            dt = next(iter(solver.as_dict()["time_stepping"]))
            for _ in range(int(rng.integers(1, 4))):
                work.do_step(solver, dt * rng.uniform(0.1, 0.5))
                m.observe("earlier steps")
        except (ValueError, core.TimeStepTooSmallError):
            m.observe("broken runs")
    elif operation == "leave":
        try:
            for count, dt in enumerate(solver.as_dict()["time_stepping"]):
                work.do_step(solver, dt)
                m.observe("earlier steps")
                if count == 1:
                    break
        except (ValueError, core.TimeStepTooSmallError):
            m.observe("broken runs")
    else:
        value = solver.solution.value
        value[...] = 5.0
        if value.shape == np.shape(ode.solution):
            ode.solution[...] = 5.0
    return str(operation)


def reinitialised(m, rng, family, scheme):
    new, bench, n, history, same = make(rng, family, scheme)
    label = f"{family} {scheme}"
    solver = new(bench)
    done = []
    first = True
    for _ in range(int(rng.integers(1, 4))):
        for _ in range(int(rng.integers(0, 2)) + (1 if first else 0)):
            # one run per initialisation, anything may follow it but another run
            done.append(use(m, rng, solver))
        first = False
        other = bench if same else variant(rng, bench, n)
        for repetition in range(int(rng.integers(1, 3))):
            solver.reinitialize(bench if repetition % 2 and not same else other)
        last = bench if repetition % 2 and not same else other
        fresh = new(last)
        m.input(label, tuple(done), fresh.solution.value, sample={"solver": label, "earlier": list(done)})
        m.observe("comparisons")
        kw = {"earlier": list(done)}
        scale = max(1.0, abs(bench.start_time), abs(bench.end_time))
        m.close(solver.solution.value, fresh.solution.value, f"{label}: initial values after re-initialisation", 1e-14, **kw)
        m.close(solver.solution.time, fresh.solution.time, f"{label}: initial time after re-initialisation", 0, **kw)
        (expected, broke), (got, broken) = attempt(fresh), attempt(solver)
        m.check(broke == broken, f"{label}: both runs end or both break", got=broken, expected=broke, **kw)
        m.observe("broken runs", int(broke))
        m.observe("compared steps", len(expected))
        m.check(len(expected) == len(got), f"{label}: number of steps after re-initialisation", got=len(got), expected=len(expected), **kw)
        for k, (e, g) in enumerate(zip(expected, got)):
            ok = m.close(g[0], e[0], f"{label}: time step after re-initialisation", 1e-13, step=k, **kw)
            ok &= m.close(g[1], e[1], f"{label}: time of the integrator after re-initialisation", 0, 1e-13 * scale, step=k, **kw)
            ok &= m.close(g[2], e[2], f"{label}: values after re-initialisation", 1e-13, step=k, **kw)
            if not ok:
                break
        m.close(solver.solution.value, fresh.solution.value, f"{label}: final values after re-initialisation", 1e-13, **kw)
        m.close(solver.solution.time, fresh.solution.time, f"{label}: final time after re-initialisation", 0, 1e-12 * scale, **kw)
        if history:
            m.close(solver.solution.time_history, fresh.solution.time_history, f"{label}: times of the history after re-initialisation", 0, 1e-12 * scale, **kw)
            m.close(solver.solution.value_history, fresh.solution.value_history, f"{label}: history after re-initialisation", 1e-13, **kw)
        done = [*done, "solve"]


def build(plan):
    for k in range(3):
        for scheme in [*work.SWE, "reduced-llf", "reduced-llf-2"]:
            plan.case(f"swe {scheme} #{k}", reinitialised, "swe", scheme)
        for scheme in work.SCALAR_FV:
            for j in range(2):
                plan.case(f"scalar {scheme} #{k}.{j}", reinitialised, "scalar", scheme)
        for scheme in work.FE:
            plan.case(f"fe {scheme} #{k}", reinitialised, "fe", scheme)
