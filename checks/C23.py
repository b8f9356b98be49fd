"""C23: violated time step conditions and broken values are reported."""
import contextlib
import io

import core
import numpy as np

import work
from C10 import Dense
from vf import StopCase

RULE = (
    "low-order and MCL finite element runs with CFL numbers around one, fixed steps and growing wave speeds: the warnings "
    "printed are compared with the condition evaluated by an independent dense assembly for every stage of every step; "
    "NaN / infinite values injected into chosen steps, stages (through inflow data) and DOFs of every solver: the run must "
    "stop with a ValueError at that very step and keep the record up to it; runs without faults must stay silent. "
    "Non-trivial: runs with more than one step."
)
QUICK_ROUNDS = 6
REQUIRE = {"steps judged": 1500, "violated steps": 150, "admissible steps": 400, "faults": 200, "silent runs": 60, "stages at their times": 100}


@contextlib.contextmanager
def printed():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


def warnings_of(out):
    return [line for line in out.getvalue().splitlines() if "CFL" in line]


def optimal(dense, problem, u):
    d = np.abs(np.diag(dense.diffusion(problem, u)))
    with np.errstate(divide="ignore"):
        return float(np.min(dense.m / (2 * d)))


def cfl(m, rng, scheme, problem):
    for _ in range(3):
        p = int(rng.integers(1, 4)) if scheme == "cg-low" else int(rng.integers(1, 3))
        n = int(rng.integers(4, 9))
        courant = float(rng.choice([0.5, 0.999, 1.0, 1.001, 1.5, rng.uniform(0.8, 1.4)]))
        a, b = work.random_domain(rng)
        bench, options = work.scalar_setup(rng, problem, n=n, kind="smooth", domain=(a, b), low=-1.0, high=1.0, start=float(rng.choice([0.0, 2.0])))
        if problem == "burgers":  # wave speeds which change in time
            amp = float(rng.uniform(0.3, 2))
            data = bench._data
            bench._data = lambda x: amp * data(x)
        dense = Dense(a, b, n, p)
        kind = core.Heun if rng.random() < 0.5 else [core.ForwardEuler, core.StrongStabilityPreservingRungeKutta3][rng.integers(2)]
        adaptive = bool(rng.integers(2))
        u0 = np.array([bench.initial_data(x) for x in dense.nodes])
        if not np.isfinite(optimal(dense, problem, u0)):
            continue
        bench.end_time = bench.start_time + 12 * courant * optimal(dense, problem, u0)
        solver = work.FE[scheme](bench, mesh_size=n, polynomial_degree=p, cfl_number=courant, ode_solver_type=kind, adaptive=adaptive, save_history=True)
        ode = solver.as_dict()["ode_solver"]
        execute, log = ode.execute, []

        def hooked(dt):
            if len(log) >= 60:
                raise StopCase  # steps of an unstable run
            begin = ode.time
            execute(dt)
            log.append((begin, dt, [np.array(v) for v in ode.stage_values]))

        ode.execute = hooked
        with printed() as out:
            try:
                work.solve(solver)
            except (StopCase, ValueError):
                pass
        lines = warnings_of(out)
        m.input(scheme, problem, p, n, courant, adaptive, u0, nontrivial=len(log) > 1, sample={"scheme": scheme, "CFL": courant, "steps": len(log), "warnings": lines[:3]})
        must, may = [], []
        for begin, dt, stages in log:
            ratios = [dt / optimal(dense, problem, v) for v in stages]
            worst = max(r for r in ratios if np.isfinite(r)) if any(np.isfinite(ratios)) else np.inf
            m.observe("steps judged")
            if worst > 1 + 1e-9:
                must.append((begin, begin + dt))
                m.observe("violated steps")
            elif worst < 1 - 1e-9:
                m.observe("admissible steps")
            else:
                may.append((begin, begin + dt))
        m.check(len(must) <= len(lines) <= len(must) + len(may), f"{scheme}: one warning for each violated step", warnings=lines, violated=must, undecided=len(may))
        if problem == "advection" and courant <= 1.0:
            m.check(not lines, f"{scheme}: admissible steps raise no warning", warnings=lines)
        # the times named belong to violated steps
        scale = max(1.0, abs(bench.end_time))
        for line in lines:
            time = float(line.split()[-1])
            m.check(any(l - 6e-5 * scale <= time <= r + 6e-5 * scale for l, r in must + may), f"{scheme}: time named by the warning", line=line, violated=must)


def any_solver(rng, name):
    family, scheme = name.split("/")
    if family == "swe":
        bench, options = work.swe_setup(rng, n=2 * int(rng.integers(3, 10)), steps=12, kind="smooth", froude=0.2, courant=0.1)
        if scheme == "coarse":
            options = {**options, "coarsening_degree": 2}
        if scheme == "antidiffusion":
            options["gamma"] = 0.1 * bench.speed * bench.domain.length / options["mesh_size"]
        kind = work.SWE[scheme]
    else:
        problem = str(rng.choice(["advection", "burgers"]))
        bench, options = work.scalar_setup(rng, problem, n=int(rng.integers(5, 10)), steps=12, kind="smooth", courant=0.1)
        kind = {"fv": work.SCALAR_FV, "fe": work.FE}[family][scheme]
        if family == "fe":
            options["polynomial_degree"] = int(rng.integers(1, 3))
            if scheme != "cg":
                options["cfl_number"] = 0.5
            else:
                options["cfl_number"] *= 0.5
    return kind, bench, options


def fault(m, rng, name):
    """Broken values after a chosen step."""
    for _ in range(4):
        kind, bench, options = any_solver(rng, name)
        history = bool(rng.integers(4))
        solver = kind(bench, save_history=history, **options)
        ode = solver.as_dict()["ode_solver"]
        execute, good = ode.execute, []
        at, value = int(rng.integers(0, 8)), float(rng.choice([np.nan, np.inf, -np.inf]))
        start = np.array(solver.solution.value)

        def hooked(dt):
            execute(dt)
            if len(good) == at:
                flat = ode.solution.reshape(-1)
                flat[int(rng.integers(flat.size))] = value
                good.append(None)
            else:
                good.append((dt, np.array(ode.solution)))

        ode.execute = hooked
        with printed() as out:
            try:
                work.solve(solver)
                error = None
            except ValueError as e:
                error = e
        reached = len(good) > at
        m.input(name, at, value, start, nontrivial=reached, sample={"solver": name, "step": at, "value": value})
        if not reached:
            m.observe("silent runs")
            m.check(error is None, f"{name}: runs with finite values end", error=repr(error))
            continue
        m.observe("faults")
        m.check(error is not None, f"{name}: broken values stop the run", step=at, value=value)
        m.check(len(good) == at + 1, f"{name}: the run stops at the first broken step", steps=len(good), fault=at)
        s = solver.solution
        degree = options.get("coarsening_degree", 1)
        fold = core.VectorCoarsener(degree) if degree > 1 else (lambda v: v)
        last = fold(good[at - 1][1]) if at else start
        time = bench.start_time + sum(dt for dt, _ in good[:at])
        m.close(s.value, last, f"{name}: last finite solution stays available", 1e-14)
        m.close(s.time, time, f"{name}: time of the last finite solution", 0, 1e-11 * max(1, abs(time)))
        if history:
            m.close(s.time_history, bench.start_time + np.cumsum([0.0] + [dt for dt, _ in good[:at]]), f"{name}: record up to the fault", 0, 1e-11 * max(1, abs(time)))
            m.close(s.value_history[1:], np.array([fold(v) for _, v in good[:at]]).reshape((at, *start.shape)), f"{name}: record up to the fault", 1e-14)


def broken_inflow(m, rng, name):
    """Inflow data which break at some time."""
    family, scheme = name.split("/")
    for _ in range(3):
        start = float(rng.choice([0.0, 1.5]))
        state = {}
        if family == "swe":
            inflow = lambda t: np.array([state["h"], 0.0]) if t < state["t"] else np.array([state["h"], np.nan])
            bench, options = work.swe_setup(rng, steps=12, kind="smooth", froude=0.2, courant=0.1, conditions=("inflow", "outflow"), inflow=(inflow, None), start=start)
            state["h"] = float(bench.initial_data(bench.domain.a)[0])
            kind = work.SWE[scheme]
            if scheme == "antidiffusion":
                options["gamma"] = 0.1 * bench.speed * bench.domain.length / options["mesh_size"]
        else:
            inflow = lambda t: state["h"] if t < state["t"] else np.inf
            bench, options = work.scalar_setup(rng, "advection", steps=12, kind="smooth", courant=0.1, conditions=("inflow", "outflow"), inflow=(inflow, None), start=start)
            state["h"] = float(bench.initial_data(bench.domain.a))
            kind = work.SCALAR_FV[scheme]
        state["t"] = start + (bench.end_time - start) * float(rng.uniform(0.05, 0.9))
        options["ode_solver_type"] = core.ForwardEuler
        if scheme == "lw":
            del options["ode_solver_type"]
        solver = kind(bench, save_history=True, **options)
        try:
            work.solve(solver)
            stopped = False
        except ValueError:
            stopped = True
        m.input("inflow", name, state["t"], sample={"solver": name, "breaks at": state["t"]})
        m.observe("faults")
        m.check(stopped, f"{name}: broken inflow stops the run")
        s = solver.solution
        steps = options["cfl_number"] * bench.domain.length / options["mesh_size"]
        # forward Euler uses the data of the beginning of each step
        m.check(s.time >= state["t"] - 1e-9 and s.time <= state["t"] + steps * (1 + 1e-9) + 1e-9, f"{name}: the run stops at the first broken step", stopped=s.time, breaks=state["t"], step=steps)
        m.check(np.isfinite(s.value_history).all(), f"{name}: the record is finite")


def blow_up(m, rng):
    """Unstable runs end with an error before any broken value is recorded."""
    bench, options = work.scalar_setup(rng, "burgers", n=int(rng.integers(8, 30)), kind="noise", low=-2.0, high=2.0)
    options["cfl_number"] = float(rng.uniform(5, 50))
    bench.end_time = bench.start_time + 10**3 * options["cfl_number"] * bench.domain.length / options["mesh_size"]
    solver = work.SCALAR_FV["central"](bench, save_history=True, **options)
    m.input("blow up", options["cfl_number"], bench.end_time)
    m.observe("faults")
    m.raises(lambda: work.solve(solver), ValueError, "unstable runs stop")
    m.check(np.isfinite(solver.solution.value_history).all() and len(solver.solution.value_history) > 1, "the record is finite")


def silent(m, rng, name):
    """Nothing is reported for healthy runs."""
    kind, bench, options = any_solver(rng, name)
    solver = kind(bench, **options)
    m.input("silent", name, bench.end_time)
    with printed() as out:
        work.solve(solver)
    m.observe("silent runs")
    m.check("WARNING" not in out.getvalue(), f"{name}: healthy runs are silent", output=out.getvalue()[:500])
    m.check(abs(solver.solution.time - bench.end_time) < 1e-9 * max(1, abs(bench.end_time)), f"{name}: healthy runs end")


def bounds_in_time(m, rng):
    """The condition is judged for each stage, at its own time."""
    for _ in range(30):
        stages = int(rng.integers(1, 6))
        values = [rng.normal(size=3) for _ in range(stages)]
        begin, dt = float(rng.uniform(-2, 2)), float(10 ** rng.uniform(-3, 1))
        nodes = [begin + float(c) * dt for c in np.concatenate(([0.0], rng.uniform(0, 1, stages - 1)))]
        jump = float(rng.uniform(begin - 0.2 * dt, begin + 1.2 * dt))
        narrow, small = float(rng.uniform(-1, 1)), float(rng.uniform(0.3, 2.5))
        bound = lambda t, u: dt * (small if (t >= jump) == (u[0] > narrow) else 2.0)
        violated = any(dt > bound(t, u) for t, u in zip(nodes, values))
        try:
            core.CFLChecker(bound)(dt, nodes, *values)
            reported = False
        except core.CFLConditionViolatedError:
            reported = True
        m.input(begin, dt, nodes, jump, narrow, small, nontrivial=stages > 1)
        m.observe("stages at their times")
        m.check(reported == violated, "bounds which depend on time", reported=reported, violated=violated, nodes=nodes, step=dt, jump=jump)


def build(plan):
    plan.case("bounds in time", bounds_in_time)
    for scheme in ("cg-low", "mcl-fem"):
        for problem in ("advection", "burgers"):
            for k in range(8):
                plan.case(f"cfl {scheme} {problem} #{k}", cfl, scheme, problem)
    names = [f"swe/{s}" for s in work.SWE] + [f"fv/{s}" for s in work.SCALAR_FV] + [f"fe/{s}" for s in work.FE]
    for name in names:
        for k in range(2):
            plan.case(f"fault {name} #{k}", fault, name)
            plan.case(f"silent {name} #{k}", silent, name)
    for name in ("swe/llf", "swe/low-order", "swe/mcl", "swe/central", "swe/es", "swe/lw", "fv/llf", "fv/central", "fv/mcl-fv"):
        plan.case(f"inflow {name}", broken_inflow, name)
    for k in range(3):
        plan.case(f"blow up #{k}", blow_up)
