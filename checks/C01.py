"""C01: mass and momentum are conserved."""
import core
import finite_volume.shallow_water.solver as sw
import numpy as np

import ref
import work

RULE = (
    "complete solver runs (about 10 steps, random mesh, domain, CFL number, ODE solver, start time, initial "
    "data: smooth, step, noise, spike, plateau) with recorded history; the integral of every recorded state is "
    "compared with the initial one; single right-hand sides for wild states, corrections and networks sum up to zero. Non-trivial: the state changed during the run."
)
QUICK_ROUNDS = 6
REQUIRE = {"balance": 200, "dry fronts": 20, "run": 150, "stored states": 1000}


def _drift(m, integrals, scale, name, what, steps):
    integrals = np.array(integrals)
    m.close(
        integrals, np.broadcast_to(integrals[0], integrals.shape), f"{name}: {what}",
        0.0, 1e-12 * (steps + 5) * scale,
    )


def _observe(m, name, values, **sample):
    m.observe("run")
    m.observe("stored states", len(values))
    m.input(name, values[0], values[-1], nontrivial=np.abs(values[-1] - values[0]).max() > 0, sample=dict(sample, solver=name, u0=values[0][:5]))


def scalar_fv(m, rng, problem, scheme, ode):
    for _ in range(3):
        kind = rng.choice(["smooth", "plateau"]) if scheme == "central" else None
        steps = work.cells(rng, 8, 12, 0.08 * (scheme != "central"), 1500)
        n = int(rng.integers(5, 30)) if steps > 12 else None
        bench, options = work.scalar_setup(rng, problem, n=n, kind=kind, steps=steps)
        m.observe("long runs", int(steps > 100))
        solver = work.SCALAR_FV[scheme](bench, ode_solver_type=work.ODE[ode], save_history=True, **options)
        work.solve(solver)
        values = solver.solution.value_history
        _observe(m, f"{problem}/{scheme}", values, options=options)
        scale = np.abs(values).max() * bench.domain.length
        _drift(m, values.sum(axis=1) * bench.domain.length / values.shape[1], scale, f"{problem}/{scheme}", "mass on periodic domain", len(values))


def fe(m, rng, problem, scheme, p):
    for _ in range(2):
        n = work.cells(rng, 3, 12, 0.05, 80)
        kind = rng.choice(["smooth", "plateau"]) if scheme == "cg" else None
        bench, options = work.scalar_setup(rng, problem, n=n, kind=kind, steps=6, courant=0.2 / p**2)
        if scheme != "cg":
            options["cfl_number"] = rng.uniform(0.3, 1.0)
            options["adaptive"] = bool(rng.random() < 0.5)
            options["ode_solver_type"] = list(work.ODE.values())[rng.integers(3)]
        solver = work.FE[scheme](bench, polynomial_degree=p, save_history=True, **options)
        work.solve(solver)
        values = solver.solution.value_history
        _observe(m, f"{problem}/{scheme}", values, degree=p)
        scale = np.abs(values).max() * bench.domain.length * 10
        _drift(m, [work.fe_integral(u, bench.domain.length, p) for u in values], scale, f"{problem}/{scheme}", "mass on periodic domain", len(values))


def _swe_options(rng, scheme, bench):
    options = {}
    if scheme == "coarse":
        options["coarsening_degree"] = 2
    if scheme == "antidiffusion":
        options["gamma"] = float(rng.uniform(0, 0.1)) * bench.speed * bench.domain.length / bench.n
    return options


def _mild(scheme):
    return scheme in ("central", "lw", "es", "antidiffusion", "coarse", "reduced-llf", "reduced-llf-2")


def _swe_solver(scheme):
    return {
        **work.SWE,
        "reduced-llf": sw.ReducedLaxFriedrichsSolver,
        "reduced-llf-2": sw.ReducedLaxFriedrichs2Solver,
    }[scheme]


def shallow_water(m, rng, scheme, conditions, bottom):
    for _ in range(2):
        if scheme.startswith("reduced"):
            work.Network(rng, scheme.endswith("2"), 0.02)
        n = 2 * work.cells(rng, 4, 18)
        kwargs = dict(h=(1.0, 1.3), froude=0.3, kind="smooth", steps=6, courant=0.15) if _mild(scheme) else {}
        bench, more = work.swe_setup(rng, n=n, conditions=conditions, bottom=bottom, **kwargs)
        options = _swe_options(rng, scheme, bench)
        if scheme != "lw":  # forward Euler only
            options["ode_solver_type"] = list(work.ODE.values())[rng.integers(3)]
        solver = _swe_solver(scheme)(bench, save_history=True, **options, **more)
        work.solve(solver)
        values = solver.solution.value_history
        label = f"swe/{scheme}"
        _observe(m, label, values, conditions=conditions, bottom=bottom)
        dx = bench.domain.length / values.shape[1]
        integrals = values.sum(axis=1) * dx
        scale = (np.abs(values[..., 0]).max() + np.abs(values[..., 1]).max()) * bench.domain.length * 10
        if scheme.startswith("reduced"):  # networks answer equal inputs up to single precision
            scale += 1e4 * 0.2 * (bench.end_time - bench.start_time)
        _drift(m, integrals[:, 0], scale, label, f"volume with {conditions[0]} boundary", len(values))
        if conditions == ("periodic",) and not bottom:
            _drift(m, integrals[:, 1], scale * bench.speed, label, "momentum on periodic domain", len(values))


def dry_fronts(m, rng, scheme, conditions):
    """Water which spreads over dry ground."""
    for _ in range(2):
        n = work.cells(rng, 8, 36)
        bench, options = work.swe_setup(rng, n=n, conditions=conditions, froude=0.5, steps=10, courant=0.05)
        a, length, data = bench.domain.a, bench.domain.length, bench._data
        left, right = np.sort(rng.uniform(0, 1, 2))
        inside = bool(rng.integers(2))
        bench._data = lambda x: data(x) if (left < (x - a) / length < right) == inside else np.zeros(2)
        options["ode_solver_type"] = list(work.ODE.values())[rng.integers(3)]
        solver = work.SWE[scheme](bench, save_history=True, **options)
        values = solver.solution.value
        if not (values[:, 0] > 0).any() or (values[:, 0] > 0).all():
            continue
        work.solve(solver)
        values = solver.solution.value_history
        _observe(m, f"swe/{scheme}", values, conditions=conditions)
        m.observe("dry fronts")
        integrals = values.sum(axis=1) * length / n
        scale = (np.abs(values[..., 0]).max() + np.abs(values[..., 1]).max()) * length * 10
        _drift(m, integrals[:, 0], scale, f"swe/{scheme}", f"volume with {conditions[0]} boundary and dry ground", len(values))
        if conditions == ("periodic",):
            _drift(m, integrals[:, 1], scale * bench.speed, f"swe/{scheme}", "momentum with dry ground", len(values))


def balance(m, rng, family, problem, scheme):
    """Single evaluations for wild states and wild parameters: what leaves a cell enters its neighbour."""
    for _ in range(4):
        n = 2 * work.cells(rng, 3, 20, 0.08, 100 if family == "fe" else 1000)
        p = 1
        if problem == "shallow_water":
            if scheme.startswith("reduced"):
                network = work.Network(rng, scheme.endswith("2"), float(10 ** rng.uniform(-2, 4)))
            bottom = bool(rng.integers(2)) and scheme not in ("llf", "lw", "reduced-llf", "reduced-llf-2")
            bench, options = work.swe_setup(rng, n=n, bottom=bottom)
            if scheme == "antidiffusion":
                options["gamma"] = float(10 ** rng.uniform(-4, 4) * rng.choice([-1, 1]))
            solver = _swe_solver(scheme)(bench, **options)
            u = work.random_swe_state(rng, n)
            if rng.random() < 0.3:
                u[:, 1] *= 10 ** rng.uniform(-6, 1)
            if not bottom and rng.random() < 0.3:
                u[rng.random(n) < rng.uniform(0.05, 0.6)] = 0.0
                u[int(rng.integers(n))] = [1.0, 0.5]
                m.observe("balances with dry cells")
        else:
            bench, options = work.scalar_setup(rng, problem, n=n)
            if family == "fe":
                p = options["polynomial_degree"] = int(rng.integers(1, 4))
            solver = {"fv": work.SCALAR_FV, "fe": work.FE}[family][scheme](bench, **options)
            u = work.random_scalar_state(rng, n * p)
            bottom = False
        rate = work.rhs_of(solver)(bench.start_time, u.copy())
        m.observe("balance")
        m.input(scheme, problem, u, nontrivial=np.abs(rate).max() > 0, sample={"scheme": scheme, "u": u[:4]})
        dx = bench.domain.length / n
        if problem == "shallow_water":
            wet = u[u[:, 0] > 0]
            flux = np.abs([ref.swe_flux(w, bench.gravitational_acceleration) for w in wet]).max(axis=0)
            speed = (np.abs(wet[:, 1] / wet[:, 0]) + np.sqrt(bench.gravitational_acceleration * wet[:, 0])).max()
            scale = flux + speed * np.abs(u).max(axis=0)
            for k, name in ((0, "volume"), (1, "momentum")):
                if k == 0 or not bottom:
                    eps = 1e-12 * n * (scale[k] / dx + np.abs(rate[:, k]).max())
                    if scheme.startswith("reduced"):  # networks answer equal inputs up to single precision
                        eps += 1e-5 * (np.abs(rate[:, k]).max() + np.abs(network.y_mean[k]) / dx)
                    m.close(rate[:, k].sum(), 0.0, f"swe/{scheme}: no {name} appears or vanishes", 0.0, eps, options=str(options), u=u)
        else:
            scale = np.abs(u).max() * (np.abs(u).max() if problem == "burgers" else 1.0)
            total = work.fe_integral(rate, bench.domain.length, p) if family == "fe" else rate.sum() * dx
            eps = 1e-11 * n * p * (scale + np.abs(rate).max() * dx)
            m.close(total, 0.0, f"{problem}/{scheme}: nothing appears or vanishes", 0.0, eps, options=str(options), u=u)


def through_flow(m, rng, problem, scheme, conditions):
    """Constant states near both ends: integral changes by f(left) - f(right)."""
    for _ in range(2):
        n = 64
        a, b = work.random_domain(rng)
        length = b - a
        left, right = a + 0.4 * length, a + 0.6 * length
        steps = int(rng.integers(1, 5))
        if problem == "shallow_water":
            g = float(rng.choice([1.0, 9.812]))
            inner = work.profile(rng, "smooth", a, b, n, 1.0, 1.4)
            ends = np.array([[rng.uniform(1, 1.4), rng.uniform(-1, 1)] for _ in range(2)])

            def data(x):
                return ends[0] if x < left else ends[1] if x > right else np.array([inner(x), 0.2 * inner(x)])

            inflow = (lambda t: ends[0], lambda t: ends[1])
            speed = 1.2 + np.sqrt(g * 2.5)
            cfl = 0.2 / speed
            bench = work.SWEBenchmark(data, (a, b), steps * cfl * length / n, 0.0, conditions, inflow, g)
            bench.speed, bench.n = speed, n
            solver = work.SWE[scheme](bench, mesh_size=n, cfl_number=cfl, save_history=True, **_swe_options(rng, scheme, bench))
            rate = ref.swe_flux(ends[0], g) - ref.swe_flux(ends[1], g)
        else:
            inner = work.profile(rng, "smooth", a, b, n, -1, 1)
            ends = rng.uniform(-1, 1, 2)
            inflow = (lambda t: ends[0], lambda t: ends[1])
            cfl = 0.3
            bench = work.ScalarBenchmark(
                problem, lambda x: ends[0] if x < left else ends[1] if x > right else inner(x),
                (a, b), steps * cfl * length / n, 0.0, conditions, inflow)
            solver = work.SCALAR_FV[scheme](bench, mesh_size=n, cfl_number=cfl, save_history=True)
            rate = ref.scalar_flux(problem, ends[0]) - ref.scalar_flux(problem, ends[1])
        work.solve(solver)
        values, times = solver.solution.value_history, solver.solution.time_history
        _observe(m, f"{problem}/{scheme}", values, conditions=conditions)
        integrals = values.sum(axis=1) * length / n
        expected = np.array([integrals[0] + rate * (t - times[0]) for t in times])
        m.close(integrals, expected, f"{problem}/{scheme}: integral follows the fluxes at the ends ({'-'.join(conditions)})", 0.0, 1e-11 * length * (1 + np.abs(values).max()))


def build(plan):
    for problem in ("advection", "burgers"):
        for family, table in (("fv", work.SCALAR_FV), ("fe", work.FE)):
            for scheme in table:
                plan.case(f"balance/{problem}/{scheme}", balance, family, problem, scheme)
    for scheme in (*work.SWE, "reduced-llf", "reduced-llf-2"):
        if scheme != "coarse":
            plan.case(f"balance/swe/{scheme}", balance, "fv", "shallow_water", scheme)
    for problem in ("advection", "burgers"):
        for scheme in work.SCALAR_FV:
            for ode in work.ODE:
                plan.case(f"fv/{problem}/{scheme}/{ode}", scalar_fv, problem, scheme, ode)
        for scheme in work.FE:
            for p in (1, 2, 3, 4) if scheme == "cg" else (1, 2):
                plan.case(f"fe/{problem}/{scheme}/{p}", fe, problem, scheme, p)
    for scheme in (*work.SWE, "reduced-llf", "reduced-llf-2"):
        for conditions in (("periodic",), ("wall", "wall")):
            if conditions[0] == "wall" and scheme.startswith("reduced"):
                continue  # the network needs not be antisymmetric
            for bottom in (False, True):
                plan.case(f"swe/{scheme}/{conditions[0]}/{bottom}", shallow_water, scheme, conditions, bottom)
    for scheme in ("llf", "low-order", "mcl"):
        for conditions in (("periodic",), ("wall", "wall")):
            plan.case(f"dry/{scheme}/{conditions[0]}", dry_fronts, scheme, conditions)
    ends = [("outflow", "outflow"), ("inflow", "outflow"), ("outflow", "inflow"), ("inflow", "inflow")]
    for conditions in ends:
        for problem in ("advection", "burgers"):
            for scheme in work.SCALAR_FV:
                plan.case(f"through/{problem}/{scheme}/{'-'.join(conditions)}", through_flow, problem, scheme, conditions)
        for scheme in work.SWE:
            if scheme != "coarse":
                plan.case(f"through/swe/{scheme}/{'-'.join(conditions)}", through_flow, "shallow_water", scheme, conditions)
