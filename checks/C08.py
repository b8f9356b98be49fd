"""C08: numerical fluxes and semi-discretisations equal their definitions."""
import core
import defaults
import finite_volume
import finite_volume.scalar as scalar
import finite_volume.shallow_water as swe
import finite_volume.shallow_water.solver as sw
import numpy as np

import ref
import work

RULE = (
    "random states (smooth, noisy, step-like, single-cell spikes, resting and "
    "supercritical, wet with h from 1e-2 to 10, dry cells) are pushed through the real fluxes and the "
    "real semi-discretisations obtained from the solvers; a reference written "
    "as loops over nodes from the literature is the oracle. Non-trivial: states "
    "with at least two different cell values."
)
QUICK_ROUNDS = 8
REQUIRE = {"rhs compared": 150, "consistency": 50, "riemann compared": 50, "node fluxes": 30, "kinematics": 60}


def _states(problem, rng, n):
    if problem == "shallow_water":
        return work.random_swe_state(rng, n)
    return work.random_scalar_state(rng, n)


def riemann(m, rng, problem):
    """Raw Riemann solver: flux, intermediate state, wave speeds."""
    for _ in range(15):
        n = work.cells(rng, 1, 40)
        u = _states(problem, rng, n + 1)
        l, r = u[:-1], u[1:]
        g = float(rng.choice([1.0, 9.812, 10 ** rng.uniform(-1, 2)]))
        solver = (
            swe.RiemannSolver(g) if problem == "shallow_water" else scalar.get_riemann_solver(problem)
        )
        flux, bar = solver.solve(l.copy(), r.copy())
        expected = [ref.llf(problem, a, b, g) for a, b in zip(l, r)]
        m.input(problem, u, g, nontrivial=n > 1, sample={"problem": problem, "u": u[:6], "g": g})
        m.observe("riemann compared")
        m.close(flux, [e[0] for e in expected], f"{problem}: Riemann flux", 1e-11)
        m.close(bar, [e[1] for e in expected], f"{problem}: intermediate state", 1e-11, 1e-13 * np.abs(u).max())
        m.close(solver.wave_speed_right, [e[2] for e in expected], f"{problem}: wave speed right", 1e-11)
        m.close(solver.wave_speed_left, [-e[2] for e in expected], f"{problem}: wave speed left", 1e-11)


def hll(m, rng):
    """Riemann solver with one-sided wave speeds (HLL) equals the HLL formula."""
    for _ in range(15):
        n = work.cells(rng, 1, 30)
        u = work.random_swe_state(rng, n + 1)
        l, r = u[:-1], u[1:]
        g = float(rng.choice([1.0, 9.812, 10 ** rng.uniform(-1, 2)]))
        solver = swe.RiemannSolver(g, wave_speed=swe.WaveSpeed(g))
        flux, bar = solver.solve(l.copy(), r.copy())
        fs, bars = [], []
        for a, b in zip(l, r):
            ua, ub = a[1] / a[0], b[1] / b[0]
            ca, cb = np.sqrt(g * a[0]), np.sqrt(g * b[0])
            sl, sr = min(ua - ca, ub - cb, 0.0), max(ua + ca, ub + cb, 0.0)
            fa, fb = ref.swe_flux(a, g), ref.swe_flux(b, g)
            bars.append((sr * b - sl * a - (fb - fa)) / (sr - sl))
            fs.append((sr * fa - sl * fb + sl * sr * (b - a)) / (sr - sl))
        m.input("hll", u, g)
        m.observe("riemann compared")
        m.close(flux, fs, "HLL flux", 1e-10)
        m.close(bar, bars, "HLL state", 1e-10)


def _getter(problem, name):
    if problem != "shallow_water":
        return {"llf": lambda b, s: finite_volume.LaxFriedrichsFlux(scalar.get_riemann_solver(b.problem)),
                "central": lambda b, s: finite_volume.CentralFlux(scalar.get_flux(b.problem))}[name]
    return sw.SHALLOW_WATER_FLUX_GETTER[name]


def consistency(m, rng, problem, name):
    """F(u, u) = f(u) and F_left = -F_right (flat bottom), any state."""
    for _ in range(6):
        n = work.cells(rng, 2, 20)
        u = _states(problem, rng, n)
        g = float(rng.choice([1.0, 9.812, 4.0]))
        if problem == "shallow_water":
            bench = work.SWEBenchmark(lambda x: np.array([1.0, 0.0]), g=g)
            exact = [ref.swe_flux(w, g) for w in u]
        else:
            bench = work.ScalarBenchmark(problem, lambda x: 0.0)
            exact = [ref.scalar_flux(problem, w) for w in u]
        space = finite_volume.FiniteVolumeSpace(core.UniformMesh(bench.domain, n - 1))
        flux = _getter(problem, name)(bench, space)
        k = int(rng.integers(n))
        same = np.array([u[k]] * n)
        left, right = flux(same.copy(), same.copy())
        m.input(problem, name, u, g)
        m.observe("consistency")
        m.close(right, [exact[k]] * n, f"{problem}/{name}: consistency", 1e-10)
        m.close(left, -np.array([exact[k]] * n), f"{problem}/{name}: consistency (left)", 1e-10)
        if name != "es1":  # its diffusion needs neighbouring nodes to share cells
            left, right = flux(u.copy(), u.copy())
            m.close(right, exact, f"{problem}/{name}: consistency", 1e-10)
            m.close(left, -np.array(exact), f"{problem}/{name}: consistency (left)", 1e-10)
        v = _states(problem, rng, n + 1)
        left, right = flux(v[:-1].copy(), v[1:].copy())
        scale = np.abs(right).max()
        m.close(left, -right, f"{problem}/{name}: flux into left cell is minus flux into right cell", 1e-11, 1e-12 * scale)


def semidiscrete(m, rng, problem, scheme, conditions, **kw):
    for _ in range(kw.pop("repeat", 4)):
        n = work.cells(rng, 4, 24, 0.05, 40 if scheme == "antidiffusion" else 300)
        a, b = work.random_domain(rng)
        inflow = (None, None)
        bathymetry = None
        if problem == "shallow_water":
            g = float(rng.choice([1.0, 9.812, 3.0]))
            if "inflow" in conditions:
                w0, w1 = work.random_swe_state(rng, 2)
                inflow = (lambda t: w0 * (1 + 0.1 * np.sin(t)), lambda t: w1 * (1 + 0.1 * np.cos(t)))
            if kw.get("bathymetry"):
                bathymetry = work.random_bathymetry(rng, a, b, 0.3)
            bench = work.SWEBenchmark(lambda x: np.array([1.0, 0.0]), (a, b), 1.0, 0.0, conditions, inflow, g, bathymetry)
        else:
            if "inflow" in conditions:
                w0, w1 = rng.normal(size=2)
                inflow = (lambda t: w0 * np.sin(1 + t), lambda t: w1 * np.cos(t))
            bench = work.ScalarBenchmark(problem, lambda x: 0.0, (a, b), 1.0, 0.0, conditions, inflow)
        classes = work.SWE if problem == "shallow_water" else work.SCALAR_FV
        options, extra = {}, {}
        if scheme == "antidiffusion":
            options["gamma"] = extra["gamma"] = float(rng.choice([0.0, 0.1, rng.uniform(-0.2, 0.5), rng.uniform(0.5, 3)]))
            extra["base"] = kw.get("base", "llf")
            options["flux_getter"] = sw.SHALLOW_WATER_FLUX_GETTER[extra["base"]]
        if scheme == "mcl" and kw.get("high"):
            extra["high"] = kw["high"]
            options["flux_getter"] = sw.SHALLOW_WATER_FLUX_GETTER[kw["high"]]
        solver = classes[scheme](bench, mesh_size=n, **options)
        rhs = work.rhs_of(solver)
        s = work.setting(bench, n, inflow)
        reference = {"mcl-fv": "mcl"}.get(scheme, scheme)
        for _ in range(3):
            u = _states(problem, rng, n)
            t = float(rng.uniform(0, 5))
            if scheme == "lw":
                dt = float(rng.uniform(0, 0.1)) * s.dx
                rhs.set_time_step(dt)
                extra["dt"] = dt
            before = u.copy()
            actual = rhs(t, u)
            expected = ref.rhs(reference, s, before, t, **extra)
            m.input(problem, scheme, conditions, u, t, sample={"problem": problem, "scheme": scheme, "conditions": conditions, "n": n, "u": u[:5]})
            m.observe("rhs compared")
            nodes = np.abs(np.asarray(ref.node_fluxes(reference, s, before, t, **extra))).max()
            if problem != "shallow_water":  # waves meeting at an end may cancel
                size = max([np.abs(u).max(), *(abs(f(t)) for f in inflow if f)])
                nodes = max(nodes, size * (size if problem == "burgers" else 1))
            if scheme == "mcl" and s.b.any():
                atol = 1e-9
            else:
                atol = 1e-11
            m.close(actual, expected, f"{problem}/{scheme}: semi-discretisation", 1e-9, atol * nodes / s.dx, conditions=conditions, n=n, u=before)


def flux_classes(m, rng):
    """Wrapper fluxes: history, arbitrary input, correction, antidiffusion."""
    for _ in range(10):
        n = work.cells(rng, 2, 12)
        g = 9.812
        u = work.random_swe_state(rng, n + 3)
        values = u[:-3], u[1:-2], u[2:-1], u[3:]
        llf = finite_volume.LaxFriedrichsFlux(swe.RiemannSolver(g))
        inner = np.array([ref.llf("shallow_water", a, b, g)[0] for a, b in zip(values[1], values[2])])
        left, right = finite_volume.NumericalFluxWithArbitraryInput(llf)(*values)
        m.input("wrappers", u)
        m.observe("node fluxes")
        m.close(right, inner, "arbitrary input flux", 1e-11)
        m.close(left, -inner, "arbitrary input flux", 1e-11)
        gamma, dx = rng.uniform(0, 1), rng.uniform(0.01, 2)
        anti = finite_volume.LinearAntidiffusiveFlux(gamma, dx)
        corrected = finite_volume.CorrectedNumericalFlux(llf, anti)
        left, right = corrected(*values)
        expected = inner + gamma * (values[2] - values[1]) / dx
        m.close(right, expected, "corrected flux", 1e-11)
        m.close(left, -expected, "corrected flux", 1e-11)
        m.check(corrected.input_dimension == 2, "corrected flux: input dimension")
        b = rng.uniform(0, 0.5, n - 1) if n > 2 else None
        bottom = swe.NumericalFlux(finite_volume.NumericalFluxWithArbitraryInput(llf), g, b)
        steps = np.diff(ref.bathymetry_nodes(b)) if b is not None else np.zeros(n)
        left, right = bottom(*values)
        source = np.zeros((n, 2))
        source[:, 1] = g / 2 * (values[1][:, 0] + values[2][:, 0]) / 2 * steps
        m.close(right, inner - source, "bathymetry source", 1e-10)
        m.close(left, -inner - source, "bathymetry source", 1e-10)
        recorder = finite_volume.NumericalFluxWithHistory(llf)
        record = []
        for k in range(int(rng.integers(1, 5))):
            w = work.random_swe_state(rng, n + 1)
            left, right = recorder(w[:-1], w[1:])
            record.append([ref.llf("shallow_water", a, c, g)[0] for a, c in zip(w[:-1], w[1:])])
            left *= np.nan
            right *= np.nan
        m.close(recorder.flux_right_history, record, "flux history", 1e-10)
        m.close(recorder.flux_left_history, -np.array(record), "flux history", 1e-10)
        m.check(len(recorder.flux_left_history) == len(record), "flux history length")


def physical_flux(m, rng):
    for _ in range(20):
        n = work.cells(rng, 1, 30)
        g = float(10 ** rng.uniform(-1, 2))
        u = work.random_swe_state(rng, n)
        dry = rng.random(n) < 0.2
        u[dry] = 0.0
        m.input("physical flux", u, g)
        m.observe("node fluxes")
        m.close(swe.Flux(g)(u), [ref.swe_flux(w, g) for w in u], "shallow water flux", 1e-12)
        k = int(rng.integers(n))
        m.close(swe.Flux(g)(u[k]), ref.swe_flux(u[k], g), "shallow water flux of a single state", 1e-12)
        bad = u.copy()
        bad[k, 0] = -rng.uniform(0.01, 1)
        m.raises(lambda: swe.Flux(g)(bad), ValueError, "negative height must be rejected")
        for problem in ("advection", "burgers"):
            x = work.random_scalar_state(rng, n)
            m.close(scalar.get_flux(problem)(x), [ref.scalar_flux(problem, y) for y in x], f"{problem} flux", 1e-12)


def kinematics(m, rng):
    """Velocities, wave speeds, entropy variables and fluxes of deep and very thin water on both sides."""
    for _ in range(15):
        n = work.cells(rng, 1, 20)
        g = float(10 ** rng.uniform(-1, 2))
        h = 10 ** rng.uniform(-11, 3, (2, n))
        h[rng.random((2, n)) < 0.2] = 1.0
        u = rng.normal(size=(2, n)) * 10 ** rng.uniform(-2, 1, (2, n))
        u[rng.random((2, n)) < 0.2] = 0.0
        l, r = np.array([h[0], h[0] * u[0]]).T, np.array([h[1], h[1] * u[1]]).T
        m.input("kinematics", l, r, g, sample={"l": l[:3], "r": r[:3], "g": g})
        m.observe("kinematics")
        m.close_each(swe.get_velocity(l), u[0], "velocity", 1e-12)
        m.close_each(swe.get_velocities(l, r)[1], u[1], "velocities", 1e-12)
        m.close_each(swe.get_velocity(l[0]), u[0][0], "velocity of a single state", 1e-12)
        c = np.sqrt(g * h)
        m.close_each(swe.MaximumWaveSpeed(g)(l, r)[1], np.maximum(abs(u[0]) + c[0], abs(u[1]) + c[1]), "maximal wave speed", 1e-12)
        m.close_each(swe.MaximumWaveSpeed(g)(l, r)[0], -np.maximum(abs(u[0]) + c[0], abs(u[1]) + c[1]), "minimal wave speed", 1e-12)
        left, right = swe.WaveSpeed(g)(l, r)
        m.close_each(left, np.minimum(np.minimum(u[0] - c[0], u[1] - c[1]), 0), "HLL wave speed left", 1e-12, 1e-14 * (abs(u) + c).max(axis=0))
        m.close_each(right, np.maximum(np.maximum(u[0] + c[0], u[1] + c[1]), 0), "HLL wave speed right", 1e-12, 1e-14 * (abs(u) + c).max(axis=0))
        m.close_each(swe.Flux(g)(l)[:, 0], h[0] * u[0], "mass flux", 1e-12)
        m.close_each(swe.Flux(g)(l)[:, 1], h[0] * u[0] ** 2 + g / 2 * h[0] ** 2, "momentum flux", 1e-12)
        b = rng.normal(size=n)
        for bottom, given in ((0.0, ()), (b, (b,))):
            potential = g * (h[0] + bottom)
            m.close_each(swe.Entropy(g)(l, *given)[:, 0], potential - u[0] ** 2 / 2, "entropy variable of the height", 0, 1e-12 * (abs(potential) + u[0] ** 2))
            m.close_each(swe.Entropy(g)(l, *given)[:, 1], u[0], "entropy variable of the discharge", 1e-12)
        m.close_each(swe.Potential(g)(l), g / 2 * h[0] ** 2 * u[0], "entropy potential", 1e-12)
        m.close(swe.get_average(l, r), (l + r) / 2, "average", 0, 1e-15 * np.abs((l, r)).max())
        flux, bar = swe.RiemannSolver(g).solve(l.copy(), r.copy())
        for k in range(n):  # states of unrelated nodes: each row has its own scale
            e = ref.llf("shallow_water", l[k], r[k], g)
            speed = e[2]
            scale = np.array([speed * h[:, k].max(), speed**2 * h[:, k].max()])
            m.close_each(flux[k], e[0], "Riemann flux between thin and deep water", 0, 1e-12 * scale)
            m.close_each(bar[k], e[1], "intermediate state between thin and deep water", 0, 1e-12 * scale / speed)
            m.check(bar[k][0] >= 0, "intermediate heights are not negative", state=bar[k])


def default_gravity(m, rng):
    """What is built without gravity or bottom uses the standard gravity and a level bottom."""
    g = defaults.GRAVITATIONAL_ACCELERATION
    for _ in range(3):
        n = work.cells(rng, 2, 20)
        u = work.random_swe_state(rng, n + 1)
        l, r = u[:-1], u[1:]
        dx, dt = rng.uniform(0.01, 1, 2)
        central = finite_volume.CentralFlux(swe.Flux(g))
        lax_wendroff = sw.LaxWendroffFlux
        flux, one = sw.EnergyStableFlux, sw.FirstOrderDiffusiveEnergyStableFlux
        low, mcl = sw.LowOrderFlux, sw.MCLFlux
        for name, short, full in (
            ("lw", lambda: lax_wendroff(dx), lambda: lax_wendroff(dx, g)),
            ("es", flux, lambda: flux(g)),
            ("es1", one, lambda: one(g, np.zeros(n - 1))),
            ("low order", low, lambda: low(g, np.zeros(n - 1))),
            ("mcl", lambda: mcl(central), lambda: mcl(central, g, swe.get_boundary_conditions("outflow", "outflow"), np.zeros(n - 1))),
            ("bottom", lambda: swe.NumericalFlux(central), lambda: swe.NumericalFlux(central, g, np.zeros(n - 1))),
            ("HLL speeds", swe.WaveSpeed, lambda: swe.WaveSpeed(g)),
            ("Riemann solver", lambda: swe.RiemannSolver().solve, lambda: swe.RiemannSolver(g).solve),
            ("flux", lambda: lambda l, r: (swe.Flux()(l), swe.Flux()(r)), lambda: lambda l, r: (swe.Flux(g)(l), swe.Flux(g)(r))),
            ("entropy", lambda: lambda l, r: (swe.Entropy()(l), swe.Potential()(r)), lambda: lambda l, r: (swe.Entropy(g)(l, np.zeros(n)), swe.Potential(g)(r))),
        ):
            results = []
            for make in (short, full):
                made = make()
                if name == "lw":
                    made.set_time_step(dt)
                results.append(made(l.copy(), r.copy()))
            m.input("default gravity", name, u, dx, dt)
            m.observe("node fluxes")
            for a, b in zip(*results):
                m.close(a, b, f"{name} without gravity", 1e-12)


def build(plan):
    plan.case("default gravity", default_gravity)
    plan.case("kinematics", kinematics)
    plan.case("kinematics2", kinematics)
    for problem in ("advection", "burgers", "shallow_water"):
        for k in range(3):
            plan.case(f"riemann/{problem}/{k}", riemann, problem)
    plan.case("riemann/hll", hll)
    plan.case("classes", flux_classes)
    plan.case("physical", physical_flux)
    for problem in ("advection", "burgers"):
        for name in ("llf", "central"):
            plan.case(f"consistency/{problem}/{name}", consistency, problem, name)
        for scheme in work.SCALAR_FV:
            for conditions in (("periodic",), ("outflow", "outflow"), ("inflow", "outflow"), ("inflow", "inflow")):
                plan.case(f"rhs/{problem}/{scheme}/{'-'.join(conditions)}", semidiscrete, problem, scheme, conditions)
    for name in ("llf", "central", "es", "es1", "low-order"):
        plan.case(f"consistency/swe/{name}", consistency, "shallow_water", name)
    bcs = (("periodic",), ("outflow", "outflow"), ("wall", "wall"), ("inflow", "wall"), ("outflow", "inflow"))
    for scheme in ("llf", "lw", "low-order", "central", "es", "es1", "mcl", "antidiffusion"):
        for conditions in bcs:
            for bathymetry in (False, True):
                plan.case(
                    f"rhs/swe/{scheme}/{'-'.join(conditions)}/{bathymetry}",
                    semidiscrete, "shallow_water", scheme, conditions, bathymetry=bathymetry, repeat=2,
                )
    for high in ("es", "es1", "low-order", "llf"):
        plan.case(f"rhs/swe/mcl+{high}", semidiscrete, "shallow_water", "mcl", ("periodic",), high=high)
        plan.case(f"rhs/swe/antidiffusion+{high}", semidiscrete, "shallow_water", "antidiffusion", ("outflow", "outflow"), base=high, bathymetry=True)
