"""C02: constant states and lakes at rest are stationary."""
import numpy as np

import work

RULE = (
    "random constant states for all solvers, random lakes at rest (level surface, smooth / jumping / random wet "
    "bottoms) for the well-balanced solvers; right-hand side at start and every stored state of a run must not "
    "move. Non-trivial: non-zero velocity or non-constant bottom."
)
QUICK_ROUNDS = 8
REQUIRE = {"constant run": 100, "lake run": 60, "bottom jumps": 200, "steep steps": 10}


def _stationary(m, solver, label, scale, speed):
    start = solver.solution.value
    rhs = np.asarray(work.rhs_of(solver)(solver.solution.time, start.copy()))
    dx = solver.solution.space.mesh.step_length
    m.check(rhs.shape == start.shape, f"{label}: shape of the right-hand side", shape=rhs.shape)
    m.check(
        np.isfinite(rhs).all() and np.abs(rhs).max() * dx <= 1e-12 * scale * speed,
        f"{label}: right-hand side vanishes", rhs=rhs, tolerance=1e-12 * scale * speed / dx, value=start,
    )
    work.solve(solver)
    values = solver.solution.value_history
    m.check(len(values) > 1, f"{label}: run made steps")
    m.close(values, np.broadcast_to(start, values.shape), f"{label}: state is stationary", 0.0, 1e-11 * scale * max(1, speed))


def scalar_constant(m, rng, problem, family, scheme):
    for _ in range(6):
        c = float(rng.choice([0.0, 1.0, rng.normal() * 10 ** rng.uniform(-3, 2)]))
        a, b = work.random_domain(rng)
        n = work.cells(rng, 3, 25, 0.08, 80 if family == "fe" else 1000)
        conditions, inflow = ("periodic",), (None, None)
        if family == "fv":
            conditions = [("periodic",), ("outflow", "outflow"), ("inflow", "outflow"), ("inflow", "inflow")][rng.integers(4)]
            inflow = (lambda t: c, lambda t: c)
        cfl = 0.3 / max(1.0, abs(c)) if family == "fv" else 0.05 / max(1.0, abs(c))
        length = 4 * cfl * (b - a) / n
        if scheme in ("cg-low", "mcl-fem"):
            cfl, length = 0.5, 0.2 * (b - a) / n / max(1.0, abs(c))
        bench = work.ScalarBenchmark(problem, lambda x: c, (a, b), 2.0 + length, 2.0, conditions, inflow)
        options = {"mesh_size": n, "cfl_number": cfl, "save_history": True}
        if family == "fe":
            options["polynomial_degree"] = int(rng.integers(1, 5))
        solver = {"fv": work.SCALAR_FV, "fe": work.FE}[family][scheme](bench, **options)
        m.input(problem, scheme, c, n, nontrivial=c != 0, sample={"scheme": scheme, "constant": c, "n": n})
        if c == 0 and problem == "burgers" and scheme in ("cg-low", "mcl-fem"):
            continue  # no waves at all: the admissible time step is unlimited
        m.observe("constant run")
        # Gauss weights leave constants exact up to rounding
        _stationary(m, solver, f"{problem}/{scheme}: constant", max(abs(c), 1e-300), max(1.0, abs(c)) * 30)


def swe_constant(m, rng, scheme):
    for _ in range(6):
        h, g = 10 ** rng.uniform(-2, 1), float(rng.choice([1.0, 9.812, 10 ** rng.uniform(-1, 2)]))
        u = float(rng.choice([0.0, rng.uniform(-2, 2)])) * np.sqrt(g * h)
        w = np.array([h, h * u])
        conditions = [("periodic",), ("outflow", "outflow"), ("inflow", "outflow"), ("inflow", "inflow")][rng.integers(4)]
        if u == 0 and rng.random() < 0.5:
            conditions = ("wall", "wall")
        a, b = work.random_domain(rng)
        n = 2 * work.cells(rng, 2, 12, 0.08, 500)
        level = float(rng.choice([0.0, rng.uniform(-1, 1)]))  # a level bottom is flat
        speed = abs(u) + np.sqrt(g * h)
        cfl = 0.3 / speed
        bench = work.SWEBenchmark(lambda x: w, (a, b), 4 * cfl * (b - a) / n, 0.0, conditions, (lambda t: w, lambda t: w), g, lambda x: level)
        options = {"coarsening_degree": 2} if scheme == "coarse" else {}
        if scheme == "antidiffusion":
            options["gamma"] = float(rng.uniform(0, 0.3)) * speed * (b - a) / n
        solver = work.SWE[scheme](bench, mesh_size=n, cfl_number=cfl, save_history=True, **options)
        m.input(scheme, w, g, conditions, nontrivial=u != 0, sample={"scheme": scheme, "state": w, "g": g})
        m.observe("constant run")
        if scheme == "coarse":
            work.solve(solver)
            values = solver.solution.value_history
            m.close(values, np.broadcast_to(w, values.shape), "swe/coarse: state is stationary", 0.0, 1e-11 * max(h, abs(h * u)))
        else:
            _stationary(m, solver, f"swe/{scheme}: constant", max(h, h * speed), max(1.0, speed))


def lake(m, rng, scheme, conditions):
    for _ in range(5):
        g = float(rng.choice([1.0, 9.812, 10 ** rng.uniform(-1, 2)]))
        a, b = work.random_domain(rng)
        n = work.cells(rng, 4, 30, 0.08, 1000)
        level = float(rng.choice([1.0, 10 ** rng.uniform(-1, 1)]))
        depth = float(rng.uniform(0.1, 0.9)) * level
        chance = rng.random()
        if chance < 0.25:
            depth = level * (1 - 10 ** rng.uniform(-3, -1))  # nearly dry spots beside deep water
        elif chance < 0.55:
            depth *= 10 ** rng.uniform(-9, 0)  # gentle bottoms
            n = int(rng.integers(4, 120))
        bottom = work.random_bathymetry(rng, a, b, depth)
        if conditions == ("periodic",):
            # the bottom must fit together at the ends as well
            margin = max(0.15, 1.01 / n) * (b - a)
            inner, left, right = bottom, a + margin, b - margin
            bottom = lambda x: inner(x) if left < x < right else 0.0
        # the level of reference of the bottom does not matter
        shift = float(rng.choice([0.0, rng.uniform(-3, 3)]))
        bench = work.SWEBenchmark(
            lambda x: np.array([level - bottom(x), 0.0]), (a, b), 1.0, 0.0, conditions, (None, None), g, lambda x: shift + bottom(x))
        cfl = 0.2 / np.sqrt(g * level)
        # rounding errors of thin layers grow: a single step beside deep water
        bench.end_time = (1 if chance < 0.25 else 5) * cfl * (b - a) / n
        solver = work.SWE[scheme](bench, mesh_size=n, cfl_number=cfl, save_history=True)
        heights = solver.solution.value[:, 0]
        m.observe("bottom jumps", (np.abs(np.diff(heights)) > 1e-12).sum())
        m.observe("lake run")
        m.observe("steep steps", (np.maximum(heights[1:], heights[:-1]) > 50 * np.minimum(heights[1:], heights[:-1])).sum())
        m.input(scheme, conditions, heights, g, nontrivial=np.ptp(heights) > 1e-9, sample={"scheme": scheme, "heights": heights[:8], "g": g})
        _stationary(m, solver, f"swe/{scheme}: lake at rest", max(level, abs(shift)) * max(1, np.sqrt(g * level)), max(1, np.sqrt(g * level)) * 10)


def build(plan):
    for problem in ("advection", "burgers"):
        for scheme in work.SCALAR_FV:
            plan.case(f"constant/{problem}/{scheme}", scalar_constant, problem, "fv", scheme)
        for scheme in work.FE:
            plan.case(f"constant/{problem}/{scheme}", scalar_constant, problem, "fe", scheme)
    for scheme in work.SWE:
        plan.case(f"constant/swe/{scheme}", swe_constant, scheme)
    for scheme in ("low-order", "mcl", "central", "es", "es1"):
        for conditions in (("periodic",), ("outflow", "outflow"), ("wall", "wall"), ("wall", "outflow")):
            plan.case(f"lake/{scheme}/{'-'.join(conditions)}", lake, scheme, conditions)
