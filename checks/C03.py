"""C03: scalar bound-preserving solvers obey maximum principles."""
import numpy as np

import ref
import work

RULE = (
    "runs of llf, mcl-fv, cg-low, mcl-fem from random data (noise, steps, spikes, plateaus, smooth) with Courant "
    "numbers up to the admissible one, every ODE solver, periodic and inflow/outflow boundaries; every stored "
    "state is compared with the global range, every forward Euler step with the range of its stencil. "
    "Non-trivial: the data takes at least two values."
)
QUICK_ROUNDS = 6
REQUIRE = {"step": 3000, "cells at their local bound": 100, "run": 150}


def _global(m, label, values, low, high):
    eps = 1e-11 * max(abs(low), abs(high), 1e-300)
    m.check(
        values.min() >= low - eps and values.max() <= high + eps, f"{label}: range of initial values is never left",
        low=low, high=high, minimum=values.min(), maximum=values.max(),
    )


def _local(m, label, values, neighbours):
    """neighbours(k): stencil values of every cell at step k, shape (n, stencil)."""
    for k in range(len(values) - 1):
        stencil = neighbours(k)
        low, high = stencil.min(axis=1), stencil.max(axis=1)
        eps = 1e-11 * np.abs(stencil).max() + 1e-300
        new = values[k + 1]
        m.observe("step")
        m.observe("cells at their local bound", ((np.abs(new - low) < eps) | (np.abs(new - high) < eps))[high > low].sum())
        bad = (new < low - eps) | (new > high + eps)
        if not m.check(
            not bad.any(), f"{label}: Euler step stays in the range of its stencil",
            step=k, cells=np.flatnonzero(bad), new=new[bad], low=low[bad], high=high[bad], before=values[k],
        ):
            break


def _range(rng):
    """Sometimes very large or very small values (fast or slow waves), else the usual ones."""
    if rng.random() < 0.75:
        return None, None
    scale = 10 ** rng.choice([rng.uniform(1.5, 6), rng.uniform(-2.5, -1)])
    return np.sort(rng.uniform(-scale, scale, 2))


def fv(m, rng, problem, scheme, ode, conditions):
    for _ in range(2):
        inflow = (None, None)
        low = high = None
        if "inflow" in conditions:
            low, high = np.sort(rng.uniform(-2, 2, 2))
            phase, freq = rng.uniform(0, 6, 2), rng.uniform(0.1, 20, 2)
            mid, half = (low + high) / 2, (high - low) / 2
            inflow = tuple(
                (lambda t, k=k: float(mid + half * np.sin(phase[k] + freq[k] * t))) for k in range(2)
            )
        if low is None:
            low, high = _range(rng)
        bench, options = work.scalar_setup(rng, problem, steps=int(rng.integers(5, 25)), conditions=conditions, inflow=inflow, low=low, high=high, courant=float(rng.choice([0.5, rng.uniform(0.05, 0.5)])))
        solver = work.SCALAR_FV[scheme](bench, ode_solver_type=work.ODE[ode], save_history=True, **options)
        work.solve(solver)
        values, times = solver.solution.value_history, solver.solution.time_history
        m.input(problem, scheme, ode, values[0], nontrivial=np.ptp(values[0]) > 0, sample={"scheme": scheme, "problem": problem, "kind": str(bench.kind), "u0": values[0][:6]})
        m.observe("run")
        label = f"{problem}/{scheme}"
        lows, highs = ([low], [high]) if "inflow" in conditions else ([values[0].min()], [values[0].max()])
        _global(m, label, values, min(*lows, values[0].min()), max(*highs, values[0].max()))
        if ode == "euler":
            def stencil(k):
                e = ref.extend(values[k], conditions, 1, times[k], inflow)
                return np.array([e[:-2], e[1:-1], e[2:]]).T

            _local(m, label, values, stencil)


def fe(m, rng, problem, scheme, ode, p, adaptive):
    n = work.cells(rng, 3, 14, 0.06, 80)
    low, high = _range(rng)
    bench, _ = work.scalar_setup(rng, problem, n=n, low=low, high=high)
    speed = 1.0 if problem == "advection" else max(abs(bench.low), abs(bench.high), 1e-3)
    cfl = float(rng.choice([1.0, rng.uniform(0.2, 1)])) if p == 1 else rng.uniform(0.2, 0.5)
    bench.end_time = bench.start_time + 4 * bench.domain.length / n / p / speed
    solver = work.FE[scheme](bench, mesh_size=n, polynomial_degree=p, cfl_number=cfl, adaptive=adaptive, ode_solver_type=work.ODE[ode], save_history=True)
    work.solve(solver)
    values = solver.solution.value_history
    m.input(problem, scheme, ode, p, values[0], nontrivial=np.ptp(values[0]) > 0, sample={"scheme": scheme, "problem": problem, "degree": p, "u0": values[0][:6]})
    m.observe("run")
    label = f"{problem}/{scheme}"
    _global(m, label, values, values[0].min(), values[0].max())
    if ode == "euler":
        dofs = values.shape[1]

        def stencil(k):
            rows = []
            for i in range(dofs):
                cells = [i // p, i // p - 1] if i % p == 0 else [i // p]
                index = sorted({(c * p + j) % dofs for c in cells for j in range(p + 1)})
                row = values[k][index]
                rows.append(np.concatenate([row, np.full(2 * p + 1 - len(row), row[0])]))
            return np.array(rows)

        _local(m, label, values, stencil)


def build(plan):
    bcs = (("periodic",), ("outflow", "outflow"), ("inflow", "outflow"), ("inflow", "inflow"))
    for problem in ("advection", "burgers"):
        for scheme in ("llf", "mcl-fv"):
            for ode in work.ODE:
                for conditions in bcs:
                    plan.case(f"fv/{problem}/{scheme}/{ode}/{'-'.join(conditions)}", fv, problem, scheme, ode, conditions)
        for scheme in ("cg-low", "mcl-fem"):
            for ode in work.ODE:
                for p in (1, 2, 3):
                    for adaptive in (False, True):
                        plan.case(f"fe/{problem}/{scheme}/{ode}/{p}/{adaptive}", fe, problem, scheme, ode, p, adaptive)
