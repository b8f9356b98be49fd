"""C30: disturbances travel one stencil per stage, ends of a domain do not see each other."""
import core
import finite_volume.shallow_water.solver as sw
import numpy as np

import work

RULE = (
    "twin evaluations and twin runs (equal time steps, every SSP ODE solver) whose data differ in one cell, a block, one inflow "
    "function, one bottom cell or beyond a non-periodic end, by factors from 1e-8 to 1e10: values outside of the domain of dependence "
    "(one neighbour per evaluation for two-point fluxes, two for limited and reduced fluxes, one or two elements for finite "
    "elements) stay equal up to rounding, values next to the disturbance react. Non-trivial: the disturbance is not void."
)
QUICK_ROUNDS = 3
REQUIRE = {"disturbances": 1200, "values outside": 20000, "reactions": 1000, "runs": 200, "bottoms": 150, "inflows": 80, "non-periodic": 300}

REACH = {"mcl": 2, "mcl-fv": 2, "mcl-fem": 2, "reduced-llf": 2}
SCHEMES = {**work.SWE, "reduced-llf": sw.ReducedLaxFriedrichsSolver}
del SCHEMES["coarse"]


def reach(scheme):
    return REACH.get(scheme, 1)


def influenced(cells, n, radius, periodic):
    """Cells within RADIUS of the given ones."""
    out = np.zeros(n, bool)
    for i in np.flatnonzero(cells):
        for d in range(-radius, radius + 1):
            j = i + d
            if periodic:
                out[j % n] = True
            elif 0 <= j < n:
                out[j] = True
    return out


def elementwise(cells, n, p, times):
    """DOFs which share an element with the given ones (TIMES in a row)."""
    out = np.array(cells)
    for _ in range(times):
        new = out.copy()
        for e in range(n // p):
            index = [(e * p + j) % n for j in range(p + 1)]
            if out[index].any():
                new[index] = True
        out = new
    return out


def outside(m, label, a, b, reached, what, tolerance=1e-10, **where):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    free = ~reached
    m.observe("values outside", free.sum())
    if free.any():
        scale = np.abs(a[free]).max(axis=0) if a.ndim > 1 else np.abs(a[free]).max()
        difference = np.abs(a - b)[free]
        bad = ~(difference <= tolerance * scale + where.pop("floor", 0.0))
        return m.check(not bad.any(), f"{label}: {what}", cells=np.flatnonzero(free)[bad.reshape(free.sum(), -1).any(axis=1)], difference=difference.max(), **where)
    return True


def disturb(rng, state, scheme, swe):
    """The same state with other values in a few neighbouring cells."""
    n = len(state)
    new, cells = state.copy(), np.zeros(n, bool)
    start, length = int(rng.integers(n)), int(rng.choice([1, 1, 2, 3]))
    cells[(start + np.arange(length)) % n] = True
    size = 10 ** rng.uniform(-8, 4) if rng.random() < 0.5 else 10 ** rng.uniform(-1, 1)
    if swe:
        kind = rng.integers(5)
        if kind == 0:
            new[cells] *= 1 + min(size, 20)
        elif kind == 4:
            # very deep water (slowly moving)
            new[cells, 0] *= 10 ** rng.uniform(2, 10)
        elif kind == 1:
            new[cells, 1] += rng.normal() * new[cells, 0] * min(size, 100)
        elif kind == 2:
            new[cells, 1] = 0.0
        else:
            new[cells] *= rng.uniform(0.01, 0.9)
    else:
        kind = rng.integers(3)
        new[cells] = new[cells] + size * rng.normal() if kind else 0.0
    return new, cells


def level_ends(values):
    values = np.array(values)
    values[-1] = values[0]
    return values


def swe_bench(rng, state, domain, conditions, inflow, g, z):
    n, (a, b) = len(state), domain
    index = lambda x: min(n - 1, max(0, int((x - a) / (b - a) * n)))
    return work.SWEBenchmark(lambda x: state[index(x)], domain, 1.0, 0.0, conditions, inflow, g, None if z is None else (lambda x: z[index(x)]))


def build_swe(scheme, bench, n, dx, ode="euler"):
    options = {"gamma": 0.05 * dx} if scheme == "antidiffusion" else {}
    if scheme != "lw":
        options["ode_solver_type"] = work.ODE[ode]
    solver = SCHEMES[scheme](bench, mesh_size=n, cfl_number=0.1, **options)
    return solver


def rate(scheme, solver, dt, time, state):
    f = work.rhs_of(solver)
    if scheme == "lw":
        f.set_time_step(dt)
    return np.array(f(time, state.copy()))


CONDITIONS = (("periodic",), ("outflow", "outflow"), ("wall", "wall"), ("inflow", "wall"), ("inflow", "inflow"), ("outflow", "wall"))


def water(m, rng, scheme):
    if scheme == "reduced-llf":
        work.Network(rng)
    tolerance = 1e-5 if scheme == "reduced-llf" else 1e-10
    for _ in range(8):
        n = work.cells(rng, 6, 60)
        domain = work.random_domain(rng)
        dx = (domain[1] - domain[0]) / n
        conditions = CONDITIONS[rng.integers(len(CONDITIONS))]
        if scheme == "reduced-llf":
            conditions = ("periodic",)
        periodic = conditions == ("periodic",)
        g = float(rng.choice([1.0, 9.812]))
        w = work.random_swe_state(rng, n, froude=float(rng.choice([0.3, 1.5])))
        if rng.random() < 0.3:
            # nearly dry parts
            w[(rng.integers(n) + np.arange(rng.integers(1, n))) % n] *= 10 ** rng.uniform(-8, -2)
        ends = work.random_swe_state(rng, 4, froude=0.5)
        flow = (lambda t: ends[0], lambda t: ends[1])
        varied = scheme not in ("reduced-llf",) and rng.random() < 0.6
        z = level_ends(rng.uniform(0, 0.5, n) * w[:, 0].min() * (rng.random(n) < rng.choice([0.1, 1.0]))) if varied else None
        new, cells = disturb(rng, w, scheme, True)
        label = f"swe/{scheme}"
        dt = 1e-3 * dx
        time = float(rng.uniform(0, 1))
        where = {"n": n, "conditions": conditions, "bottom": z is not None}
        solver = build_swe(scheme, swe_bench(rng, w, domain, conditions, flow, g, z), n, dx)
        first = rate(scheme, solver, dt, time, w)
        second = rate(scheme, solver if rng.random() < 0.5 else build_swe(scheme, swe_bench(rng, new, domain, conditions, flow, g, z), n, dx), dt, time, new)
        floor = 1e-11 * speed_scale(w, g) / dx
        m.input(scheme, w, new, nontrivial=(w != new).any(), sample={"scheme": scheme, "cells": np.flatnonzero(cells), **where})
        m.observe("disturbances")
        m.observe("non-periodic", not periodic)
        reached = influenced(cells, n, reach(scheme), periodic)
        outside(m, label, first, second, reached, "the rate of change depends on neighbouring cells only", tolerance, floor=floor, disturbed=np.flatnonzero(cells), **where)
        m.observe("reactions", (first != second)[reached].any() or (w == new).all())
        # inflow data reach the first cells only
        if "inflow" in conditions and not scheme == "reduced-llf":
            side = int(rng.integers(2)) if conditions == ("inflow", "inflow") else 0
            other = list(flow)
            other[side] = lambda t: ends[2]
            third = rate(scheme, build_swe(scheme, swe_bench(rng, w, domain, conditions, tuple(other), g, z), n, dx), dt, time, w)
            border = np.zeros(n, bool)
            border[: reach(scheme)] = side == 0
            border[n - reach(scheme):] |= side == 1
            m.observe("inflows")
            outside(m, label, first, third, border, "inflow data change cells at the boundary only", tolerance, floor=floor, side=side, **where)
        # a change of the bottom
        if z is not None and n > 6:
            z2 = z.copy()
            i = int(rng.integers(1, n - 1))
            z2[i] = rng.uniform(0, 0.5) * w[:, 0].min()
            fourth = rate(scheme, build_swe(scheme, swe_bench(rng, w, domain, conditions, flow, g, z2), n, dx), dt, time, w)
            changed = np.zeros(n, bool)
            changed[i] = True
            m.observe("bottoms")
            # a bottom made level changes nothing elsewhere either
            outside(m, label, first, fourth, influenced(changed, n, reach(scheme), periodic), "a step of the bottom acts on neighbouring cells only", tolerance, floor=floor, changed=i, **where)


def speed_scale(w, g):
    u = np.abs(w[:, 1] / w[:, 0])
    return float((w[:, 0] * (u + np.sqrt(g * w[:, 0])) ** 2).max())


def scalar_bench(problem, values, domain, conditions, inflow, p):
    n, (a, b) = len(values), domain
    if p:
        on = lambda x: float(values[int(round((x - a) / (b - a) * n)) % n])
    else:
        on = lambda x: float(values[min(n - 1, max(0, int((x - a) / (b - a) * n)))])
    return work.ScalarBenchmark(problem, on, domain, 1.0, 0.0, conditions, inflow)


def build_scalar(scheme, bench, n, p, ode="euler"):
    if p:
        return work.FE[scheme](bench, mesh_size=n // p, polynomial_degree=p, cfl_number=0.1, adaptive=False, ode_solver_type=work.ODE[ode])
    return work.SCALAR_FV[scheme](bench, mesh_size=n, cfl_number=0.1, ode_solver_type=work.ODE[ode])


def scalar(m, rng, problem, scheme, p):
    for _ in range(4 if p else 8):
        n = work.cells(rng, 6, 60) if not p else int(rng.integers(5, 16 // p + 6)) * p
        domain = work.random_domain(rng)
        conditions = ("periodic",) if p else CONDITIONS[(0, 1, 4)[rng.integers(3)]]
        periodic = conditions == ("periodic",)
        u = work.random_scalar_state(rng, n)
        new, cells = disturb(rng, u, scheme, False)
        ends = rng.normal(size=4)
        flow = (lambda t: ends[0], lambda t: ends[1])
        time = float(rng.uniform(0, 1))
        solver = build_scalar(scheme, scalar_bench(problem, u, domain, conditions, flow, p), n, p)
        first = np.array(work.rhs_of(solver)(time, u.copy()))
        twin = solver if rng.random() < 0.5 else build_scalar(scheme, scalar_bench(problem, new, domain, conditions, flow, p), n, p)
        second = np.array(work.rhs_of(twin)(time, new.copy()))
        label, size = f"{problem}/{scheme}", np.abs(u).max()
        floor = 1e-11 * size * max(size if problem == "burgers" else 1.0, 1e-300) * n / (domain[1] - domain[0])
        m.input(problem, scheme, p, u, new, nontrivial=(u != new).any(), sample={"scheme": scheme, "cells": np.flatnonzero(cells), "n": n})
        m.observe("disturbances")
        m.observe("non-periodic", not periodic)
        reached = elementwise(cells, n, p, reach(scheme)) if p else influenced(cells, n, reach(scheme), periodic)
        outside(m, label, first, second, reached, "the rate of change depends on neighbouring cells only", floor=floor, disturbed=np.flatnonzero(cells), conditions=conditions)
        m.observe("reactions", (first != second)[reached].any() or (u == new).all())
        if "inflow" in conditions:
            side = int(rng.integers(2))
            other = list(flow)
            other[side] = lambda t: ends[2]
            third = np.array(work.rhs_of(build_scalar(scheme, scalar_bench(problem, u, domain, conditions, tuple(other), p), n, p))(time, u.copy()))
            border = np.zeros(n, bool)
            border[: reach(scheme)] = side == 0
            border[n - reach(scheme):] |= side == 1
            m.observe("inflows")
            outside(m, label, first, third, border, "inflow data change cells at the boundary only", floor=floor, side=side)


def runs(m, rng, problem, scheme, p, ode):
    """Cones of dependence of runs with equal steps."""
    stages = {"euler": 1, "heun": 2, "ssp3": 3}["euler" if scheme == "lw" else ode]
    for _ in range(1 if p else 2):
        n = int(rng.integers(30, 80)) if not p else int(rng.integers(12, 20)) * p
        domain = work.random_domain(rng)
        dx = (domain[1] - domain[0]) / n
        if problem == "swe":
            w = work.random_swe_state(rng, n, froude=0.3)
            w[:, 0] = w[:, 0].clip(0.5)
            g, conditions = 9.812, CONDITIONS[(0, 1, 2)[rng.integers(3)]]
            new, cells = w.copy(), np.zeros(n, bool)
            cells[int(rng.integers(n))] = True
            new[cells] *= rng.uniform(0.5, 3)
            speed = np.sqrt(g * 3 * w[:, 0].max()) + np.abs(w[:, 1] / w[:, 0]).max() * 3
            pair = [build_swe(scheme, swe_bench(rng, x, domain, conditions, (None, None), g, None), n, dx, ode) for x in (w, new)]
            scale = speed_scale(w, g) / speed
        else:
            conditions = ("periodic",) if p else CONDITIONS[(0, 1)[rng.integers(2)]]
            w = work.random_scalar_state(rng, n)
            new, cells = disturb(rng, w, scheme, False)
            speed = 1.0 if problem == "advection" else max(np.abs(w).max(), np.abs(new).max())
            pair = [build_scalar(scheme, scalar_bench(problem, x, domain, conditions, (None, None), p), n, p, ode) for x in (w, new)]
            scale = np.abs(w).max()
        periodic = conditions == ("periodic",)
        dt = float(rng.uniform(0.02, 0.15)) * dx / speed / (1 + p * p)
        m.observe("runs")
        m.input("run", problem, scheme, p, ode, w, new, nontrivial=True)
        for step in range(4):
            for s in pair:
                if scheme == "lw":
                    work.rhs_of(s).set_time_step(dt)
                work.do_step(s, dt)
            # finite elements see p unknowns at once
            cells = elementwise(cells, n, p, stages * reach(scheme)) if p else influenced(cells, n, stages * reach(scheme), periodic)
            m.check(np.isfinite(pair[0].solution.value).all(), f"{problem}/{scheme}: run stays finite")
            if not outside(m, f"{problem}/{scheme}", pair[0].solution.value, pair[1].solution.value, cells, "disturbances travel one stencil per stage", floor=1e-10 * scale, step=step, ode=ode, conditions=conditions):
                break


def build(plan):
    for scheme in SCHEMES:
        for k in range(4):
            plan.case(f"water/{scheme} #{k}", water, scheme)
        for ode in work.ODE if scheme not in ("lw", "reduced-llf") else ("euler",):
            if scheme != "reduced-llf":
                plan.case(f"runs/swe/{scheme}/{ode}", runs, "swe", scheme, 0, ode)
    for problem in ("advection", "burgers"):
        for scheme in work.SCALAR_FV:
            for k in range(2):
                plan.case(f"scalar/{problem}/{scheme} #{k}", scalar, problem, scheme, 0)
            for ode in work.ODE:
                plan.case(f"runs/{problem}/{scheme}/{ode}", runs, problem, scheme, 0, ode)
        for scheme in ("cg-low", "mcl-fem"):
            for p in (1, 2, 3):
                for k in range(2):
                    plan.case(f"scalar/{problem}/{scheme}/{p} #{k}", scalar, problem, scheme, p)
                for ode in work.ODE:
                    plan.case(f"runs/{problem}/{scheme}/{p}/{ode}", runs, problem, scheme, p, ode)
