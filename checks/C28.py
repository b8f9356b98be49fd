"""C28: energy stable, Galerkin and diffusive solvers conserve or dissipate energy."""
import core
import finite_volume.shallow_water as swe
import numpy as np

import work
from C10 import Dense

RULE = (
    "random wet states (sub- and supercritical, jumping, noisy), gravitational accelerations, meshes and bottoms (smooth, "
    "jumping, noisy; level at the ends of the periodic domain): energy rate of the executed right-hand side and entropy "
    "production of every node from the executed fluxes, with entropy variables and potentials computed by the check; runs "
    "over several steps whose energy drift must vanish with the time step. Quadratic energy of scalar problems: constant for "
    "continuous Galerkin with exact fluxes (own Gauss quadrature) and central advective fluxes, never growing for first-order schemes. Non-trivial: "
    "non-constant state."
)
QUICK_ROUNDS = 12
REQUIRE = {"energy rates": 600, "nodes": 8000, "dissipating nodes": 2000, "steps": 500, "bottom jumps": 1500, "scalar rates": 600, "scalar runs": 60}


def velocity(w):
    return w[:, 1] / w[:, 0]


def entropy(w, z, g):
    u = velocity(w)
    return np.array([g * (w[:, 0] + z) - u**2 / 2, u]).T


def energy(w, z, g, dx):
    h = w[:, 0]
    return dx * float(np.sum(h * velocity(w) ** 2 / 2 + g * h**2 / 2 + g * h * z))


def bottom_values(rng, n, depth):
    kind = rng.integers(4)
    if kind == 0:
        return np.full(n, float(rng.choice([0.0, rng.normal()])))
    if kind == 1:
        z = depth * rng.uniform(0, 1, n)
    elif kind == 2:
        z = depth / 2 * (1 + np.sin(2 * np.pi * rng.integers(1, 4) * np.arange(n) / n))
    else:
        z = np.where(np.arange(n) % int(rng.integers(2, 5)) == 0, depth, 0.0)
    z[-1] = z[0]  # level where both ends meet
    return z


def semi_discrete(m, rng, scheme):
    for _ in range(6):
        n = work.cells(rng, 4, 40)
        a, b = work.random_domain(rng)
        dx = (b - a) / n
        g = float(rng.choice([1.0, 9.812, 10 ** rng.uniform(-1, 2)]))
        w = work.random_swe_state(rng, n, froude=float(rng.choice([0.3, 1.0, 3.0])))
        w[:, 1] *= np.sqrt(g / 9.81)
        z = bottom_values(rng, n, float(w[:, 0].max()))
        index = lambda x: min(n - 1, max(0, int((x - a) / dx)))
        bench = work.SWEBenchmark(lambda x: w[index(x)], (a, b), 1.0, 0.0, ("periodic",), g=g, bathymetry=lambda x: z[index(x)])
        solver = work.SWE[scheme](bench, mesh_size=n, cfl_number=0.1)
        state = np.array(solver.solution.value)
        m.close(state, w, "cells hold the given state", 1e-12)
        time = float(rng.uniform(0, 1))
        rhs = np.asarray(work.rhs_of(solver)(time, state))
        v = entropy(w, z, g)
        m.input(scheme, w, z, g, dx, nontrivial=np.ptp(w) > 0, sample={"scheme": scheme, "state": w[:4], "bottom": z[:4], "g": g})
        m.observe("bottom jumps", (np.diff(z) != 0).sum())
        rate = float(np.sum(v * rhs) * dx)
        # terms which must cancel
        speed = np.abs(velocity(w)) + np.sqrt(g * w[:, 0])
        scale = float(np.sum(np.abs(v) * np.abs(rhs)) * dx + np.sum(w[:, 0] * speed**3))
        m.observe("energy rates")
        if scheme == "es":
            m.check(abs(rate) <= 1e-12 * scale, "es: energy of the semi-discretisation is constant", rate=rate, scale=scale)
        else:
            m.check(rate <= 1e-12 * scale, "es1: energy of the semi-discretisation never grows", rate=rate, scale=scale)
        # node by node
        flux = work.flux_of(solver)
        left, right = np.vstack([w[-1:], w]), np.vstack([w, w[:1]])
        z_left, z_right = np.append(z[-1], z), np.append(z, z[0])
        into_left, into_right = (np.asarray(f) for f in flux(left, right))
        v_left, v_right = entropy(left, z_left, g), entropy(right, z_right, g)
        potential = g / 2 * (right[:, 0] ** 2 * velocity(right) - left[:, 0] ** 2 * velocity(left))
        production = (v_left * into_left).sum(axis=1) + (v_right * into_right).sum(axis=1) - potential
        local = np.abs(v_left * into_left).sum(axis=1) + np.abs(v_right * into_right).sum(axis=1) + np.abs(potential)
        local = local + (left[:, 0] + right[:, 0]) * np.maximum(speed.max(), 1e-300) ** 3 * 1e-3
        m.observe("nodes", len(production))
        if scheme == "es":
            m.check((np.abs(production) <= 1e-11 * local).all(), "es: no node produces energy", production=production, tolerance=1e-11 * local)
        else:
            m.check((production <= 1e-11 * local).all(), "es1: no node produces energy", production=production, tolerance=1e-11 * local)
            different = np.abs(v_left - v_right).max(axis=1) > 1e-6 * np.abs(v).max()
            m.observe("dissipating nodes", different.sum())
            # the diffusion matrix is definite unless a wave speed vanishes
            mean = (left + right) / 2
            c = np.sqrt(g * mean[:, 0])
            slow = np.minimum(np.abs(mean[:, 1] / mean[:, 0] - c), np.abs(mean[:, 1] / mean[:, 0] + c))
            strong = different & (slow > 0.05 * c)
            lost = -production[strong] / ((v_right - v_left)[strong] ** 2).sum(axis=1)
            m.check((lost > 0).all(), "es1: jumps dissipate energy", lost=lost)


def run(m, rng, scheme):
    """Energy of runs: what explicit time stepping adds vanishes with the step."""
    bench, options = work.swe_setup(rng, n=int(rng.integers(8, 24)), kind="smooth", froude=0.4, steps=12, courant=0.2)
    level = 0.3 * float(rng.uniform(0, 1)) * bench.initial_data(bench.domain.a)[0]
    a, b = bench.domain.a, bench.domain.b
    bench._bathymetry = lambda x: float(level * max(0.0, 1 - (((x - a) / (b - a) - 0.5) / 0.3) ** 2) ** 2)
    n, g = options["mesh_size"], bench.gravitational_acceleration
    dx = (b - a) / n
    drift = []
    for factor in (1.0, 0.5, 0.25):
        solver = work.SWE[scheme](bench, save_history=True, ode_solver_type=core.StrongStabilityPreservingRungeKutta3,
                                  mesh_size=n, cfl_number=factor * options["cfl_number"])
        # the solver's own bottom: cell averages by its quadrature
        z = np.asarray(swe.build_bathymetry_discretization(bench, n), dtype=float)
        values = work.solve(solver).solution.value_history
        m.observe("steps", len(values) - 1)
        energies = [energy(w, z, g, dx) for w in values]
        drift.append(max(np.array(energies) - energies[0]) if scheme == "es1" else np.abs(np.array(energies) - energies[0]).max())
        total = abs(energies[0])
    m.input("run", scheme, n, g, bench.end_time, sample={"scheme": scheme, "drift": drift})
    floor = 1e-13 * total
    if scheme == "es":
        m.check(drift[2] <= max(floor, 0.5 * drift[0]) or drift[2] <= 1e-9 * total, "es: drift of the energy vanishes with the time step", drift=drift, energy=total)
        m.check(drift[0] <= 1e-3 * total, "es: energy stays", drift=drift, energy=total)
    else:
        m.check(drift[2] <= floor, "es1: energy of runs does not grow", drift=drift, energy=total)


def scalar_solver(problem, scheme, domain, n, p, start=None, **options):
    bench = work.ScalarBenchmark(problem, start or (lambda x: 0.0), domain, options.pop("end_time", 1.0))
    if p:
        if scheme == "cg" and problem == "burgers":
            options["exact_flux"] = True
        return work.FE[scheme](bench, mesh_size=n, polynomial_degree=p, **options)
    return work.SCALAR_FV[scheme](bench, mesh_size=n, **options)


def scalar(m, rng, problem, scheme):
    for _ in range(8):
        p = int(rng.integers(1, 6)) if scheme in work.FE else 0
        if scheme == "cg-low":
            p = min(p, 3)
        n = work.cells(rng, 3, 14, 0.06, 80) if p else work.cells(rng, 3, 50, 0.06, 800)
        domain = work.random_domain(rng)
        u = work.random_scalar_state(rng, n * max(p, 1))
        rate = np.array(work.rhs_of(scalar_solver(problem, scheme, domain, n, p, cfl_number=0.1))(float(rng.uniform(0, 1)), u.copy()))
        if p:
            dense = Dense(*domain, n, p)
            weights = dense.M if scheme == "cg" else np.diag(dense.m)
        else:
            weights = np.eye(n) * (domain[1] - domain[0]) / n
        change, size = u @ weights @ rate, np.abs(u) @ np.abs(weights) @ np.abs(rate)
        floor = 1e-12 * size + 1e-13 * np.abs(u).max() ** 2 * max(1.0, np.abs(u).max() if problem == "burgers" else 1.0) * len(u)
        m.observe("scalar rates")
        m.input(problem, scheme, p, u, nontrivial=np.ptp(u) > 0, sample={"scheme": scheme, "problem": problem, "degree": p, "u": u[:5]})
        where = {"u": u, "degree": p, "rate": change, "tolerance": floor}
        if scheme in ("cg", "central"):
            m.check(abs(change) <= 10 * floor, f"{problem}/{scheme}: quadratic energy is constant", **where)
        else:
            m.check(change <= floor, f"{problem}/{scheme}: quadratic energy never grows", **where)


def scalar_run(m, rng, problem):
    """The energy of continuous Galerkin solutions drifts by errors in time only."""
    p, n = int(rng.integers(1, 4)), int(rng.integers(4, 7))
    domain = work.random_domain(rng)
    length = domain[1] - domain[0]
    mean, phase = rng.uniform(-1, 1), rng.uniform(0, 6)
    start = lambda x: float(mean + 0.5 * np.sin(2 * np.pi * (x - domain[0]) / length + phase))
    speed = 1.0 if problem == "advection" else abs(mean) + 0.5
    dense = Dense(*domain, n, p)
    drift, total = [], 0.0
    cfl = 0.5 / speed / (2 * p + 1) / p
    for factor in (1.0, 0.5, 0.25):
        solver = scalar_solver(problem, "cg", domain, n, p, start, save_history=True, end_time=5 * cfl * length / n, cfl_number=factor * cfl)
        values = work.solve(solver).solution.value_history
        energies = np.einsum("ki,ij,kj->k", values, dense.M, values)
        total = energies[0]
        drift.append(np.abs(energies - total).max())
    m.observe("scalar runs")
    m.input("scalar run", problem, p, n, mean, phase, domain)
    m.check(drift[0] <= 1e-2 * total, f"{problem}/cg: energy stays", drift=drift, energy=total, degree=p)
    m.check(drift[2] <= max(0.4 * drift[0], 1e-12 * total), f"{problem}/cg: drift of the energy vanishes with the time step", drift=drift, energy=total, degree=p)


def build(plan):
    for problem in ("advection", "burgers"):
        for scheme in ("cg", "cg-low", "llf") + (("central",) if problem == "advection" else ()):
            for k in range(2):
                plan.case(f"scalar {problem} {scheme} #{k}", scalar, problem, scheme)
        for k in range(4):
            plan.case(f"scalar run {problem} #{k}", scalar_run, problem)
    for scheme in ("es", "es1"):
        for k in range(8):
            plan.case(f"{scheme} #{k}", semi_discrete, scheme)
        for k in range(4):
            plan.case(f"run {scheme} #{k}", run, scheme)
