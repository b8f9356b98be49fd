"""C29: first-order scalar solvers are monotone, limited ones do not create variation."""
import numpy as np

import work

RULE = (
    "pairs of ordered / unrelated data (noise, steps, spikes, plateaus, pairs touching each other in some cells, data next to "
    "a constant) with equal time steps within the monotone bound through every SSP ODE solver: order, L1 distance, total "
    "variation and number of extrema are watched after every step of llf and cg-low; the executed right-hand sides of mcl-fv and "
    "mcl-fem (degree one) must not increase the total variation, highest maxima or lowest minima. Non-trivial: at least two values."
)
QUICK_ROUNDS = 4
REQUIRE = {"ordered steps": 3000, "distances": 1500, "variations": 3000, "entropies": 10000, "cells touching": 3000, "rates": 900, "active limiters": 250}

# shares of the time step bound for higher polynomial degrees
BOUND = {2: 0.1, 3: 0.05}


def cellwise(values, domain):
    a, b = domain
    n = len(values)
    return lambda x: float(values[min(n - 1, max(0, int((x - a) / (b - a) * n)))])


def nodal(values, domain):
    a, b = domain
    n = len(values)  # DOFs
    return lambda x: float(values[int(round((x - a) / (b - a) * n)) % n])


def data(rng, n):
    u = work.random_scalar_state(rng, n)
    if rng.random() < 0.3:
        u = u + rng.choice([-1, 1]) * np.abs(u).max() * rng.uniform(0, 2)
    return u


def above(rng, u):
    """Data nowhere below U, equal to U in some cells."""
    kind = rng.integers(4)
    scale = max(np.abs(u).max(), 1e-3)
    if kind == 0:
        return u + scale * rng.exponential(0.5, len(u)) * (rng.random(len(u)) < 0.5)
    if kind == 1:
        v = u.copy()
        v[rng.integers(len(u))] += scale * rng.exponential(1)
        return v
    if kind == 2:
        return np.maximum(u, rng.uniform(u.min(), u.max()))  # next to a constant: Kruzhkov entropies
    return u + scale * 10 ** rng.uniform(-6, 0)


def variation(u, periodic):
    return np.abs(np.diff(np.append(u, u[0]) if periodic else u)).sum()


def extrema(u, eps):
    s = np.diff(np.append(u, u[0]))
    s = np.sign(s[np.abs(s) > eps])
    return int((s != np.roll(s, 1)).sum()) if len(s) else 0


def entropies(u, rng):
    low, size = u.min(), max(np.ptp(u), 1e-3 * np.abs(u).max(), 1e-300)
    k = rng.uniform(u.min(), u.max())
    return (
        ("square", lambda x: ((x - low) / size) ** 2),
        ("power", lambda x: ((x - low) / size - 0.3) ** 4),
        ("exponential", lambda x: np.exp((x - low) / size)),
        ("distance", lambda x: np.abs(x - k) / size),
    )


def make(problem, scheme, ode, values, domain, start, conditions, inflow, degree=1):
    on = (nodal if scheme.startswith(("cg", "mcl-fem")) else cellwise)(values, domain)
    bench = work.ScalarBenchmark(problem, on, domain, start + 1.0, start, conditions, inflow)
    if scheme in work.FE:
        return work.FE[scheme](bench, mesh_size=len(values) // degree, polynomial_degree=degree, cfl_number=0.1, adaptive=False, ode_solver_type=work.ODE[ode])
    return work.SCALAR_FV[scheme](bench, mesh_size=len(values), cfl_number=0.1, ode_solver_type=work.ODE[ode])


def monotone(m, rng, problem, scheme, ode, conditions, degree=1):
    periodic = conditions == ("periodic",)
    for _ in range(3):
        n = work.cells(rng, 3, 40 // degree, 0.06, 100 // degree) * degree
        domain = work.random_domain(rng)
        start = float(rng.choice([0.0, rng.uniform(-3, 3)]))
        u = data(rng, n)
        v = above(rng, u)
        w = data(rng, n)  # unrelated to u
        inflow = [(None, None)] * 3
        high = max(np.abs(x).max() for x in (u, v, w))
        if "inflow" in conditions:
            phase, freq, gap = rng.uniform(0, 6, 2), rng.uniform(0.1, 20, 2), rng.exponential(0.3, 2) * rng.integers(0, 2, 2)
            lower = [(lambda t, k=k: float(high * np.sin(phase[k] + freq[k] * t))) for k in range(2)]
            upper = [(lambda t, k=k: float(high * (np.sin(phase[k] + freq[k] * t) + gap[k]))) for k in range(2)]
            inflow = [lower, upper, lower]
            high *= 1 + gap.max()
        speed = 1.0 if problem == "advection" else high
        dt = float(rng.choice([1.0, rng.uniform(0.1, 1)])) * (domain[1] - domain[0]) / n / speed / 3
        if degree > 1:
            dt *= BOUND[degree]
        weights = np.zeros(n)
        for cell in range(n // degree if degree > 1 else 0):
            for j, x in enumerate(work.newton_cotes(degree)):
                weights[(cell * degree + j) % n] += x
        weights = weights if degree > 1 else np.ones(n)
        solvers = [make(problem, scheme, ode, x, domain, start, conditions, i, degree) for x, i in zip((u, v, w), inflow)]
        scale = np.abs([u, v, w]).max()
        for s, x in zip(solvers, (u, v, w)):
            m.close(s.solution.value, x, "cells hold the given data", 1e-12, 1e-12 * scale)
        label = f"{problem}/{scheme}"
        eps = 1e-12 * high
        m.input(problem, scheme, ode, u, v, w, nontrivial=np.ptp(u) > 0, sample={"scheme": scheme, "u": u[:5], "v": v[:5]})
        for k in range(int(rng.integers(5, 20))):
            before = [np.array(s.solution.value) for s in solvers]
            for s in solvers:
                work.do_step(s, dt)
            after = [np.array(s.solution.value) for s in solvers]
            m.observe("ordered steps")
            m.observe("cells touching", (before[0] == before[1]).sum())
            ok = m.check((after[0] <= after[1] + eps).all(), f"{label}: ordered data stay ordered", step=k, u=before[0], v=before[1], new_u=after[0], new_v=after[1], time_step=dt)
            for old, new, lower in zip(before, after, (True, False, True)):
                if periodic:
                    m.observe("entropies", 4)
                    for name, eta in entropies(old, rng):
                        a, b = (weights * eta(old)).sum(), (weights * eta(new)).sum()
                        ok &= m.check(b <= a + 1e-11 * max(1.0, (weights * np.abs(eta(old))).sum(), np.abs(eta(old)).max() * weights.sum()), f"{label}: convex entropies do not grow", entropy=name, step=k, before=old, after=new, old=a, new=b)
                if periodic and degree == 1:
                    m.observe("variations")
                    ok &= m.check(variation(new, True) <= variation(old, True) + 8 * n * eps, f"{label}: total variation does not grow", step=k, before=old, after=new)
                    if ode == "euler":
                        ok &= m.check(extrema(new, n * eps) <= max(extrema(old, 0.0), 0), f"{label}: no new extrema", step=k, before=old, after=new)
                elif conditions == ("outflow", "outflow"):
                    m.observe("variations")
                    ok &= m.check(variation(new, False) <= variation(old, False) + 8 * n * eps, f"{label}: total variation does not grow", step=k, before=old, after=new)
            if periodic:
                m.observe("distances")
                m.check((weights * np.abs(after[0] - after[2])).sum() <= (weights * np.abs(before[0] - before[2])).sum() + 4 * n * eps, f"{label}: distances of solutions do not grow", step=k, u=before[0], w=before[2], new_u=after[0], new_w=after[2])
            if not ok:
                break


def limited(m, rng, problem, scheme, conditions):
    periodic = conditions == ("periodic",)
    for _ in range(24):
        n = work.cells(rng, 3, 40, 0.08, 80 if scheme in work.FE else 600)
        domain = work.random_domain(rng)
        u = data(rng, n)
        solver = make(problem, scheme, "euler", u, domain, 0.0, conditions, (None, None))
        rate = np.array(work.rhs_of(solver)(float(rng.uniform(0, 1)), u.copy()))
        m.input(problem, scheme, conditions, u, nontrivial=np.ptp(u) > 0, sample={"scheme": scheme, "u": u[:5]})
        m.observe("rates")
        other = {"mcl-fv": "llf", "mcl-fem": "cg-low"}.get(scheme)
        if other:
            low = np.array(work.rhs_of(make(problem, other, "euler", u, domain, 0.0, conditions, (None, None)))(0.0, u.copy()))
            m.observe("active limiters", not np.allclose(low, rate))
        e = np.append(u, u[0]) if periodic else u
        r = np.append(rate, rate[0]) if periodic else rate
        jump, change = np.diff(e), np.diff(r)
        growth = np.where(jump == 0, np.abs(change), np.sign(jump) * change)
        eps = 1e-11 * np.abs(rate).max() + 1e-11 * np.abs(u).max() * max(1.0, np.abs(u).max()) * n / (domain[1] - domain[0])
        label = f"{problem}/{scheme}"
        m.check(growth.sum() <= n * eps, f"{label}: the total variation does not grow", u=u, rate=rate, growth=growth.sum(), tolerance=n * eps)
        left, right = (np.roll(u, 1), np.roll(u, -1)) if periodic else (np.append(u[0], u[:-1]), np.append(u[1:], u[-1]))
        maxima, minima = (u >= left) & (u >= right), (u <= left) & (u <= right)
        m.check((rate[maxima] <= eps).all(), f"{label}: maxima do not grow", u=u, rate=rate)
        m.check((rate[minima] >= -eps).all(), f"{label}: minima do not fall", u=u, rate=rate)


def build(plan):
    for problem in ("advection", "burgers"):
        for scheme in ("llf", "cg-low"):
            for ode in work.ODE:
                for conditions in (("periodic",), ("outflow", "outflow"), ("inflow", "outflow"), ("inflow", "inflow"))[: 4 if scheme == "llf" else 1]:
                    plan.case(f"monotone/{problem}/{scheme}/{ode}/{'-'.join(conditions)}", monotone, problem, scheme, ode, conditions)
                if scheme == "cg-low":
                    for degree in BOUND:
                        plan.case(f"monotone/{problem}/{scheme}/{ode}/degree {degree}", monotone, problem, scheme, ode, ("periodic",), degree)
        for scheme in ("llf", "cg-low", "mcl-fv", "mcl-fem"):
            for conditions in (("periodic",), ("outflow", "outflow"))[: 1 if scheme in work.FE else 2]:
                plan.case(f"limited/{problem}/{scheme}/{'-'.join(conditions)}", limited, problem, scheme, conditions)
