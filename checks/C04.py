"""C04: water heights stay positive and within local bounds."""
import numpy as np

import ref
import work

RULE = (
    "runs of llf (flat), low-order and mcl from random wet states (dam breaks, noise, shallow layers, supercritical "
    "flow, rough bottoms whose jumps exceed the water depth), all boundary conditions and ODE solvers; judged are "
    "all steps whose stages satisfy the CFL condition 2*dt*lambda <= dx. Non-trivial: heights vary."
)
QUICK_ROUNDS = 10
REQUIRE = {"judged step": 2000, "bounded step": 500, "run": 100, "shallow cells": 80, "limited by bottom": 20, "thin layers": 10}


def _lambda(s, u, time):
    e = ref.extend(u, s.conditions, 1, time, s.inflow)
    return max(ref.swe_speed(w, s.g) for w in e)


def _stages_ok(s, rhs, ode, u, t, dt):
    """Do all stages satisfy the CFL condition (and stay positive)?"""
    euler = lambda v: v + dt * np.asarray(rhs(t, v.copy()))
    limit = 0.5 * s.dx / dt * (1 + 1e-12)
    stages = [u]
    if _lambda(s, u, t) > limit:
        return False
    if ode in ("heun", "ssp3"):
        stages.append(euler(u))
    if any((v[:, 0] < 0).any() or _lambda(s, v, t) > limit for v in stages):
        return False
    if ode == "ssp3":
        stages.append(0.75 * u + 0.25 * euler(stages[1]))
        return _lambda(s, stages[2], t) <= limit
    return True


def run(m, rng, scheme, conditions, ode, bottom):
    for _ in range(2):
        g = float(rng.choice([1.0, 9.812]))
        n = work.cells(rng, 5, 30, 0.08, 500)
        a, b = work.random_domain(rng)
        low = 10 ** (rng.uniform(-3, 0) if rng.random() < 0.8 else rng.uniform(-9, -3))
        kind = rng.choice(["noise", "step", "spike", "plateau", "smooth"])
        scale = 1.0 if rng.random() < 0.7 else 10 ** rng.uniform(-10, -2)  # thin layers
        depth = work.profile(rng, kind, a, b, n, low, 2.0)
        h = lambda x, depth=depth, scale=scale: scale * depth(x)
        v = work.profile(rng, rng.choice(["noise", "step", "smooth"]), a, b, n, -1, 1)
        fast = float(rng.choice([0.0, 0.5, 2.0]))
        data = lambda x: np.array([h(x), h(x) * fast * v(x) * np.sqrt(g * h(x))])
        bathymetry = work.random_bathymetry(rng, a, b, rng.choice([0.2, 2.0, 6.0]) * float(rng.choice([1.0, scale]))) if bottom else None
        inflow = (None, None)
        if "inflow" in conditions:
            states = [data(rng.uniform(a, b)) for _ in range(2)]
            inflow = (lambda t: states[0], lambda t: states[1])
        speed = (1 + fast) * np.sqrt(2 * g) * (1.3 if not bottom else 2.0) * np.sqrt(scale)
        cfl = rng.uniform(0.2, 0.45) / speed
        steps = int(rng.integers(5, 25))
        bench = work.SWEBenchmark(data, (a, b), steps * cfl * (b - a) / n, 0.0, conditions, inflow, g, bathymetry)
        solver = work.SWE[scheme](bench, mesh_size=n, cfl_number=cfl, ode_solver_type=work.ODE[ode], save_history=True)
        s = work.setting(bench, n, inflow)
        m.observe("run")
        rhs = work.rhs_of(solver)
        label = f"swe/{scheme}"
        u = solver.solution.value
        m.input(scheme, conditions, ode, u, s.b, nontrivial=np.ptp(u[:, 0]) > 0, sample={"scheme": scheme, "conditions": conditions, "u0": u[:4]})
        m.observe("shallow cells", (u[:, 0] < 0.1).sum())
        m.observe("thin layers", int(u[:, 0].max() < 1e-6))
        for dt in iter(work.time_steps(solver)):
            t = solver.solution.time
            ok = _stages_ok(s, rhs, ode, u, t, dt)
            if not ok:
                m.observe("step beyond CFL condition")
                break
            work.do_step(solver, dt)
            new = solver.solution.value
            m.observe("judged step")
            if not m.check((new[:, 0] >= -1e-14 * scale).all() and np.isfinite(new).all(), f"{label}: heights stay non-negative", before=u, after=new, dt=dt):
                return
            if ode == "euler":
                _bounds(m, label, s, u, new, t, bottom, scheme, scale)
            u = new


def _bounds(m, label, s, u, new, t, bottom, scheme, scale):
    e = ref.extend(u, s.conditions, 1, t, s.inflow)
    steps = np.diff(s.b)
    nodes = [ref.LowOrderNode(e[i], e[i + 1], steps[i], s.g) for i in range(s.n + 1)]
    m.observe("bounded step")
    m.observe("limited by bottom", sum(abs(step) / 2 > k.h_bar for step, k in zip(steps, nodes)))
    right = np.array([k.h_right for k in nodes[:-1]])
    left = np.array([k.h_left for k in nodes[1:]])
    around = np.array([u[:, 0], left, right])
    eps = 1e-11 * around.max() + 1e-14 * np.abs(s.b).max()  # the bottom itself is rounded
    m.check(
        (new[:, 0] >= around.min(axis=0) - eps).all() and (new[:, 0] <= around.max(axis=0) + eps).all(),
        f"{label}: height within the local intermediate heights", before=u, after=new, time=t,
    )
    if bottom:
        return
    if scheme == "mcl":
        velocity = lambda w: w[:, 1] / w[:, 0]
        bars = np.array([k.q_bar / k.h_bar for k in nodes])
        around = np.array([velocity(u), bars[:-1], bars[1:]])
        eps = 1e-9 * np.abs(around).max() + 1e-12 * np.sqrt(scale)
        value = velocity(new)
    else:
        bars = np.array([k.q_bar for k in nodes])
        around = np.array([u[:, 1], bars[:-1], bars[1:]])
        eps = 1e-11 * np.abs(around).max() + 1e-13 * scale**1.5
        value = new[:, 1]
    m.check(
        (value >= around.min(axis=0) - eps).all() and (value <= around.max(axis=0) + eps).all(),
        f"{label}: {'velocity' if scheme == 'mcl' else 'discharge'} within the local intermediate values (flat bottom)",
        before=u, after=new, time=t,
    )


def build(plan):
    for scheme in ("llf", "low-order", "mcl"):
        for conditions in (("periodic",), ("outflow", "outflow"), ("wall", "wall"), ("inflow", "wall")):
            for ode in work.ODE:
                for bottom in (False, True):
                    if scheme == "llf" and bottom:
                        continue
                    plan.case(f"{scheme}/{'-'.join(conditions)}/{ode}/{bottom}", run, scheme, conditions, ode, bottom)
