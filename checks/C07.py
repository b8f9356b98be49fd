"""C07: solutions are equivariant under shifts, reflections and scalings."""
import core
import numpy as np

import work

RULE = (
    "pairs of real runs: a random configuration (cell or node values: smooth, noisy, steps, spikes; bottoms, boundary "
    "conditions, time dependent inflow) and its image under a cyclic shift, a translation in space and time, a reflection or a "
    "scaling of space-time, values or gravity; the recorded histories must be images of each other. "
    "Non-trivial: the state changes during the run."
)
QUICK_ROUNDS = 2
REQUIRE = {"shift": 60, "translation": 60, "reflection": 60, "scaling": 80, "steps compared": 1500}


class Config:
    """Everything a run depends on; VALUES has one row per cell or node."""

    def __init__(self, problem, **kw):
        self.problem = problem
        self.__dict__.update(kw)

    def replaced(self, **kw):
        return Config(**{**self.__dict__, **kw})


def benchmark(c):
    a, b = c.domain
    n, p = c.n, c.degree

    def lookup(table):
        def function(x):
            s = (x - a) / (b - a) * n
            if p:
                i = int(round(s * p)) % len(table)
            else:
                i = min(n - 1, max(0, int(np.floor(s))))
            value = table[i]
            return value.copy() if np.ndim(value) else float(value)

        return function

    end = c.start + (c.steps - 0.5) * c.cfl * (b - a) / n
    if c.problem == "shallow_water":
        return work.SWEBenchmark(lookup(c.values), c.domain, end, c.start, c.conditions, c.inflow, c.g, lookup(c.bottom))
    return work.ScalarBenchmark(c.problem, lookup(c.values), c.domain, end, c.start, c.conditions, c.inflow)


def run(c, scheme):
    classes = {"shallow_water": work.SWE}.get(c.problem, work.FE if c.degree else work.SCALAR_FV)
    options = dict(c.options)
    if c.degree:
        options["polynomial_degree"] = c.degree
    solver = classes[scheme](benchmark(c), mesh_size=c.n, cfl_number=c.cfl, save_history=True, **options)
    work.solve(solver)
    return solver.solution.time_history, solver.solution.value_history


def random_config(rng, problem, scheme, degree=0, conditions=("periodic",)):
    n = work.cells(rng, 4, 20, 0.06, 60 if scheme in work.FE else 400) * (2 if scheme == "coarse" else 1)
    domain = work.random_domain(rng)
    size = n * degree if degree else n
    mild = scheme in ("central", "es", "es1", "lw", "cg", "antidiffusion", "coarse")
    start = float(rng.choice([0.0, rng.uniform(-3, 3)]))
    common = dict(n=n, degree=degree, domain=domain, start=start, steps=int(rng.integers(3, 12)), conditions=conditions,
                  options={}, g=None, bottom=None, inflow=(None, None))
    if problem == "shallow_water":
        g = float(rng.choice([1.0, 9.812, 10 ** rng.uniform(-0.5, 1.5)]))
        if mild:
            x = np.arange(n) / n
            h = 1 + 0.2 * np.sin(2 * np.pi * (x + rng.random()))
            u = 0.3 * np.sqrt(g) * np.sin(2 * np.pi * (x + rng.random()))
        else:
            w = work.random_swe_state(rng, n, froude=1.0)
            h = np.maximum(w[:, 0], 0.1)
            u = w[:, 1] / w[:, 0]
        speed = (np.abs(u) + np.sqrt(g * h)).max() * 1.5
        bottom = np.zeros(n)
        if rng.random() < 0.5 and scheme in ("low-order", "mcl", "es", "es1", "central"):
            bottom = rng.uniform(0, 0.3, n) * h.min()
            if conditions == ("periodic",):  # ghost cells copy the end cells
                bottom[-1] = bottom[0]
        values = np.array([h, h * u]).T
        if "inflow" in conditions:
            w0, w1 = values[0].copy(), values[-1].copy()
            common["inflow"] = (lambda t: w0 * (1 + 0.1 * np.sin(t)), lambda t: w1 * (1 + 0.1 * np.cos(t)))
        if scheme == "antidiffusion":
            common["gamma"] = rng.uniform(0, 0.2)
        if scheme == "coarse":
            common["options"] = {"coarsening_degree": 2}
        common.update(values=values, bottom=bottom, g=g, speed=speed)
    else:
        values = work.random_scalar_state(rng, size)
        if mild:
            values = np.sin(2 * np.pi * (np.arange(size) / size + rng.random())) + 0.3 * rng.normal()
            values *= 10 ** rng.uniform(-1, 1)
        speed = 1.0 if problem == "advection" else np.abs(values).max() + 1e-3
        common.update(values=values, speed=speed)
        if "inflow" in conditions:
            w0, w1 = rng.normal(size=2)
            common["inflow"] = (lambda t: w0 * np.sin(t), lambda t: w1 * np.cos(t))
    courant = rng.uniform(0.1, 0.4)
    if degree:
        courant = rng.uniform(0.01, 0.05)
        if scheme != "cg":
            courant = rng.uniform(0.1, 0.9)  # fraction of the admissible step of this scheme
    c = Config(problem, cfl=courant / speed if not degree or scheme == "cg" else courant, **common)
    if scheme == "antidiffusion":
        c.options = {"gamma": c.gamma * c.speed * (domain[1] - domain[0]) / n}
    if degree and scheme != "cg":
        # end time counted in cells of the mesh; the scheme picks its own step
        c.steps = max(0.55, 0.5 + courant * rng.uniform(0.2, 1) / speed / degree / courant)
    return c


def compare(m, what, scheme, first, second, mapping, factor=1.0, offset=(0.0, 0.0)):
    """second must be MAPPING(first); times t -> offset[1] + factor (t - offset[0])."""
    (t1, v1), (t2, v2) = first, second
    label = f"{scheme}: {what}"
    if not m.check(len(t1) == len(t2), f"{label}: number of steps", first=len(t1), second=len(t2)):
        return
    m.observe(what)
    m.observe("steps compared", len(t1) - 1)
    m.close(t2 - offset[1], factor * (t1 - offset[0]), f"{label}: times", 1e-9, 1e-11 * abs(offset[1]))
    expected = np.array([mapping(v) for v in v1])
    columns = [()] if expected.ndim == 2 else [(Ellipsis, 0), (Ellipsis, 1)]
    growth = max(1.0, np.abs(v1).max() / (np.abs(v1[0]).max() + 1e-300))
    for column in columns:
        m.close(v2[column], expected[column], f"{label}: values", 1e-8, 1e-9 * growth * np.abs(expected).max())


def started(m, c, scheme, key):
    try:
        result = run(c, scheme)
    except ValueError as error:  # unstable or negative heights: nothing to compare
        m.observe("unstable")
        return None
    t, v = result
    m.input(c.problem, scheme, key, v[0], c.cfl, nontrivial=len(v) > 1 and not np.array_equal(v[0], v[-1]),
            sample={"problem": c.problem, "scheme": scheme, "relation": key, "n": c.n, "conditions": c.conditions, "values": v[0][:4]})
    return result


def shifted(m, rng, problem, scheme, degree=0):
    for _ in range(3):
        p = int(rng.integers(1, 4)) if degree else 0
        c = random_config(rng, problem, scheme, p)
        if c.bottom is not None:
            c.bottom = np.zeros(c.n)
        k = int(rng.integers(1, c.n)) if scheme != "coarse" else 2 * int(rng.integers(1, c.n // 2))
        first = started(m, c, scheme, "shift")
        if first is None:
            continue
        d = c.replaced(values=np.roll(c.values, k * max(p, 1), axis=0))
        j = k * max(p, 1) if scheme != "coarse" else k // 2
        compare(m, "shift", f"{problem}/{scheme}", first, run(d, scheme), lambda v: np.roll(v, j, axis=0))


def shifted_bottom(m, rng, scheme):
    """Shifts with a bottom which is equal at both ends before and after."""
    for _ in range(3):
        c = random_config(rng, "shallow_water", scheme)
        k = int(rng.integers(1, c.n))
        bottom = rng.uniform(0, 0.3, c.n) * c.values[:, 0].min()
        bottom[-1] = bottom[0]
        bottom[(-k) % c.n] = bottom[(-k - 1) % c.n]
        bottom[-1] = bottom[0]
        if bottom[(-k) % c.n] != bottom[(-k - 1) % c.n]:
            bottom[(-k - 1) % c.n] = bottom[(-k) % c.n] = bottom[0]
        c.bottom = bottom
        first = started(m, c, scheme, "shift")
        if first is None:
            continue
        d = c.replaced(values=np.roll(c.values, k, axis=0), bottom=np.roll(bottom, k))
        compare(m, "shift", f"swe/{scheme} (bottom)", first, run(d, scheme), lambda v: np.roll(v, k, axis=0))


def translated(m, rng, problem, scheme, degree=0):
    for _ in range(3):
        p = int(rng.integers(1, 4)) if degree else 0
        c = random_config(rng, problem, scheme, p, [("periodic",), ("outflow", "outflow"), ("inflow", "outflow"), ("inflow", "inflow")][0 if degree else rng.integers(4)])
        first = started(m, c, scheme, "translation")
        if first is None:
            continue
        move, wait = rng.uniform(-20, 20), rng.uniform(-2, 2)
        inflow = tuple(None if f is None else (lambda t, f=f: f(t - wait)) for f in c.inflow)
        d = c.replaced(domain=(c.domain[0] + move, c.domain[1] + move), start=c.start + wait, inflow=inflow)
        compare(m, "translation", f"{problem}/{scheme}", first, run(d, scheme), lambda v: v, 1.0, (c.start, c.start + wait))


def reflected(m, rng, problem, scheme, degree=0, conditions=("periodic",)):
    for _ in range(2):
        p = int(rng.integers(1, 4)) if degree else 0
        c = random_config(rng, problem, scheme, p, conditions)
        first = started(m, c, scheme, "reflection")
        if first is None:
            continue
        sign = np.array([1.0, -1.0]) if problem == "shallow_water" else -1.0

        def mirror(v):
            return sign * (v[::-1] if not p else v[-np.arange(len(v)) % len(v)])

        inflow = tuple(None if f is None else (lambda t, f=f: sign * f(t)) for f in c.inflow[::-1])
        d = c.replaced(values=mirror(c.values), inflow=inflow, conditions=c.conditions[::-1],
                       bottom=None if c.bottom is None else c.bottom[::-1])
        compare(m, "reflection", f"{problem}/{scheme}", first, run(d, scheme), mirror)


def scaled(m, rng, problem, scheme, degree=0):
    for _ in range(4):
        p = int(rng.integers(1, 4)) if degree else 0
        conditions = [("periodic",), ("outflow", "outflow"), ("inflow", "outflow")][0 if degree else rng.integers(3)]
        c = random_config(rng, problem, scheme, p, conditions)
        first = started(m, c, scheme, "scaling")
        if first is None:
            continue
        kinds = ["space-time"]
        if problem == "advection":
            kinds += ["values", "affine"] if conditions != ("inflow", "outflow") else ["values"]
        elif problem == "burgers":
            kinds += ["values"]
        else:
            kinds += ["values", "gravity"]
        for kind in kinds:
            s = float(rng.choice([4.0, 0.25, 10 ** rng.uniform(-1.5, 1.5), 10 ** rng.uniform(-5, 5)]))
            time = 1.0  # factor of all times
            if kind == "space-time":
                a, b = c.domain
                d = c.replaced(domain=(a * s, b * s))
                time, mapping = s, (lambda v: v)
                if scheme == "antidiffusion":
                    d.options = {"gamma": c.options["gamma"] * s}
            elif kind == "values" and problem == "shallow_water":
                r = np.sqrt(s)
                factor = np.array([s, s * r])
                time, mapping = 1 / r, (lambda v: v * factor)
                d = c.replaced(values=c.values * factor, bottom=c.bottom * s, cfl=c.cfl / r)
                if scheme == "antidiffusion":
                    d.options = {"gamma": c.options["gamma"] * r}
            elif kind == "gravity":
                r = np.sqrt(s)
                factor = np.array([1.0, r])
                time, mapping = 1 / r, (lambda v: v * factor)
                d = c.replaced(values=c.values * factor, g=c.g * s, cfl=c.cfl / r)
                if scheme == "antidiffusion":
                    d.options = {"gamma": c.options["gamma"] * r}
            elif kind == "values" and problem == "advection":
                s = s * rng.choice([-1.0, 1.0])
                mapping = lambda v: v * s
                d = c.replaced(values=c.values * s)
            elif kind == "affine":
                shift = float(rng.normal() * np.abs(c.values).max())
                mapping = lambda v: v + shift
                d = c.replaced(values=c.values + shift)
            else:  # burgers values
                time, mapping = 1 / s, (lambda v: v * s)
                # cg-low and mcl-fem derive their step from the values
                d = c.replaced(values=c.values * s, cfl=c.cfl / s if not p or scheme == "cg" else c.cfl)
            if scheme == "lw" and kind != "space-time":
                continue  # its diffusion compares a time step with a length
            start = c.start * time
            d.start = start
            if p and scheme != "cg" and time != 1.0 and kind == "values":
                d.steps = 0.5 + (c.steps - 0.5) * time
            if any(c.inflow):
                d.inflow = tuple(None if f is None else (lambda t, f=f: mapping(np.asarray(f(t / time))) if problem == "shallow_water" else float(mapping(f(t / time)))) for f in c.inflow)
            try:
                second = run(d, scheme)
            except ValueError as error:
                m.fail(f"{problem}/{scheme}: scaled run fails", kind=kind, error=repr(error))
                continue
            compare(m, "scaling", f"{problem}/{scheme} ({kind})", first, second, mapping, time, (c.start, start))


def build(plan):
    bc = [("periodic",), ("outflow", "outflow"), ("inflow", "outflow"), ("outflow", "inflow"), ("inflow", "inflow")]
    for problem in ("advection", "burgers"):
        for scheme in work.SCALAR_FV:
            plan.case(f"shift/{problem}/{scheme}", shifted, problem, scheme)
            plan.case(f"translation/{problem}/{scheme}", translated, problem, scheme)
            plan.case(f"scaling/{problem}/{scheme}", scaled, problem, scheme)
        for scheme in work.FE:
            plan.case(f"shift/{problem}/{scheme}", shifted, problem, scheme, 1)
            plan.case(f"translation/{problem}/{scheme}", translated, problem, scheme, 1)
            plan.case(f"scaling/{problem}/{scheme}", scaled, problem, scheme, 1)
    for scheme in work.SCALAR_FV:
        for conditions in bc:
            plan.case(f"reflection/burgers/{scheme}/{'-'.join(conditions)}", reflected, "burgers", scheme, 0, conditions)
    for scheme in work.FE:
        plan.case(f"reflection/burgers/{scheme}", reflected, "burgers", scheme, 1)
    for scheme in work.SWE:
        plan.case(f"shift/swe/{scheme}", shifted, "shallow_water", scheme)
        plan.case(f"translation/swe/{scheme}", translated, "shallow_water", scheme)
        plan.case(f"scaling/swe/{scheme}", scaled, "shallow_water", scheme)
        for conditions in bc + [("wall", "wall"), ("wall", "outflow")]:
            plan.case(f"reflection/swe/{scheme}/{'-'.join(conditions)}", reflected, "shallow_water", scheme, 0, conditions)
    for scheme in ("low-order", "mcl", "es", "es1", "central"):
        plan.case(f"shift-bottom/{scheme}", shifted_bottom, scheme)
