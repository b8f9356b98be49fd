"""C09: boundary conditions act as their extended domain."""
import core
import finite_volume.shallow_water as swe
import numpy as np

import ref
import work

RULE = (
    "random cell values, radii 1-4, every pair of conditions, random times and inflow functions; the neighbour arrays are "
    "compared cell by cell with an explicitly continued vector, right-hand sides with those of an enlarged domain, runs with walls "
    "with runs on the mirrored domain and runs on two domains inside the common domain of dependence; hooks record at which "
    "times and states inflow data are requested. Non-trivial: non-constant cell values."
)
QUICK_ROUNDS = 16
REQUIRE = {"neighbours": 500, "enlarged right-hand side": 200, "mirrored run": 40, "domain of dependence": 100, "inflow requests": 500, "rejected": 30}

SCALAR = ["periodic", "outflow", "inflow"]
SHALLOW = SCALAR + ["wall"]


def pairs(conditions):
    result = [("periodic",)]
    result += [(a, b) for a in conditions[1:] for b in conditions[1:]]
    return result


def neighbours(m, rng, kind):
    for conditions in pairs(SHALLOW if kind == "shallow_water" else SCALAR):
        for _ in range(3):
            radius = int(rng.integers(1, 5))
            n = int(rng.integers(radius, radius + 12))
            u = rng.normal(size=(n, 2) if kind != "scalar" else n) * work.magnitude(rng)
            requested = []

            def make(side):
                scale = rng.normal(size=2) if kind != "scalar" else rng.normal()

                def inflow(t):
                    requested.append((side, t))
                    return scale * np.cos(t)

                return inflow

            inflow = (make(0), make(1))
            build = swe.get_boundary_conditions if kind == "shallow_water" else core.get_boundary_conditions
            boundary = build(*conditions, radius=radius, inflow_left=inflow[0], inflow_right=inflow[1])
            t = float(rng.uniform(-3, 3))
            before = u.copy()
            values = boundary.get_node_neighbours(u, radius=radius, time=t)
            times = {s for _, s in requested}
            m.check(times <= {t}, f"{kind}: inflow data are requested at the present time", times=times, time=t)
            m.check(
                {s for s, _ in requested} == {i for i, c in enumerate(conditions * 2) if c == "inflow" and i < 2},
                f"{kind}: inflow data are requested where prescribed", requested=requested, conditions=conditions)
            m.observe("inflow requests", len(requested))
            m.check(np.array_equal(u, before), f"{kind}: cell values unchanged")
            expected = ref.extend(u, conditions, radius, t, inflow)
            m.input(kind, conditions, radius, u, t, nontrivial=n > 1, sample={"conditions": conditions, "radius": radius, "n": n, "time": t})
            m.check(len(values) == 2 * radius, f"{kind}: number of neighbours", number=len(values), radius=radius)
            for k, value in enumerate(values):
                m.observe("neighbours")
                m.close(value, [expected[node + k] for node in range(n + 1)], f"{kind}: values seen from the nodes", 0.0, conditions=conditions, radius=radius, k=k)
            m.check(boundary.periodic == (conditions == ("periodic",)), f"{kind}: periodic flag", conditions=conditions)
            if radius == 1 or conditions == ("periodic",):
                cell_neighbours(m, rng, boundary, conditions, n, radius, kind)


def cell_neighbours(m, rng, boundary, conditions, n, radius, kind):
    """Node values left and right of every (also ghost) cell."""
    nodes = n + 2 * radius - 1
    shape = (nodes,) if rng.random() < 0.5 else (nodes, 2)
    if len(shape) == 2 and conditions != ("periodic",):
        shape = (nodes,)
    left, right = (rng.normal(size=shape) * work.magnitude(rng) for _ in range(2))
    single = rng.random() < 0.3
    l, r = boundary.get_cell_neighbours(left.copy()) if single else boundary.get_cell_neighbours(left.copy(), right.copy())
    right = left if single else right
    m.observe("neighbours", 2)
    # extended cell c lies between the nodes c-1 and c; values right of a node belong to the cell right of it
    periodic = conditions == ("periodic",)
    first = right[-1 + n] if periodic else np.full(shape[1:], np.nan)
    last = left[nodes - n] if periodic else np.full(shape[1:], np.nan)
    m.close_each(l, np.array([first, *right]), f"{kind}: node values left of the cells", 0.0, conditions=conditions, radius=radius)
    m.close_each(r, np.array([*left, last]), f"{kind}: node values right of the cells", 0.0, conditions=conditions, radius=radius)


def rejected(m, rng):
    build, build_swe = core.get_boundary_conditions, swe.get_boundary_conditions
    f = lambda t: 0.0
    for _ in range(4):
        side = rng.permutation(2)
        name = rng.choice(["", "Periodic", "outflows", "reflect", "in flow", "none"])
        other = rng.choice(["outflow", "inflow"])
        pair = [name, other] if side[0] else [other, name]
        for builder, label in ((build, "scalar"), (build_swe, "shallow water")):
            m.raises(lambda: builder(*pair, inflow_left=f, inflow_right=f), ValueError, f"{label}: unknown conditions are rejected", conditions=pair)
            m.raises(lambda: builder("inflow", "outflow", inflow_right=f), ValueError, f"{label}: missing inflow data are rejected")
            m.raises(lambda: builder("outflow", "inflow", inflow_left=f), ValueError, f"{label}: missing inflow data are rejected")
            m.observe("rejected", 3)
        m.raises(lambda: build(*(["wall", other] if side[0] else [other, "wall"]), inflow_left=f, inflow_right=f), ValueError, "scalar: walls are rejected")
        m.observe("rejected")
        m.input("rejected", pair)
        for bad in (("wall", "outflow"), ("outflow", "wall")):
            bench = work.ScalarBenchmark("burgers", lambda x: 1.0, conditions=bad)
            m.raises(lambda: work.SCALAR_FV["llf"](bench, mesh_size=5), ValueError, "scalar solver: walls are rejected")
            m.observe("rejected")


def _bench(problem, rng, conditions, domain, inflow, g, bottom=None):
    if problem == "shallow_water":
        return work.SWEBenchmark(lambda x: np.array([1.0, 0.0]), domain, 1.0, 0.0, conditions, inflow, g, bottom)
    return work.ScalarBenchmark(problem, lambda x: 0.0, domain, 1.0, 0.0, conditions, inflow)


def _state(problem, rng, n):
    return work.random_swe_state(rng, n) if problem == "shallow_water" else work.random_scalar_state(rng, n)


def enlarged(m, rng, problem, scheme):
    """Right-hand side = that of the domain continued by the ghost values."""
    classes = work.SWE if problem == "shallow_water" else work.SCALAR_FV
    for conditions in pairs(SHALLOW if problem == "shallow_water" else SCALAR):
        n = work.cells(rng, 3, 16, 0.08, 300)
        extra = int(rng.integers(1, 4))
        g = float(rng.uniform(1, 10))
        u = _state(problem, rng, n)
        w = _state(problem, rng, 2)
        inflow = (lambda t: w[0] * (1 + 0.2 * np.sin(t)), lambda t: w[1] * (1 + 0.2 * np.cos(t)))
        options = {"gamma": 0.1} if scheme == "antidiffusion" else {}
        first = work.rhs_of(classes[scheme](_bench(problem, rng, conditions, (0.0, float(n)), inflow, g), mesh_size=n, **options))
        other = ("outflow", "outflow") if rng.random() < 0.5 else ("periodic",)
        size = n + 2 * extra
        second = work.rhs_of(classes[scheme](_bench(problem, rng, other, (-float(extra), float(n + extra)), (None, None), g), mesh_size=size, **options))
        if scheme == "lw":
            first.set_time_step(0.1), second.set_time_step(0.1)
        t = float(rng.uniform(0, 5))
        radius = 1
        continued = ref.extend(u, conditions, radius, t, inflow)
        outside = _state(problem, rng, size)
        v = np.concatenate([outside[: extra - radius], continued, outside[size - extra + radius:]])
        expected = second(0.0, v)[extra : extra + n]
        m.input(problem, scheme, conditions, u, t, sample={"problem": problem, "scheme": scheme, "conditions": conditions, "n": n})
        m.observe("enlarged right-hand side")
        m.close(first(t, u.copy()), expected, f"{problem}/{scheme}: right-hand side equals that of the enlarged domain", 1e-10, 1e-11 * np.abs(u).max(), conditions=conditions)


def both_sides(m, rng, problem, scheme):
    """Conditions may be given once or for each side."""
    classes = work.SWE if problem == "shallow_water" else work.SCALAR_FV
    build = swe.get_boundary_conditions if problem == "shallow_water" else core.get_boundary_conditions
    names = SHALLOW if problem == "shallow_water" else SCALAR
    for name in ["periodic", "periodic", *names[1:]]:
        n, g, t = work.cells(rng, 3, 16), float(rng.uniform(1, 10)), float(rng.uniform(-2, 2))
        u = _state(problem, rng, n)
        w = _state(problem, rng, 2)
        inflow = (lambda t: w[0] * (1 + 0.2 * np.sin(t)), lambda t: w[1] * (1 + 0.2 * np.cos(t)))
        options = {"gamma": 0.1} if scheme == "antidiffusion" else {}
        results = []
        for conditions in ((name,), (name, name)):
            right = work.rhs_of(classes[scheme](_bench(problem, rng, conditions, (0.0, float(n)), inflow, g), mesh_size=n, **options))
            if scheme == "lw":
                right.set_time_step(0.1)
            radius = 2
            boundary = build(*conditions, radius=radius, inflow_left=inflow[0], inflow_right=inflow[1])
            nodes = np.arange(n + 2 * radius - 1.0)
            results.append([right(t, u.copy()), *boundary.get_node_neighbours(u, radius=radius, time=t), *(np.nan_to_num(x, nan=1e3) for x in boundary.get_cell_neighbours(nodes, -nodes)), float(boundary.periodic)])
        m.input(problem, scheme, "both sides", name, u)
        m.observe("neighbours", 2 * radius)
        for k, (a, b) in enumerate(zip(*results)):
            m.close(b, a, f"{problem}/{scheme}: conditions given for each side", 1e-14, k=k, n=n, name=name)


def mirrored(m, rng, scheme):
    """Walls on both sides: the run on the mirrored periodic domain."""
    for _ in range(3):
        n = work.cells(rng, 3, 14, 0.08, 300)
        g = float(rng.uniform(1, 10))
        mild = scheme in ("es", "central", "antidiffusion", "lw", "es1")
        u = work.random_swe_state(rng, n, froude=0.5)
        if mild:
            x = (np.arange(n) + 0.5) / n
            h = 1 + 0.2 * np.cos(np.pi * x * rng.integers(1, 3))
            u = np.array([h, 0.3 * h * np.sin(np.pi * x * rng.integers(1, 3))]).T
        bottom = rng.uniform(0, 0.3, n) * u[:, 0].min() if scheme in ("low-order", "es", "es1", "central", "llf") and rng.random() < 0.6 else np.zeros(n)
        both = np.concatenate([u[::-1] * [1, -1], u])
        both_bottom = np.concatenate([bottom[::-1], bottom])
        speed = (np.abs(u[:, 1] / u[:, 0]) + np.sqrt(g * u[:, 0])).max() * 1.5
        cfl = rng.uniform(0.05, 0.3) / speed
        steps = int(rng.integers(3, 10))
        end = (steps - 0.5) * cfl
        table = lambda values, a: (lambda x: values[min(len(values) - 1, max(0, int(np.floor(x - a))))])
        options = {"gamma": 0.05 * speed} if scheme == "antidiffusion" else {}
        one = work.SWEBenchmark(lambda x: table(u, 0)(x).copy(), (0.0, float(n)), end, 0.0, ("wall", "wall"), (None, None), g, table(bottom, 0))
        two = work.SWEBenchmark(lambda x: table(both, -n)(x).copy(), (-float(n), float(n)), end, 0.0, ("periodic",), (None, None), g, table(both_bottom, -n))
        runs = []
        try:
            for bench, size in ((one, n), (two, 2 * n)):
                solver = work.SWE[scheme](bench, mesh_size=size, cfl_number=cfl, save_history=True, **options)
                runs.append(work.solve(solver).solution.value_history)
        except ValueError:
            m.observe("unstable")
            continue
        m.input(scheme, u, g, bottom, sample={"scheme": scheme, "n": n, "steps": steps})
        m.observe("mirrored run")
        m.close(runs[0], runs[1][:, n:], f"{scheme}: walls act as the mirrored domain", 1e-8, 1e-9 * np.abs(u).max())


def dependence(m, rng, problem, scheme):
    """Two domains with the same inner values: equal where no information from outside arrives."""
    classes = work.SWE if problem == "shallow_water" else work.SCALAR_FV
    for _ in range(4):
        steps = int(rng.integers(1, 4))
        stages = 1 if scheme == "lw" else 2
        reach = steps * stages * (2 if "mcl" in scheme else 1)
        n = 2 * reach + int(rng.integers(3, 12))
        pads = rng.integers(0, 6, 2)
        g = float(rng.uniform(1, 10))
        size = n + int(pads.sum())
        u = _state(problem, rng, size)
        if problem == "shallow_water":
            u[:, 0] = np.maximum(u[:, 0], 0.2)
            u[:, 1] = np.clip(u[:, 1], -1, 1) * u[:, 0]
            speed = 1 + np.sqrt(g * u[:, 0].max()) * 2
        else:
            speed = max(1.0, np.abs(u).max())
        bottom = rng.uniform(0, 0.1, size) if scheme in ("low-order", "mcl", "es", "es1") and rng.random() < 0.5 else np.zeros(size)
        cfl = 0.2 / speed
        end = (steps - 0.5) * cfl
        names = SHALLOW if problem == "shallow_water" else SCALAR
        table = lambda values: (lambda x: values[min(size - 1, max(0, int(np.floor(x))))])
        options = {"gamma": 0.05 * speed} if scheme == "antidiffusion" else {}
        runs, used = [], []
        try:
            for a, b in ((0, size), (int(pads[0]), int(pads[0]) + n)):
                conditions = pairs(names)[rng.integers(len(pairs(names)))]
                used.append(conditions)
                w = _state(problem, rng, 2) if problem != "shallow_water" else np.array([[1.0, 0.2], [0.5, -0.1]])
                inflow = (lambda t: w[0], lambda t: w[1])
                if problem == "shallow_water":
                    bench = work.SWEBenchmark(lambda x: table(u)(x).copy(), (a, b), end, 0.0, conditions, inflow, g, table(bottom))
                else:
                    bench = work.ScalarBenchmark(problem, lambda x: float(table(u)(x)), (a, b), end, 0.0, conditions, inflow)
                solver = classes[scheme](bench, mesh_size=b - a, cfl_number=cfl, **options)
                runs.append(work.solve(solver).solution.value)
        except ValueError:
            m.observe("unstable")
            continue
        m.input(problem, scheme, u, used, sample={"problem": problem, "scheme": scheme, "conditions": used, "n": n})
        m.observe("domain of dependence")
        outer = runs[0][pads[0] + reach : pads[0] + n - reach]
        inner = runs[1][reach : n - reach]
        m.close(inner, outer, f"{problem}/{scheme}: inner values do not depend on far boundaries", 1e-10, 1e-11 * np.abs(u).max(), conditions=used)


def inflow_times(m, rng, problem, scheme):
    """Inflow data are evaluated at the time nodes of the ODE solver, with the benchmark's functions."""
    classes = work.SWE if problem == "shallow_water" else work.SCALAR_FV
    for _ in range(3):
        requested = []
        base = np.array([1.0, 0.1]) if problem == "shallow_water" else 0.5

        def left(t):
            requested.append(("left", t))
            return base * (1 + 0.01 * np.sin(t))

        def right(t):
            requested.append(("right", t))
            return base * (1 + 0.01 * np.cos(t))

        conditions = [("inflow", "outflow"), ("outflow", "inflow"), ("inflow", "inflow")][rng.integers(3)]
        start = float(rng.uniform(-3, 3))
        n = int(rng.integers(4, 12))
        cfl = 0.02
        end = start + 5.5 * cfl / n
        if problem == "shallow_water":
            bench = work.SWEBenchmark(lambda x: base.copy(), (0, 1), end, start, conditions, (left, right), 2.0)
        else:
            bench = work.ScalarBenchmark(problem, lambda x: base, (0, 1), end, start, conditions, (left, right))
        options = {}
        if scheme in ("llf", "central") and problem == "shallow_water" or scheme in ("mcl", "mcl-fv"):
            options["ode_solver_type"] = work.ODE[rng.choice(list(work.ODE))]
        solver = classes[scheme](bench, mesh_size=n, cfl_number=cfl, **options)
        nodes = []
        ode = solver.as_dict()["ode_solver"]
        execute = ode.execute

        def hooked(dt):
            execute(dt)
            nodes.extend(ode.time_nodes)

        ode.execute = hooked
        work.solve(solver)
        m.input(problem, scheme, conditions, start, n)
        m.observe("inflow requests", len(requested))
        for side, name in (("left", conditions[0]), ("right", conditions[1])):
            times = [t for s, t in requested if s == side]
            if name != "inflow":
                m.check(not times, f"{problem}/{scheme}: no inflow data needed", side=side)
                continue
            ok = len(set(times)) > 0 and all(np.isclose(nodes, t, rtol=0, atol=1e-13).any() for t in times) and all(np.isclose(times, t, rtol=0, atol=1e-13).any() for t in nodes)
            m.check(ok, f"{problem}/{scheme}: inflow data belong to the stage times", times=times, nodes=nodes)


def build(plan):
    for kind in ("scalar", "shallow_water", "vector"):
        plan.case(f"neighbours/{kind}", neighbours, kind)
    plan.case("rejected", rejected)
    for problem in ("advection", "burgers"):
        for scheme in ("llf", "central"):
            plan.case(f"enlarged/{problem}/{scheme}", enlarged, problem, scheme)
        for scheme in work.SCALAR_FV:
            plan.case(f"dependence/{problem}/{scheme}", dependence, problem, scheme)
            plan.case(f"both sides/{problem}/{scheme}", both_sides, problem, scheme)
            plan.case(f"inflow/{problem}/{scheme}", inflow_times, problem, scheme)
    for scheme in ("llf", "lw", "low-order", "central", "es", "es1", "antidiffusion"):
        plan.case(f"enlarged/swe/{scheme}", enlarged, "shallow_water", scheme)
        plan.case(f"mirrored/{scheme}", mirrored, scheme)
    for scheme in work.SWE:
        if scheme != "coarse":
            plan.case(f"dependence/swe/{scheme}", dependence, "shallow_water", scheme)
            plan.case(f"both sides/swe/{scheme}", both_sides, "shallow_water", scheme)
            plan.case(f"inflow/swe/{scheme}", inflow_times, "shallow_water", scheme)
