"""C06: explicit Runge-Kutta methods realise their tableau and order."""
from functools import lru_cache

import core
import numpy as np

import work

RULE = (
    "right-hand sides which answer the j-th evaluation with the j-th unit vector reveal the executed tableau through "
    "public results; it must satisfy all rooted-tree order conditions up to the nominal order and (orders 1-3) equal "
    "the documented tableau. Recording right-hand sides (random nonlinear systems, scalars, vectors, matrices) compare "
    "every evaluation of long execute / reinitialize histories with a textbook integrator. Non-trivial: all."
)
QUICK_ROUNDS = 30
REQUIRE = {"tableau": 100, "order conditions": 2000, "steps compared": 2000, "convergence": 20, "whole data": 20}

METHODS = {
    "euler": (core.ForwardEuler, 1, ([[0]], [1])),
    "heun": (core.Heun, 2, ([[0, 0], [1, 0]], [0.5, 0.5])),
    "ssp3": (core.StrongStabilityPreservingRungeKutta3, 3, ([[0, 0, 0], [1, 0, 0], [0.25, 0.25, 0]], [1 / 6, 1 / 6, 2 / 3])),
    "rk8": (core.RungeKutta8, 8, None),
}


@lru_cache(None)
def trees(order):
    """Rooted trees with ORDER vertices as sorted tuples of subtrees."""
    if order == 1:
        return ((),)
    found = set()

    def extend(rest, maximal, children):
        if rest == 0:
            found.add(tuple(sorted(children)))
            return
        for size in range(min(rest, maximal), 0, -1):
            for tree in trees(size):
                extend(rest - size, size, children + [tree])

    extend(order - 1, order - 1, [])
    return tuple(sorted(found))


def order_of(tree):
    return 1 + sum(map(order_of, tree))


def density(tree):
    result = order_of(tree)
    for child in tree:
        result *= density(child)
    return result


def weight(tree, A):
    result = np.ones(len(A))
    for child in tree:
        result = result * (A @ weight(child, A))
    return result


def extract(method, rng, dt, time=0.0, dimension=20):
    """Executes one step and reads the tableau off the recorded events."""
    evaluations = []

    def rhs(t, x):
        evaluations.append((t, np.array(x)))
        unit = np.zeros(dimension)
        unit[len(evaluations) - 1] = 1.0
        return unit

    start = np.zeros(dimension)
    ode = method(rhs, start, initial_time=time)
    ode.execute(dt)
    s = len(evaluations)
    A = np.array([x / dt for _, x in evaluations])
    c = np.array([(t - time) / dt for t, _ in evaluations])
    b = np.asarray(ode.solution) / dt
    return ode, evaluations, A, b, c, s


def tableau(m, rng, name):
    method, order, documented = METHODS[name]
    for _ in range(5):
        dt = float(10 ** rng.uniform(-3, 1) * rng.choice([1, 1, 1]))
        time = float(rng.choice([0.0, rng.uniform(-2, 2) * dt]))
        ode, evaluations, A, b, c, s = extract(method, rng, dt, time)
        m.input(name, dt, time, sample={"method": name, "dt": dt, "c": c})
        m.observe("tableau")
        m.close(ode.time, time + dt, f"{name}: advances time by the step", 0.0, 4e-16 * (abs(time) + dt))
        m.close(A[:, s:], np.zeros((s, 20 - s)), f"{name}: stages", 0.0)
        m.close(b[s:], np.zeros(20 - s), f"{name}: weights", 0.0)
        m.check((np.triu(A[:, :s]) == 0).all(), f"{name}: explicit", A=A)
        A, b = A[:, :s], b[:s]
        m.close(A.sum(axis=1), c, f"{name}: nodes", 0.0, 1e-12)
        if documented:
            m.close(A, documented[0], f"{name}: documented matrix", 1e-13)
            m.close(b, documented[1], f"{name}: documented weights", 1e-13)
            m.close(c, np.sum(documented[0], axis=1), f"{name}: documented nodes", 0.0, 1e-12)
        else:
            m.check(s == 11, f"{name}: stages", stages=s)
        for k in range(1, order + 1):
            for tree in trees(k):
                m.observe("order conditions")
                m.close(b @ weight(tree, A), 1 / density(tree), f"{name}: order condition of order {k}", 0.0, 1e-12, tree=repr(tree))
        m.close(ode.stage_values, [x for _, x in evaluations], f"{name}: stage values are those evaluated", 0.0, 1e-15)
        m.close(ode.time_nodes, [t for t, _ in evaluations], f"{name}: time nodes are those evaluated", 0.0, 1e-15)


def problem(rng):
    """Random non-autonomous nonlinear system and its initial value."""
    kind = rng.integers(4)
    w, p, q = rng.normal(size=3)
    if kind == 0:
        x0 = float(rng.normal()) if rng.random() < 0.7 else int(rng.integers(-3, 4))
        return lambda t, x: np.sin(w * t + p) * x - 0.3 * x * abs(x) + q, x0
    shape = [(1,), (int(rng.choice([2, 5, 7, 40])),), (int(rng.choice([3, 6, 30])), 2)][kind - 1]
    C = rng.normal(size=(shape[0], shape[0])) / shape[0]
    x0 = start(rng, shape)
    if rng.random() < 0.15:  # oscillations in complex notation
        z0 = x0 + 1j * start(rng, shape)
        return lambda t, x: 1j * w * x + np.cos(p * t) * (C @ x) + q, z0
    if rng.random() < 0.15:  # e.g. jumps from 1 to 0
        return lambda t, x: np.cos(w * t) * (C @ x) + q * np.sin(x + p * t), integers(rng, shape)
    unit = float(rng.choice([1.0, 1.0, 10 ** rng.uniform(-6, 6)]))
    return lambda t, x: unit * (np.cos(w * t) * (C @ (x / unit)) - 0.2 * (x / unit) * np.abs(x / unit) + q * np.sin(x / unit + p * t)), unit * x0


def start(rng, shape):
    x0 = rng.normal(size=shape)
    kind = rng.integers(6)
    if kind == 0:
        return np.abs(x0)
    if kind == 1:
        return -np.abs(x0)
    if kind == 2:
        return np.zeros(shape)
    if kind == 3:
        return np.full(shape, rng.normal())
    return x0


def integers(rng, shape):
    return rng.integers(0, 2, shape) if rng.random() < 0.5 else rng.integers(-5, 6, shape)


def kind_of(x):
    """Type of the textbook integrator's numbers."""
    return complex if np.iscomplexobj(x) else float


def histories(m, rng, name):
    """Every evaluation of random histories equals that of a textbook integrator."""
    method, order, documented = METHODS[name]
    if documented:
        A, b = np.array(documented[0], float), np.array(documented[1], float)
    else:
        _, _, A, b, _, s = extract(method, rng, 1.0)
        A, b = A[:, :s], b[:s]
    c, s = A.sum(axis=1), len(b)
    for _ in range(8):
        f, x0 = problem(rng)
        calls = []

        def rhs(t, x):
            calls.append((t, np.array(x, copy=True)))
            return f(t, x)

        t0 = float(rng.choice([0.0, rng.uniform(-5, 5), rng.uniform(-100, 100)]))
        unit = max(np.abs(x0).max(), 1e-300)
        whole = np.asarray(x0).dtype.kind == "i"
        given = np.array(x0, copy=True) if isinstance(x0, np.ndarray) else x0
        if t0 == 0.0 and rng.random() < 0.5:
            ode = method(rhs, given)
        else:
            ode = method(rhs, given, initial_time=t0)
        t, x = t0, np.array(x0, dtype=kind_of(x0))
        for number in range(int(rng.integers(3, 15))):
            if number and rng.random() < 0.2:
                x0 = unit * start(rng, x.shape) if x.shape else float(rng.normal())
                if whole and rng.random() < 0.5:
                    x0 = integers(rng, x.shape) if x.shape else int(rng.integers(-3, 4))
                elif np.iscomplexobj(x):
                    x0 = x0 * np.exp(1j * rng.normal())
                t0 = float(rng.choice([0.0, rng.uniform(-5, 5)]))
                given = np.array(x0, copy=True) if isinstance(x0, np.ndarray) else x0
                ode.reinitialize(given, t0) if t0 or rng.random() < 0.5 else ode.reinitialize(given)
                t, x = t0, np.array(x0, dtype=kind_of(x))
                m.close(ode.solution, x, f"{name}: value after reinitialize", 0.0)
                m.check(ode.time == t, f"{name}: time after reinitialize", time=ode.time, expected=t)
                m.observe("reinitialize")
            dt = float(10 ** rng.uniform(-4, -0.3))
            calls.clear()
            ode.execute(dt)
            stages, values = [], []
            for i in range(s):
                value = x + dt * sum((A[i, j] * stages[j] for j in range(i)), np.zeros(x.shape))
                values.append(value)
                stages.append(f(t + c[i] * dt, value))
            scale = np.abs(values).max() + max(np.abs(stages).max() * dt, 1e-300)
            m.check(len(calls) == s, f"{name}: one evaluation per stage", evaluations=len(calls), stages=s)
            m.close([v for _, v in calls], values, f"{name}: evaluated stages", 0.0, 1e-12 * scale)
            m.close([u for u, _ in calls], t + c * dt, f"{name}: evaluation times", 0.0, 1e-13 * (1 + abs(t)))
            x = x + dt * sum(b[i] * stages[i] for i in range(s))
            t = t + dt
            m.close(ode.solution, x, f"{name}: new value", 0.0, 1e-12 * scale)
            m.close(ode.time, t, f"{name}: new time", 0.0, 1e-13 * (1 + abs(t)))
            m.close(ode.stage_values, values, f"{name}: stage values", 0.0, 1e-12 * scale)
            m.close(ode.time_nodes, t - dt + c * dt, f"{name}: time nodes", 0.0, 1e-13 * (1 + abs(t)))
            # continue from the recorded value: no drift of the comparison
            t, x = ode.time, np.array(ode.solution, dtype=kind_of(x), copy=True)
            m.observe("steps compared")
        m.check(np.array_equal(given, x0), f"{name}: initial value of the caller unchanged", given=given, x0=x0)
        m.input(name, np.asarray(x0), t0, sample={"method": name, "t0": t0})


def polynomials(m, rng, name):
    """x' = q(t) with deg q < order is integrated exactly."""
    method, order, _ = METHODS[name]
    for _ in range(8):
        degree = int(rng.integers(0, order))
        q = np.polynomial.Polynomial(rng.normal(size=degree + 1))
        t0 = float(rng.uniform(-1, 1))
        ode = method(lambda t, x: np.array([q(t)]), np.array([1.0]), initial_time=t0)
        for dt in rng.uniform(0.05, 0.5, 6):
            ode.execute(float(dt))
            Q = q.integ()
            m.close(ode.solution, [1 + Q(ode.time) - Q(t0)], f"{name}: polynomials are integrated exactly", 1e-11, 1e-11, degree=degree)
        m.input(name, q.coef, t0)


def convergence(m, rng, name):
    """Error slopes on problems with known solutions."""
    method, order, _ = METHODS[name]
    for _ in range(4):
        w, phase, x0 = rng.uniform(0.5, 1.5), rng.uniform(0, 1.5), rng.uniform(0.5, 1.5)
        t0 = float(rng.uniform(-1, 1))
        kind = rng.integers(2)
        if kind == 0:  # x' = x cos(wt + phase)
            f = lambda t, x: x * np.cos(w * t + phase)
            exact = lambda t: x0 * np.exp((np.sin(w * t + phase) - np.sin(w * t0 + phase)) / w)
        else:  # x' = -w x^2 + ... logistic
            f = lambda t, x: w * x * (1 - x / 2)
            exact = lambda t: 2 / (1 + (2 / x0 - 1) * np.exp(-w * (t - t0)))
        length = 1.5 if order < 8 else 3.0
        counts = (20, 40, 80) if order < 8 else (2, 3, 4)
        errors = []
        for n in counts:
            ode = method(f, x0, initial_time=t0)
            error = 0.0  # over the whole run: single errors may vanish by chance
            for _ in range(n):
                ode.execute(length / n)
                error = max(error, abs(ode.solution - exact(ode.time)))
            errors.append(error)
        m.input(name, w, phase, x0, t0)
        m.observe("convergence")
        if order == 8:
            m.check(errors[-1] < 3e-5, f"{name}: accuracy of order 8", errors=errors)
            continue
        rate = np.log2(errors[-2] / errors[-1])
        m.check(rate > order - 0.35, f"{name}: observed order", errors=errors, rate=rate)


def whole_data(m, rng):
    """Solvers treat data given by whole numbers as they treat equal floats."""
    for name, solver in {**work.FE, **work.SCALAR_FV}.items():
        n = int(rng.integers(4, 12))
        values = integers(rng, n)
        a, b = work.random_domain(rng)
        locate = lambda x: int(values[min(max(int((x - a) / (b - a) * n), 0), n - 1)])
        length = (b - a) / n
        problem = str(rng.choice(["advection", "burgers"]))
        runs = []
        for data in (locate, lambda x: float(locate(x))):
            benchmark = work.ScalarBenchmark(problem, data, (a, b), 0.2 * length / 5, 0.0)
            runs.append(work.solve(solver(benchmark, mesh_size=n, cfl_number=0.1, save_history=True)))
        m.input(name, problem, values, a, b, sample={"solver": name, "values": values})
        m.observe("whole data")
        m.close(runs[0].solution.time_history, runs[1].solution.time_history, f"{name}: times", 0.0)
        m.close(runs[0].solution.value_history, runs[1].solution.value_history, f"{name}: values from whole numbers", 1e-13)


def build(plan):
    plan.case("whole data", whole_data)
    for name in METHODS:
        plan.case(f"tableau/{name}", tableau, name)
        plan.case(f"history/{name}", histories, name)
        plan.case(f"history2/{name}", histories, name)
        plan.case(f"polynomials/{name}", polynomials, name)
        plan.case(f"convergence/{name}", convergence, name)
