"""C16: exact solutions solve the equations with the given initial data."""

import numpy as np
from benchmark import advection, burgers, shallow_water


RULE = (
    "every exact solution of the benchmark modules (with random end times and parameters): initial data at random points, "
    "the conservation law integrated over random space-time boxes by adaptive quadrature which locates jumps, the "
    "characteristic / steady state equations at random points, periodicity; end times beyond shock formation and benchmarks "
    "without exact solution must be rejected. Non-trivial: boxes with positive duration."
)
QUICK_ROUNDS = 2
REQUIRE = {"boxes": 70, "points near the shock": 3000, "points": 1000, "rejections": 100}
NODES, WEIGHTS = np.polynomial.legendre.leggauss(8)


def integrate(f, a, b, tol):
    """Adaptive Gauss quadrature; halves the interval around jumps and kinks."""
    def rule(a, b):
        return sum(w * np.asarray(f((a + b) / 2 + (b - a) / 2 * x)) for w, x in zip(WEIGHTS, NODES)) * (b - a) / 2

    def split(a, b, whole, depth):
        mid = (a + b) / 2
        left, right = rule(a, mid), rule(mid, b)
        if depth >= 18 or (depth >= 5 and np.abs(left + right - whole).max() <= tol):
            return left + right
        return split(a, mid, left, depth + 1) + split(mid, b, right, depth + 1)

    # locate jumps first: Gauss nodes do not reach the ends of the interval
    points = np.linspace(a, b, 401)
    values = [np.atleast_1d(f(x)) for x in points]
    steps = np.array([np.abs(v - w).max() for v, w in zip(values, values[1:])])
    pieces = [a]
    for i in np.flatnonzero(steps > 0.05 * np.ptp(np.array(values), axis=0).max() + 1e-12):
        left, right, at_left = points[i], points[i + 1], values[i]
        for _ in range(44):
            mid = (left + right) / 2
            value = np.atleast_1d(f(mid))
            if np.abs(value - at_left).max() < np.abs(value - values[i + 1]).max():
                left = mid
            else:
                right = mid
        pieces += [left, right]
    pieces.append(b)
    return sum(split(x, y, rule(x, y), 0) for x, y in zip(pieces, pieces[1:]) if y > x)


def box(m, rng, bench, flux, end, scale, speed, label):
    a, b = bench.domain.a, bench.domain.b
    x0, x1 = np.sort(rng.uniform(a, b, 2))
    t0, t1 = np.sort(rng.uniform(0, end, 2))
    if rng.random() < 0.25:
        t0 = 0.0
    u = bench.exact_solution
    tol = 2e-7 * scale * max(0.1 * (b - a), x1 - x0 + speed * (t1 - t0))
    m.observe("boxes")
    change = integrate(lambda x: u(x, t1), x0, x1, tol) - integrate(lambda x: u(x, t0), x0, x1, tol)
    net = integrate(lambda t: flux(u(x1, t)), t0, t1, tol) - integrate(lambda t: flux(u(x0, t)), t0, t1, tol)
    m.close(change, -net, f"{label}: conservation law over space-time boxes", 0, 10 * tol + 3e-5 * scale * (x1 - x0 + speed * (t1 - t0)), box=[x0, x1, t0, t1])


def initial(m, rng, bench, label, scale):
    a, b = bench.domain.a, bench.domain.b
    for x in rng.uniform(a, b, 25):
        m.observe("points")
        m.close(bench.exact_solution(x, bench.start_time), bench.initial_data(x), f"{label}: initial data", 0, 1e-9 * scale, x=x)
        m.close(bench.exact_solution_at_end_time(x), bench.exact_solution(x, bench.end_time), f"{label}: exact solution at end time", 0)


def advect(m, rng, name):
    bench = advection.BENCHMARKS[name](float(rng.choice([0.0, 1.0, rng.uniform(0, 5)])))
    label = f"advection/{name}"
    m.input(label, bench.end_time, sample={"benchmark": name, "end time": bench.end_time})
    m.check((bench.domain.a, bench.domain.b) == (0, 1) and bench.boundary_conditions == ("periodic",), f"{label}: periodic unit interval")
    initial(m, rng, bench, label, 1.0)
    for _ in range(25):
        x, t, k = rng.uniform(0, 1), rng.uniform(0, 5), int(rng.integers(1, 4))
        near = [bench.initial_data((x - t + e) % 1) for e in (-1e-9, 0.0, 1e-9)]
        if np.ptp(near) > 1e-3:
            continue  # a jump
        m.observe("points")
        m.close(bench.exact_solution(x, t), near[1], f"{label}: constant along characteristics", 0, 1e-4)
        m.close(bench.exact_solution(x, t + k), near[1], f"{label}: periodic in time", 0, 1e-4)
    for _ in range(2):
        box(m, rng, bench, lambda u: u, 2.0, 1.0, 1.0, label)


def forming(m, rng, name, part):
    """Times shortly before the shock (see known findings: Newton's method does not always converge there)."""
    kind = burgers.BENCHMARKS[name]
    time = part * {"shock": 1 / (2 * np.pi), "smooth": 1.0}[name]
    bench = kind(time)
    label = f"burgers/{name}"
    lost = []
    for x in np.linspace(bench.domain.a, bench.domain.b, 401):
        m.observe("points near the shock")
        try:
            u = bench.exact_solution(float(x), time)
        except RuntimeError:
            lost.append(float(x))
            continue
        m.close(u, bench.initial_data(x - u * time), f"{label}: constant along characteristics", 0, 1e-7)
    m.input(label, time, sample={"benchmark": name, "time": time, "lost": lost})
    m.check(not lost, f"{label}: exact solution is found at {part:g} of the critical time", points=lost[:10])


def burger(m, rng, name):
    kind = burgers.BENCHMARKS[name]
    critical = {"shock": 1 / (2 * np.pi), "smooth": 1.0}[name]
    end = float(critical * rng.choice([rng.uniform(0, 0.95), 0.95]))
    bench = kind(end)
    label = f"burgers/{name}"
    m.input(label, end, sample={"benchmark": name, "end time": end})
    initial(m, rng, bench, label, 1.5)
    a, b = bench.domain.a, bench.domain.b
    for _ in range(25):
        x, t = rng.uniform(a, b), rng.uniform(0, end)
        u = bench.exact_solution(x, t)
        m.observe("points")
        m.close(u, bench.initial_data(x - u * t), f"{label}: constant along characteristics", 0, 1e-7)
        m.close(bench.exact_solution(x + b - a, t), u, f"{label}: periodic", 0, 1e-7)
    for _ in range(2):
        box(m, rng, bench, lambda u: u**2 / 2, end, 1.5, 1.5, label)
    for end in critical * (1 + 10.0 ** rng.uniform(-9, 1, 5)):
        late = kind(float(end))
        m.observe("rejections")
        m.raises(lambda: late.exact_solution(rng.uniform(a, b), rng.uniform(0, critical)), AttributeError, f"{label}: times after shock formation are rejected", end=end)
        m.raises(lambda: late.exact_solution_at_end_time(rng.uniform(a, b)), AttributeError, f"{label}: end times after shock formation are rejected", end=end)


def dam(m, rng):
    g, right = float(rng.choice([1.0, 9.812])), 10 ** rng.uniform(-1, 0.5)
    left, L = right * (1 + 10 ** rng.uniform(-1, 1)), float(rng.choice([1.0, 10.0]))
    x_dam, end = L * rng.uniform(0.3, 0.7), 0.3 * L / np.sqrt(g * left)
    bench = shallow_water.DammBreakBenchmark(end, left, right, x_dam, L, g)
    label = "damm break"
    m.input(label, g, left, right, sample={"left": left, "right": right, "g": g})
    m.check((bench.domain.a, bench.domain.b) == (0, L), f"{label}: domain")
    scale = max(left, left * np.sqrt(g * left))
    initial(m, rng, bench, label, scale)
    # left states keep the left-going Riemann invariant, right of the shock the water rests
    for _ in range(25):
        t = rng.uniform(0.05, 1) * end
        x = rng.uniform(0, L)
        h, q = bench.exact_solution(x, t)
        m.observe("points")
        m.check(right * (1 - 1e-9) <= h <= left * (1 + 1e-9) and q >= -1e-9 * scale, f"{label}: between the outer states", h=h, q=q)
        if h > right * (1 + 1e-6):
            m.close(q / h + 2 * np.sqrt(g * h), 2 * np.sqrt(g * left), f"{label}: rarefaction keeps the Riemann invariant", 1e-6)
    flux = lambda w: np.array([w[1], w[1] ** 2 / w[0] + g * w[0] ** 2 / 2])
    for _ in range(3):
        box(m, rng, bench, flux, end, scale * max(1, np.sqrt(g * left)), np.sqrt(g * left) * 2, label)
    m.observe("rejections")
    m.raises(lambda: shallow_water.DammBreakBenchmark(end, right, left), AssertionError, f"{label}: heights in the wrong order are rejected")


def steady(m, rng, name):
    kind = shallow_water.BENCHMARKS[name]
    bench = kind(float(rng.uniform(0, 100)))
    if name == "moving-water-bump-bathymetry":
        K1, K2 = rng.uniform(0.1, 2), rng.uniform(20, 35)
        bench = kind(10.0, K1, K2)
    m.input(name, bench.end_time, sample={"benchmark": name})
    initial(m, rng, bench, name, 3.0)
    a, b = bench.domain.a, bench.domain.b
    g = bench.gravitational_acceleration
    first = bench.exact_solution((a + b) / 2, 0.0)
    level = first[0] + bench.bathymetry((a + b) / 2)
    for _ in range(30):
        x, t = rng.uniform(a, b), rng.uniform(0, 100)
        h, q = bench.exact_solution(x, t)
        m.observe("points")
        m.check(h > 0, f"{name}: wet")
        m.close(q, first[1], f"{name}: constant discharge", 0, 1e-12)
        energy = (q / h) ** 2 / 2 + g * (h + bench.bathymetry(x))
        m.close(energy, (first[1] / first[0]) ** 2 / 2 + g * level, f"{name}: constant energy head", 1e-9)
        if name == "moving-water-bump-bathymetry":
            m.close([q, energy], [K1, K2], f"{name}: given constants", 1e-9)
    left, right = bench.exact_solution(a, 0.0), bench.exact_solution(b, 0.0)
    m.close(left, right, f"{name}: equal ends", 1e-9)


def missing(m, rng):
    """Benchmarks without exact solution say so."""
    exact = {"lake-at-rest-no-bathymetry", "lake-at-rest", "moving-water-no-bathymetry", "moving-water-bump-bathymetry", "damm-break"}
    for name, kind in shallow_water.BENCHMARKS.items():
        if name in exact:
            continue
        bench = kind(int(rng.integers(1000))) if name == "random" else kind()
        m.input(name)
        a, b = bench.domain.a, bench.domain.b
        for _ in range(5):
            x = rng.uniform(a, b)
            m.observe("rejections")
            m.raises(lambda: bench.exact_solution(x, rng.uniform(0, bench.end_time)), AttributeError, "missing exact solutions are reported", benchmark=name)
            m.raises(lambda: bench.exact_solution_at_end_time(x), AttributeError, "missing exact solutions are reported", benchmark=name)


def build(plan):
    for k in range(4):
        for name in ("three-hills", "two-hills", "one-hill", "cos", "gauss"):
            plan.case(f"advection {name} #{k}", advect, name)
        for name in ("shock", "smooth"):
            plan.case(f"burgers {name} #{k}", burger, name)
        for name in ("lake-at-rest-no-bathymetry", "lake-at-rest", "moving-water-no-bathymetry", "moving-water-bump-bathymetry"):
            plan.case(f"steady {name} #{k}", steady, name)
    for name, parts in (("shock", (0.8, 0.9, 1.0)), ("smooth", (0.8, 0.9, 0.96, 0.97, 0.99, 1.0))):
        for part in parts:
            plan.case(f"forming {name} {part:g}", forming, name, part)
    for k in range(6):
        plan.case(f"damm break #{k}", dam)
    for k in range(2):
        plan.case(f"missing #{k}", missing)
