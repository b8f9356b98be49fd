"""C20: reported errors and convergence orders are the true ones."""
import contextlib
import io
import re

import benchmark.shallow_water as shallow_water
import core
import defaults
import finite_volume
import finite_volume.shallow_water.solver as sw
import numpy as np
from command import EOCCalculator, EOCDataFrame, ErrorCalculator, ErrorEvolutionCalculator

import work
from C10 import phi
from C18 import BENCHMARKS, SCALAR, quiet, solver_line

RULE = (
    "convergence tables printed by the real eoc command (random benchmarks, end times, meshes, refinements and one to three "
    "solvers with options) and the full-precision values of the calculators: every entry is recomputed from a fresh solver of "
    "the classes, loop-evaluated basis functions, numpy's Gauss points and the exact solution; error series of pairs of shallow "
    "water runs with different steps, ODE solvers and fine reference solvers, recomputed time by time. "
    "Non-trivial: tables with two rows or more, series with more than one time."
)
QUICK_ROUNDS = 2
REQUIRE = {"table entries": 400, "errors": 90, "orders": 60, "series": 10, "series values": 200, "refused": 4, "tiny errors": 3}


def evaluate(u, p, e, s):
    """Finite element function of degree P (0: cell averages) in cell E at S in [0, 1]."""
    if p == 0:
        return u[e]
    return sum(u[(e * p + j) % len(u)] * phi(p, j, s) for j in range(p + 1))


def true_errors(u, p, a, b, n, exact):
    """L1, L2 and maximum norm of EXACT - U."""
    x, w = np.polynomial.legendre.leggauss(p + 1 if p else 1)
    x, w = (x + 1) / 2, w / 2
    h = (b - a) / n
    one, two, most = 0.0, 0.0, 0.0
    for e in range(n):
        for s, weight in zip(x, w):
            d = exact(a + (e + s) * h) - evaluate(u, p, e, s)
            one = one + weight * h * np.abs(d)
            two = two + weight * h * d**2
        for s in np.linspace(0, 1, 10):
            most = np.maximum(most, np.abs(exact(a + (e + s) * h) - evaluate(u, p, e, s)))
    return np.array([one, np.sqrt(two), most])


def smooth(rng, problem):
    """Benchmark key and end time for which an exact solution exists."""
    if problem == "advection":
        return str(rng.choice(["cos", "gauss", "two-hills", "three-hills", "one-hill"])), float(np.round(rng.uniform(0.05, 0.3), 3))
    key = str(rng.choice(["smooth", "shock"]))
    return key, float(np.round(rng.uniform(0.1, 0.95) * (1 if key == "smooth" else 1 / (2 * np.pi)), 3))


def away(bench, problem, end, points):
    """Whether no evaluation point lies at a jump of the data."""
    if problem != "advection":
        return True
    jumps = [0.025, 0.275, 0.35, 0.55, 0.7, 0.9, 0.5, 0.2, 0.4, 0.1, 0.3]
    return all(abs(((x - end) % 1.0) - j) > 1e-9 for x in points for j in jumps)


def points(p, a, b, n):
    x, _ = np.polynomial.legendre.leggauss(p + 1 if p else 1)
    s = np.concatenate([(x + 1) / 2, np.linspace(0, 1, 10)])
    return [a + (e + t) * (b - a) / n for e in range(n) for t in s]


def parse(text):
    """Tables of a text: title -> rows of numbers."""
    tables, lines = [], text.replace("\r", "\n").splitlines()
    for i, line in enumerate(lines):
        if i > 0 and re.fullmatch(r"-+", line.strip()) and len(line.strip()) == len(lines[i - 1].strip()) and i + 1 < len(lines) and "DOFs" in lines[i + 1]:
            rows = []
            for row in lines[i + 2:]:
                words = row.split()
                if words and re.fullmatch(r"\d+", words[0]) and len(words) == 8:
                    rows.append([float(w) for w in words])
                elif rows:
                    break
            tables.append((lines[i - 1].strip(), lines[i + 1:i + 3], rows))
    return tables


def tables(m, rng, problem):
    for _ in range(3):
        key, end = smooth(rng, problem)
        first, refinements = int(rng.choice([3, 4, 5, 6])), int(rng.integers(1, 5))
        keys = [str(k) for k in rng.choice(list(SCALAR), int(rng.integers(1, 4)), replace=False)]
        specs = [solver_line(rng, SCALAR, k) for k in keys]
        if max(s[2].get("polynomial_degree", 1) for s in specs) > 1:
            refinements = min(refinements, 3)
        for s in specs:
            if s[2]["name"] is None:
                s[2]["name"] = f"Solver {len(s[0])}"
                s[0].extend(["+n", s[2]["name"]])
        chosen = ["-b", key]
        if rng.random() < 0.3:  # documented defaults
            key, chosen = {"advection": "cos", "burgers": "smooth"}[problem], []
        numbers = ["-m", first, "-r", refinements]
        if rng.random() < 0.2 and max(s[2].get("polynomial_degree", 1) for s in specs) == 1:
            first, refinements, numbers = defaults.EOC_MESH_SIZE, defaults.REFINE_NUMBER, []
        line = ["eoc", problem, *chosen, "-T", end, *numbers, "-s"] + [w for s in specs for w in s[0]]
        with quiet() as out:
            try:
                work.cli(*line)
            except ValueError:  # unstable solver
                m.observe("unstable runs")
                continue
        got = parse(out.getvalue())
        m.input(tuple(map(str, line)), nontrivial=refinements > 1, sample={"line": " ".join(map(str, line)), "tables": got})
        if not m.check(len(got) == len(specs), "number of tables printed", line=line, tables=len(got), text=out.getvalue()[-800:]):
            continue
        for (title, _, rows), (_, kind, kwargs, _) in zip(got, specs):
            m.check(title == kwargs["name"], "title of a table", actual=title, expected=kwargs["name"])
            m.check(len(rows) == refinements, "number of refinements", line=line, actual=len(rows), expected=refinements)
            before = None
            for i, row in enumerate(rows):
                n = first * 2**i
                bench = BENCHMARKS[problem][key](end_time=end)
                solver = work.solve(kind(bench, **{k: v for k, v in {**kwargs, "mesh_size": n}.items() if v is not None}))
                p = kwargs.get("polynomial_degree", 0)
                a, b = bench.domain.a, bench.domain.b
                if not away(bench, problem, end, points(p, a, b, n)):
                    before = None
                    continue
                errors = true_errors(solver.solution.value, p, a, b, n, lambda x: bench.exact_solution(x, end))
                where = {"line": " ".join(map(str, line)), "title": title, "refinement": i}
                m.check(row[0] == i, "refinements are numbered", **where, actual=row[0])
                m.check(row[1] == n * max(p, 1), "degrees of freedom in the table", **where, actual=row[1], expected=n * max(p, 1))
                for j, norm in enumerate(("L1", "L2", "Linf")):
                    actual, order = row[2 + 2 * j], row[3 + 2 * j]
                    m.close(actual, errors[j], f"{norm} error in the table", 0.0051, 1e-15, **where)
                    m.observe("table entries", 2)
                    if i == 0:
                        m.check(np.isnan(order), "order without predecessor", **where, actual=order)
                    elif before is not None and min(before[j], errors[j]) > 1e-13:
                        m.observe("orders")
                        m.close(order, np.log2(before[j] / errors[j]), f"{norm} order in the table", 0, 0.0051, **where)
                before = errors


def calculators(m, rng, problem):
    """The same in full precision and for histories of calls."""
    for _ in range(3):
        key, end = smooth(rng, problem)
        bench = BENCHMARKS[problem][key](end_time=end)
        name = str(rng.choice(list(SCALAR)))
        p = int(rng.integers(1, 4)) if "p" in SCALAR[name][3] else 0
        options = {"polynomial_degree": p} if p else {}
        first = int(rng.integers(3, 7))
        sizes = [first * 2**i for i in range(int(rng.integers(1, 4)))]
        a, b = bench.domain.a, bench.domain.b
        if not all(away(bench, problem, end, points(p, a, b, n)) for n in sizes):
            continue
        try:
            solvers = [work.solve(SCALAR[name][0](bench, mesh_size=n, cfl_number=0.1, **options)) for n in sizes]
        except ValueError:
            continue
        calculator = EOCCalculator(bench)
        m.check(list(calculator.norm_names) == ["L1", "L2", "Linf"], "norms in use", names=list(calculator.norm_names))
        dofs, errors, orders = calculator(solvers, [s.solution.space for s in solvers])
        expected = np.array([true_errors(s.solution.value, p, a, b, n, lambda x: bench.exact_solution(x, end)) for s, n in zip(solvers, sizes)]).T
        m.input(problem, key, end, name, p, first, len(sizes), nontrivial=len(sizes) > 1, sample={"errors": errors.tolist()})
        where = {"benchmark": key, "end": end, "solver": name, "p": p, "n": first}
        m.close(dofs, [n * max(p, 1) for n in sizes], "degrees of freedom", 0, **where)
        scale = np.max(np.abs(solvers[0].solution.value))
        m.close(errors, expected, "errors", 1e-9, 1e-10 * scale * (b - a + 1), **where)
        m.observe("errors", errors.size)
        m.check(np.isnan(orders[:, 0]).all(), "first order is undefined", **where)
        if len(sizes) > 1 and expected.min() > 1e-8 * scale:
            m.close(orders[:, 1:], np.log2(expected[:, :-1] / expected[:, 1:]), "orders", 1e-6, 1e-7, **where)
            m.observe("orders", orders[:, 1:].size)
        # single errors: against functions and against other discrete solutions
        s = solvers[-1]
        space, n = s.solution.space, sizes[-1]
        other = core.DiscreteSolution(rng.normal(size=s.solution.value.shape), space=space)
        q = p + 1 if p else 1
        time, error = ErrorCalculator(space, core.L2Norm(space.mesh, quadrature_degree=q))(other, s.solution)
        d = other.value - s.solution.value
        m.close(error, true_errors(d, p, a, b, n, lambda x: 0.0)[1], "distance of two discrete solutions", 1e-10, **where)
        m.check(time == s.solution.time, "time of an error", **where, actual=time)
        time, error = ErrorCalculator(space, core.L1Norm(space.mesh, quadrature_degree=q))(bench.initial_data, s.solution)
        if away(bench, problem, 0.0, points(p, a, b, n)):
            m.close(error, true_errors(s.solution.value, p, a, b, n, bench.initial_data)[0], "distance of a function", 1e-10, 1e-12, **where)
        _, error = ErrorCalculator(space)(s.solution, s.solution)
        m.close(error, 0.0, "distance of a solution to itself", 0, **where)
        m.observe("errors", 3)


class Given:
    """Solver with a given solution."""

    def __init__(self, space, value, time):
        self.solution = core.DiscreteSolution(value, time, space)


class Known(work.ScalarBenchmark):
    """Benchmark with a given exact solution."""

    def __init__(self, domain, end_time, exact):
        super().__init__("advection", lambda x: exact(x, 0.0), domain, end_time)
        self._exact = exact

    def exact_solution(self, x, time):
        return self._exact(x, time)


def magnitudes(m, rng):
    """Orders of errors of all magnitudes."""
    for _ in range(15):
        a, b = work.random_domain(rng)
        end, level = float(rng.uniform(0.1, 2)), float(rng.choice([0.0, 1.0]))
        low = -25 if level == 0 else -9
        bench = Known((a, b), end, lambda x, t: level * t)
        first, levels = int(rng.integers(2, 7)), int(rng.integers(2, 5))
        solvers, expected = [], []
        for i in range(levels):
            n = first * 2**i
            space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(a, b), n))
            value = rng.normal(size=n) * 10 ** rng.uniform(low, 3)
            solvers.append(Given(space, level * end + value, end))
            value = (level * end + value) - level * end
            h = (b - a) / n
            expected.append([h * np.abs(value).sum(), np.sqrt(h * (value**2).sum()), np.abs(value).max()])
        dofs, errors, orders = EOCCalculator(bench)(solvers, [s.solution.space for s in solvers])
        expected = np.array(expected).T
        m.input(a, b, end, level, expected, nontrivial=True, sample={"errors": expected.tolist()})
        where = {"n": first, "level": level}
        m.close(errors, expected, "errors of all magnitudes", 1e-9, **where)
        m.check(np.isnan(orders[:, 0]).all(), "first order is undefined", **where)
        m.close(orders[:, 1:], np.log2(expected[:, :-1] / expected[:, 1:]), "orders of all magnitudes", 1e-6, 1e-7, errors=expected, **where)
        m.observe("errors", errors.size)
        m.observe("tiny errors", (expected < 1e-9).sum())
        m.observe("orders", orders[:, 1:].size)
        # chosen norms, in any order
        chosen = rng.permutation(3)[: int(rng.integers(1, 4))]
        calculator = EOCCalculator(bench, [(core.L1Norm, core.L2Norm, core.solver_spaces)[i] for i in chosen])
        m.check(list(calculator.norm_names) == [("L1", "L2", "Linf")[i] for i in chosen], "names of chosen norms", chosen=chosen)
        dofs, errors, orders = calculator(solvers, [s.solution.space for s in solvers])
        m.close(errors, expected[chosen], "errors of chosen norms", 1e-9, chosen=chosen)
        m.check(np.isnan(orders[:, 0]).all(), "first order is undefined", chosen=chosen)
        m.close(orders[:, 1:], np.log2(expected[:, :-1] / expected[:, 1:])[chosen], "orders of chosen norms", 1e-6, 1e-7, chosen=chosen)
        frame = EOCDataFrame()(dofs, errors, orders, calculator.norm_names)
        shown = [[float(x) for x in frame[name, "error"]] for name in calculator.norm_names]
        m.close_each(shown, expected[chosen], "shown errors of chosen norms", 0.006, chosen=chosen)
        m.observe("errors", errors.size)


def vectors(m, rng):
    """Errors of shallow water solutions against the exact dam break."""
    for _ in range(3):
        bench = shallow_water.DammBreakBenchmark(end_time=float(rng.uniform(0.02, 0.2)), h_left=float(rng.uniform(0.8, 1.5)), h_right=float(rng.uniform(0.1, 0.5)))
        n = int(rng.choice([8, 12, 20]))
        solver = work.solve(work.SWE[str(rng.choice(["llf", "low-order", "mcl"]))](bench, mesh_size=n, cfl_number=0.1))
        space = solver.solution.space
        exact = bench.exact_solution_at_end_time
        for i, norm in enumerate((core.L1Norm(space.mesh), core.L2Norm(space.mesh))):
            time, error = ErrorCalculator(space, norm)(exact, solver.solution)
            m.close(error, true_errors(solver.solution.value, 0, 0.0, 1.0, n, exact)[i], "error of height and discharge", 1e-10, 1e-13, n=n)
            m.check(time == solver.solution.time, "time of an error", actual=time)
            m.observe("errors", 2)
        m.input("dam break", bench.end_time, n, bench.h_left)


def late(m, rng):
    """No table (but a message) if there is no exact solution."""
    for key, critical in (("shock", 1 / (2 * np.pi)), ("smooth", 1.0)):
        end = float(np.round(critical * rng.uniform(1.05, 1.5), 3))
        with quiet() as out:
            work.cli("eoc", "burgers", "-b", key, "-T", end, "-m", 3, "-r", 2, "-s", "llf")
        text = out.getvalue()
        m.input("late", key, end)
        m.check(not parse(text) and "ERROR" in text, "end time without exact solution", key=key, end=end, text=text[-300:])
        m.observe("refused")


# --------------------------------------------------------------- time series
def interpolated(times, values, t):
    """Piecewise linear interpolation in time."""
    if t <= times[0]:
        return values[0]
    for i in range(1, len(times)):
        if t <= times[i]:
            s = (t - times[i - 1]) / (times[i] - times[i - 1])
            return (1 - s) * values[i - 1] + s * values[i]
    return values[-1]


def relative(times, values, exact_times, exact, t):
    u, v = interpolated(times, values, t), interpolated(exact_times, exact, t)
    return np.sqrt(np.sum((u - v) ** 2, axis=0) / np.sum(v**2, axis=0))


def pair(rng, n=None, steps=None, bench=None):
    """An approximation and a reference solution on the same coarse mesh."""
    n = int(rng.choice([8, 12, 16])) if n is None else n
    if bench is None:
        bench, options = work.swe_setup(rng, n=n, steps=int(rng.integers(3, 12)) if steps is None else steps, kind="smooth", froude=0.3, h=(1.0, 1.5), courant=0.2)
        cfl = options["cfl_number"]
    else:
        cfl = 0.05
    names = [str(k) for k in rng.choice(["llf", "low-order", "es1", "mcl"], 2)]
    ode = [work.ODE[str(k)] for k in rng.choice(list(work.ODE), 2)]
    approximation = work.SWE[names[0]](bench, mesh_size=n, cfl_number=cfl * rng.uniform(0.3, 1), ode_solver_type=ode[0], save_history=True)
    if rng.random() < 0.5:
        k = int(rng.choice([2, 4]))
        flux = {"llf": sw.LaxFriedrichsFluxGetter, "low-order": sw.LowOrderFluxGetter, "es1": sw.FirstOrderDiffusiveEnergyStableFluxGetter, "mcl": sw.LaxFriedrichsFluxGetter}[names[1]]()
        reference = work.SWE["coarse"](bench, mesh_size=n * k, cfl_number=cfl * rng.uniform(0.3, 1), coarsening_degree=k, flux_getter=flux, ode_solver_type=ode[1], save_history=True)
    else:
        reference = work.SWE[names[1]](bench, mesh_size=n, cfl_number=cfl * rng.uniform(0.3, 1), ode_solver_type=ode[1], save_history=True)
    return bench, n, approximation, reference


def series(m, rng):
    for _ in range(5):
        bench, n, approximation, reference = pair(rng)
        work.solve(approximation)
        work.solve(reference)
        u, v = approximation.solution, reference.solution
        ut, uv, vt, vv = u.time_history, u.value_history, v.time_history, v.value_history
        time, error = ErrorEvolutionCalculator()(u, v)
        m.input("series", n, ut, vt, nontrivial=len(ut) > 1, sample={"steps": [len(ut), len(vt)], "error": np.asarray(error)[-1].tolist()})
        m.check(len(time) == max(len(ut), len(vt)), "number of times of a series", actual=len(time), expected=[len(ut), len(vt)])
        m.check(np.array_equal(time, ut) or np.array_equal(time, vt), "times of a series are recorded times")
        expected = np.array([relative(ut, uv, vt, vv, t) for t in time])
        m.close(error, expected, "relative error at a recorded time", 1e-9, 1e-13)
        m.close(error[0], relative(ut, uv, vt, vv, bench.start_time), "relative error at start", 1e-9, 1e-13)
        m.observe("series")
        m.observe("series values", error.size)
        # identical solutions have no error; other norms
        _, zero = ErrorEvolutionCalculator()(u, u)
        m.check(not np.any(zero), "error of a solution against itself")
        _, one = ErrorEvolutionCalculator()(u, v, norm=core.L1Norm(u.space.mesh))
        expected = np.array([np.sum(np.abs(interpolated(ut, uv, t) - interpolated(vt, vv, t)), axis=0) / np.sum(np.abs(interpolated(vt, vv, t)), axis=0) for t in time])
        m.close(one, expected, "relative error in another norm", 1e-9, 1e-13)
        m.check(np.array_equal(u.value_history, uv) and np.array_equal(v.value_history, vv), "errors leave the solutions alone")
        wrong = work.SWE["llf"](bench, mesh_size=n + 1, cfl_number=0.1, save_history=True)
        m.raises(lambda: ErrorEvolutionCalculator()(wrong.solution, v), AssertionError, "solutions of different meshes are rejected")
        m.observe("refused")


def evolution_command(m, rng):
    """plot-error-evolution draws the series of its two solvers."""
    for _ in range(2):
        n = int(rng.choice([8, 12, 16]))
        end = float(np.round(rng.uniform(1, 4), 3))
        key = str(rng.choice(["b1", "b2", "b4", "oscillation"]))
        choice = {k: work.SWE[k] for k in ("llf", "low-order", "es1")}
        names = [str(k) for k in rng.choice(list(choice), 2)]
        cfl = [float(np.round(rng.uniform(0.05, 0.2), 3)) for _ in names]
        line = ["plot-error-evolution", "-b", key, "-T", end, "--hide", "--save", "error.png", "-s"]
        solvers = []
        for name, c in zip(names, cfl):
            line += [name, "+m", n, "++cfl", c]
            bench = BENCHMARKS["swe"][key]()
            bench.end_time = end
            solvers.append(work.solve(choice[name](bench, mesh_size=n, cfl_number=c, save_history=True)))
        with quiet(), work.Drawn() as drawn:
            work.cli(*line)
        m.input(tuple(map(str, line)))
        m.check(len(drawn.saved) == 1 and drawn.saved[0].path == "error.png", "error plot is saved", saved=[s.path for s in drawn.saved])
        u, v = solvers[0].solution, solvers[1].solution
        lines = drawn.saved[0].lines
        m.check(len(lines) == 2 and "Height" in lines[0].label and "Discharge" in lines[1].label, "curves of the error plot", labels=[l.label for l in lines])
        for i, drawn_line in enumerate(lines):
            m.check(len(drawn_line.x) == max(len(u.time_history), len(v.time_history)), "number of drawn errors")
            expected = [relative(u.time_history, u.value_history, v.time_history, v.value_history, t)[i] for t in drawn_line.x]
            m.close(drawn_line.y, expected, "drawn error", 1e-9, 1e-13, line=line)
            m.observe("series values", len(expected))
        m.observe("series")
    for count in (1, 3):
        with quiet():
            m.raises(lambda: work.cli("plot-error-evolution", "--hide", "-T", 1.0, "-s", *(["llf", "+m", 8] * count)), AssertionError, "series need two solvers", count=count)
        m.observe("refused")


def build(plan):
    for problem in ("advection", "burgers"):
        for i in range(2):
            plan.case(f"tables/{problem}/{i}", tables, problem)
        plan.case(f"calculators/{problem}", calculators, problem)
    plan.case("vectors", vectors)
    plan.case("magnitudes", magnitudes)
    plan.case("late", late)
    plan.case("series", series)
    plan.case("evolution", evolution_command)
