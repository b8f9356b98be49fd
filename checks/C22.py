"""C22: plots and animations show the computed solution."""
import os
import pickle
import tempfile

import matplotlib.pyplot as plt
import numpy as np
from command import Animate, Plot, ScalarAnimator, ScalarPlotter, ShallowWaterAnimator, ShallowWaterPlotter
from command.animate import NothingToAnimateError  # noqa: F401

import ref  # noqa: F401
import work
from C18 import BENCHMARKS, DEFAULT, quiet
from C20 import interpolated

RULE = (
    "series of plots and animations in one process (classes and command line; zero to three solvers, pre-computed or not, "
    "failing ones, initial data, bathymetry, hidden / saved / shown): the lines of every figure at the moment of saving or "
    "showing, of every frame of a film and of the pickled data are compared with solutions of solvers run on their own, "
    "independent grids, exact solutions and interpolation in time. Non-trivial: figures with at least one solver."
)
QUICK_ROUNDS = 2
REQUIRE = {"figures": 80, "curves": 150, "frames": 120, "frame curves": 300, "data files": 30, "failed runs": 3, "visible curves": 300}

MILD = {"llf", "low-order", "es1", "mcl"}


def grid(solver, bench, n, p):
    a, b = bench.domain.a, bench.domain.b
    if p == 0:
        return a + (np.arange(n) + 0.5) * (b - a) / n
    return a + np.arange(n * p) * (b - a) / (n * p)


def around_zero(bench, share):
    """The same benchmark with time zero within its run."""
    length = bench.end_time - bench.start_time
    bench.start_time, bench.end_time = -share * length, (1 - share) * length
    return bench


def scalar_case(rng, problem, steps=8):
    if rng.random() < 0.2:
        seed, share = int(rng.integers(0, 2**31)), float(rng.uniform(0.1, 0.9))
        return lambda: around_zero(work.scalar_setup(np.random.default_rng(seed), problem, n=10, low=-1.0, high=1.0, courant=0.2)[0], share)
    key = str(rng.choice(list(BENCHMARKS[problem])))
    end = float(np.round(rng.uniform(0.02, 0.15), 3))
    return lambda: BENCHMARKS[problem][key](end_time=end)


def swe_case(rng):
    kind = rng.integers(4)
    if kind == 0:
        key, end = str(rng.choice(["b1", "b2", "b4", "oscillation"])), float(np.round(rng.uniform(0.5, 3), 3))
        return lambda: BENCHMARKS["swe"][key](end_time=end)
    if kind == 1:
        end = float(np.round(rng.uniform(0.05, 0.2), 3))
        return lambda: BENCHMARKS["swe"]["damm-break"](end_time=end)
    if kind == 2:
        end = float(np.round(rng.uniform(0.2, 1), 3))
        key = str(rng.choice(["lake-at-rest", "lake-at-rest-perturbation", "lake-at-rest-no-bathymetry"]))
        return lambda: BENCHMARKS["swe"][key](end_time=end)
    seed = int(rng.integers(0, 2**31))
    make = lambda: work.swe_setup(np.random.default_rng(seed), n=12, steps=6, kind="smooth", froude=0.3, h=(1.0, 1.5), bottom=True)[0]
    if rng.random() < 0.5:
        share = float(rng.uniform(0.1, 0.9))
        return lambda: around_zero(make(), share)
    return make


def base(key):
    """The label of a curve; curves with equal labels have different keys."""
    return key.split("\0")[0]


def matched(lines, curves):
    """Pairs of drawn and expected curves of equal labels."""
    left, out = list(curves), []
    for line in lines:
        keys = [k for k in left if base(k) == line.label]

        def distance(key):
            x, y = curves[key]
            return np.inf if len(y) != len(line.y) or len(x) != len(line.x) else np.max(np.abs(line.y - y)) + np.max(np.abs(line.x - x))

        best = min(keys, key=distance)
        left.remove(best)
        out.append((line, curves[best]))
    return out


class Run:
    """A solver given to the command and its independent twin."""

    def __init__(self, rng, problem, make, label, history=False):
        self.label, self.n = label, int(rng.integers(5, 16))
        bench = make()
        if problem == "swe":
            name = str(rng.choice(sorted(MILD)))
            kind, self.p, options = work.SWE[name], 0, {}
            limit = 0.4 / (3 + np.sqrt(bench.gravitational_acceleration * 4.5))
        else:
            table = {**work.SCALAR_FV, **work.FE}
            name = str(rng.choice(["llf", "mcl-fv", "cg-low", "mcl-fem", "cg"]))
            kind, self.p = table[name], 0
            options = {}
            limit = 0.3
            if name in work.FE:
                self.p = int(rng.integers(1, 4))
                options["polynomial_degree"] = self.p
                if name == "cg":
                    limit = 0.05
                else:
                    limit = 0.5
        self.name = name
        options.update(mesh_size=self.n, cfl_number=float(np.round(rng.uniform(0.4, 1) * limit, 4)), short=base(label))
        if history:
            options["save_history"] = True
        self.options, self.kind = options, kind
        self.solver = kind(bench, **options)
        self.twin = kind(make(), **options)
        self.failed = False
        try:
            work.solve(self.twin)
        except Exception:
            self.failed = True
        self.grid = grid(self.solver, bench, self.n, self.p)
        self.value = self.twin.solution.value.copy()


def fault(run, rng):
    """Lets solver and twin fail in the middle of the run."""
    run.solver, run.twin = run.kind(run.bench(), **run.options), run.kind(run.bench(), **run.options)
    stop = int(rng.integers(1, 4))
    for solver in (run.solver, run.twin):
        ode = solver.as_dict()["ode_solver"]
        execute, count = ode.execute, []

        def hooked(dt, execute=execute, count=count):
            count.append(dt)
            if len(count) > stop:
                raise ValueError("Fault for testing.")
            execute(dt)

        ode.execute = hooked
    try:
        work.solve(run.twin)
    except ValueError:
        run.failed = True
    run.value = run.twin.solution.value.copy()


def expectations(problem, bench, runs, initial, points, final=True):
    """label -> (x, y) for every quantity which is drawn."""
    a, b = bench.domain.a, bench.domain.b
    x = np.linspace(a, b, points)
    curves = {"u": {}} if problem != "swe" else {"h": {}, "q": {}, "v": {}}

    def put(names, x, values):
        if problem != "swe":
            curves["u"][names[0]] = (x, values)
            return
        h, q = values[:, 0], values[:, 1]
        bottom = np.array([bench.bathymetry(y) for y in x])
        for key, name, y in zip("hqv", names, (h + bottom, q, q / h)):
            curves[key][name] = (x, y)

    for run in runs:
        put([run.label] * 3, run.grid, run.value)
    try:
        exact = np.array([bench.exact_solution_at_end_time(y) for y in x])
    except Exception:
        exact = None
    end = f"{bench.end_time:.1f}"
    constant = problem != "swe" or flat(bench, 4000)
    if exact is not None:
        put([f"$u(t={end})$"] if problem != "swe" else [f"$h(t={end})$" if constant else f"$h+b(t={end})$", f"$q(t={end})$", f"$u(t={end})$"], x, exact)
    if initial:
        put(["$u_0$"] if problem != "swe" else ["$h_0$", "$q_0$", "$v_0$"], x, np.array([bench.initial_data(y) for y in x]))
    if problem == "swe" and not constant:
        curves["h"]["$b$"] = (x, np.array([bench.bathymetry(y) for y in x]))
    return curves


def flat(bench, points):
    a, b = bench.domain.a, bench.domain.b
    return np.ptp([bench.bathymetry(a + (i + 0.5) * (b - a) / points) for i in range(points)]) < 1e-14


def unclear(problem, bench, points):
    """Whether the bottom varies, but perhaps not visibly on the grid of the plot:
    one place narrower than two cells differs from an otherwise flat bottom."""
    if problem != "swe" or flat(bench, 4000):
        return False
    a, b = bench.domain.a, bench.domain.b
    values = np.array([bench.bathymetry(a + (i + 0.5) * (b - a) / 4000) for i in range(4000)])
    common, counts = np.unique(values, return_counts=True)
    other = np.concatenate([[0], values != common[np.argmax(counts)], [0]])
    ends = np.flatnonzero(np.diff(other))
    return points < 10 or np.max(ends[1::2] - ends[::2]) < 4000 * 2 / points


def judge(m, lines, curves, where):
    labels = sorted(line.label for line in lines)
    if not m.check(labels == sorted(map(base, curves)), "curves of a figure", **where, actual=labels, expected=sorted(curves)):
        return
    for line, (x, y) in matched(lines, curves):
        if m.check(len(line.x) == len(x) and len(line.y) == len(y), "number of points of a curve", **where, label=line.label, actual=len(line.x), expected=len(x)):
            scale = max(np.max(np.abs(x)), 1e-300)
            m.close(line.x, x, "places of a curve", 0, 1e-11 * scale, **where, label=line.label)
            m.close(line.y, y, "values of a curve", 1e-11, 1e-12 * max(1e-300, np.max(np.abs(y))), **where, label=line.label)
        m.observe("curves")


def judge_data(m, path, curves, where):
    m.observe("data files")
    if not m.check(os.path.exists(path), "plot data are stored", **where, path=path):
        return
    with open(path, "rb") as f:
        data = pickle.load(f)
    m.check(sorted(data) == sorted({base(k) for k in curves}), "curves in stored data", **where, actual=sorted(data), expected=sorted(curves))
    for label in data:
        if sum(base(k) == label for k in curves) != 1:  # solvers with equal labels: one of them
            m.check(any(len(data[label]["ydata"]) == len(y) and np.allclose(data[label]["ydata"], y, 1e-10, 1e-11) for k, (x, y) in curves.items() if base(k) == label), "stored values of a label", **where, label=label)
            continue
        x, y = curves[label]
        m.close(np.array(data[label]["xdata"]), x, "stored places", 0, 1e-11 * np.max(np.abs(x)), **where, label=label)
        m.close(np.array(data[label]["ydata"]), y, "stored values", 1e-11, 1e-12 * max(1e-300, np.max(np.abs(y))), **where, label=label)


def plots(m, rng, problem):
    """Several plots one after the other; each shows its own solvers only."""
    os.chdir(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    for i in range(5):
        make = swe_case(rng) if problem == "swe" else scalar_case(rng, problem)
        number = int(rng.integers(0, 4))
        runs = []
        for k in range(number):
            label = ["A", "mesh 7", "$\\alpha$", "llf"][k] + str(rng.integers(10))
            if k and rng.random() < 0.3:  # solvers may have equal labels
                label = base(runs[-1].label) + f"\0{k}"
            run = Run(rng, problem, make, label)
            run.bench = make
            if rng.random() < 0.15:
                fault(run, rng)
                m.observe("failed runs")
            runs.append(run)
        before = rng.random() < 0.3 and not any(r.failed for r in runs)
        if before:
            for run in runs:
                work.solve(run.solver)
        initial, points = bool(rng.integers(2)), int(rng.integers(2, 60))
        show = bool(rng.random() < 0.3)
        save = f"plot.{i}.png" if rng.random() < 0.8 or not show else None
        data = f"data {i}.pkl" if rng.random() < 0.8 else None
        if runs and rng.random() < 0.4:
            points = len(runs[0].grid)  # as many points as the solution has values
        bench = make()
        if unclear(problem, bench, points):
            points = 60
        if unclear(problem, bench, points):
            continue
        curves = expectations(problem, bench, runs, initial, points)
        if not any(curves[k] for k in curves) or (not number and not initial and list(next(iter(curves.values()))) in ([], ["$b$"])):
            nothing(m, problem, lambda: Plot(make(), None if i % 2 else [], (ShallowWaterPlotter if problem == "swe" else ScalarPlotter)(make(), mesh_size=points, show=show, save_plot=save, save_data=data)).execute())
            continue
        where = {"problem": problem, "bench": repr(bench), "solvers": [r.name for r in runs], "initial": initial, "points": points}
        with quiet(), work.Drawn(real=rng.random() < 0.05) as drawn:
            plotter = (ShallowWaterPlotter if problem == "swe" else ScalarPlotter)(make(), mesh_size=points, show=show, save_plot=save, save_data=data)
            solver = [r.solver for r in runs]
            if number == 0 and rng.random() < 0.5:
                solver = None
            elif number == 1 and rng.random() < 0.5:
                solver = solver[0]
            Plot(make(), solver, plotter, initial=initial, solver_executed=before).execute()
            if not show:
                m.check(plt.get_fignums() == [], "hidden plots are closed", **where, open=plt.get_fignums())
        m.input(problem, i, points, initial, [r.value for r in runs], nontrivial=number > 0, sample=where)
        if save:
            names = {"u": save} if problem != "swe" else {k: f"plot.{i}_{k}.png" for k in "hqv"}
            if m.check(sorted(s.path for s in drawn.saved) == sorted(names.values()), "files of a plot", **where, actual=[s.path for s in drawn.saved]):
                for key, path in names.items():
                    (figure,) = [s for s in drawn.saved if s.path == path]
                    m.check(os.path.exists(path), "plot is stored", path=path)
                    judge(m, figure.lines, curves[key], {**where, "figure": key})
                    m.check(len(figure.axes) == 1 and sorted(figure.legends[0]) == sorted(map(base, curves[key])), "legend of a figure", **where, legends=figure.legends)
                    m.observe("figures")
        else:
            m.check(not drawn.saved, "plot is stored without order", **where)
        if data:
            for key in curves:
                judge_data(m, data if problem != "swe" else f"data {i}_{key}.pkl", curves[key], {**where, "figure": key})
        if show:
            if m.check(len(drawn.shown) == 1 and len(drawn.shown[0]) == len(curves), "shown figures", **where, actual=[len(s) for s in drawn.shown]):
                for figure, key in zip(drawn.shown[0], curves):
                    judge(m, figure.lines, curves[key], {**where, "figure": key})
                    m.observe("figures")
        else:
            m.check(not drawn.shown, "hidden plot is shown", **where)


def nothing(m, problem, command):
    """Without any curve a command ends without drawing."""
    before = sorted(os.listdir())
    with quiet(), work.Drawn() as drawn:
        command()
    m.observe("nothing to draw")
    if problem != "swe":  # the bottom may be drawn
        m.check(not drawn.saved and not drawn.shown and not drawn.films and sorted(os.listdir()) == before, "nothing is drawn without curves", problem=problem, before=before, after=sorted(os.listdir()))
        plt.close("all")


def plot_line(m, rng, problem):
    """The plot command of the command line."""
    os.chdir(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    os.mkdir("data")
    for i in range(2):
        key = str(rng.choice(["b1", "oscillation", "lake-at-rest"])) if problem == "swe" else DEFAULT[problem]
        end = float(np.round(rng.uniform(0.02, 0.15), 3))
        n, points = int(rng.integers(6, 14)), int(rng.integers(3, 40))
        if key == "lake-at-rest":
            points = max(points, 20)
            n = points if rng.random() < 0.5 else n
        initial = bool(rng.integers(2))
        line = ["plot", problem, "-b", key, "-T", end, "-m", points, "--hide"] + (["--initial"] if initial else [])
        how = int(rng.integers(4))
        save, data = None, "data/plot.pkl"
        if how == 1:
            save, data = "data/plot.png", "data/plot.pkl"
            line += ["--save"]
        elif how == 2:
            save, data = "fig.png", "fig.pkl"
            line += ["--save", save]
        elif how == 3:
            save, data = "fig.png", "other.pkl"
            line += ["--save", save, "--save-data", data]
        line += ["-s", "llf", "+m", n, "llf", "+m", n + 3, "+s", "second"]
        with quiet(), work.Drawn() as drawn:
            work.cli(*line)
        m.input(tuple(map(str, line)), sample={"line": " ".join(map(str, line))})
        bench = BENCHMARKS[problem][key]()
        bench.end_time = end
        kind = work.SWE["llf"] if problem == "swe" else work.SCALAR_FV["llf"]
        runs = []
        for size, label in ((n, "llf"), (n + 3, "second")):
            run = Run.__new__(Run)
            run.label, run.grid = label, grid(None, bench, size, 0)
            run.value = work.solve(kind(bench, mesh_size=size, cfl_number=0.1)).solution.value
            runs.append(run)
        curves = expectations(problem, bench, runs, initial, points)
        where = {"line": " ".join(map(str, line))}
        paths = lambda path: {"u": path} if problem != "swe" else {k: f"_{k}".join(os.path.splitext(path)) for k in "hqv"}
        m.check(sorted(s.path for s in drawn.saved) == (sorted(paths(save).values()) if save else []), "files of the plot command", **where, actual=[s.path for s in drawn.saved])
        for figure in drawn.saved:
            (k,) = [k for k, path in paths(save).items() if path == figure.path] or [None]
            judge(m, figure.lines, curves[k], where)
            m.observe("figures")
        for k, path in paths(data).items():
            judge_data(m, path, curves[k], where)
        m.check(not drawn.shown, "hidden plot is shown", **where)


# ---------------------------------------------------------------- animations
def film(m, rng, problem):
    os.chdir(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    for i in range(3):
        make = swe_case(rng) if problem == "swe" else scalar_case(rng, problem)
        number = int(rng.integers(0, 3))
        runs = []
        for k in range(number):
            label = f"solver {k}{rng.integers(10)}"
            if k and rng.random() < 0.3:
                label = base(runs[-1].label) + f"\0{k}"
            run = Run(rng, problem, make, label, history=True)
            run.bench = make
            if rng.random() < 0.2:
                fault(run, rng)
                m.observe("failed runs in films")
            runs.append(run)
        bench = make()
        initial = bool(rng.integers(2))
        steps, points = int(rng.integers(2, 9)), int(rng.integers(2, 30))
        start = float(bench.start_time + rng.uniform(0, 0.9) * (bench.end_time - bench.start_time)) if rng.random() < 0.4 else None
        if start is not None and rng.random() < 0.5 and bench.start_time <= 0 < bench.end_time:
            start = 0.0
            m.observe("films starting at zero", bench.start_time < 0)
        duration = float(rng.choice([1.0, 5.0, 20.0]))
        before = rng.random() < 0.3 and not any(r.failed for r in runs)
        if before:
            for run in runs:
                work.solve(run.solver)
        animate(m, rng, problem, make, runs, initial, steps, points, start, duration, before, f"film {i}.mp4", i)


def animate(m, rng, problem, make, runs, initial, steps, points, start, duration, before, path, i, line=None):
    bench = make()
    a, b = bench.domain.a, bench.domain.b
    x = np.linspace(a, b, points)
    try:
        [bench.exact_solution(y, bench.end_time) for y in x]
        exact = True
    except Exception:
        exact = False
    if not runs and not initial and not exact:
        if line is None and problem != "swe":
            nothing(m, problem, lambda: Animate(make(), [], ScalarAnimator(make(), mesh_size=points, time_steps=steps, save=path, start_time=start, duration=duration, show=False)).execute())
        return
    times = np.unique(np.concatenate([r.twin.solution.time_history for r in runs] + ([np.linspace(bench.start_time, bench.end_time, steps)] if exact or initial else [])))
    times = times[times >= (bench.start_time if start is None else start)]
    if len(times) == 0:  # all solvers failed before
        m.observe("films without times")
        return
    if len(times) > 30:
        m.observe("films too long")
        return
    where = {"problem": problem, "bench": repr(bench), "solvers": [r.name for r in runs], "initial": initial, "steps": steps, "points": points, "start": start}
    with quiet(), work.Drawn() as drawn:
        if line is not None:
            work.cli(*line)
        else:
            kind = ShallowWaterAnimator if problem == "swe" else ScalarAnimator
            animator = kind(make(), mesh_size=points, time_steps=steps, save=path, start_time=start, duration=duration, show=False)
            solver = [r.solver for r in runs]
            if len(runs) == 1 and rng.random() < 0.5:
                solver = solver[0]
            Animate(make(), solver, animator, initial=initial, solver_executed=before).execute()
        m.check(plt.get_fignums() == [], "hidden animations are closed", **where, open=plt.get_fignums())
    m.input(problem, "film", i, points, steps, start, [r.value for r in runs], nontrivial=bool(runs), sample=where)
    if not m.check(len(drawn.films) == 1 and drawn.films[0].path == path and os.path.exists(path), "animation is stored", **where, actual=[f.path for f in drawn.films]):
        return
    tape = drawn.films[0]
    m.check(tape.given_fps is None or tape.given_fps > 0, "frames per second", **where, actual=tape.given_fps)
    if tape.given_fps and len(times) >= duration:
        m.check(len(times) / duration / 2 < tape.given_fps <= len(times) / duration, "frames per second fit to the duration", **where, frames=len(times), actual=tape.given_fps, duration=duration)
    if tape.interval is not None:
        m.check(abs(tape.interval * len(times) - 1000 * duration) <= 1.001 * len(times), "a film which is shown lasts as long as ordered", **where, frames=len(times), actual=tape.interval, duration=duration)
    if not m.check(len(tape.frames) == len(times), "number of frames", **where, actual=len(tape.frames), expected=len(times)):
        return
    for frame, t in zip(tape.frames, times):
        m.observe("frames")
        m.check(f"T={t:.2f}" in frame.texts, "time written on a frame", **where, actual=frame.texts, expected=float(t))
        curves = {}
        for run in runs:
            s = run.twin.solution
            curves[run.label] = (run.grid, interpolated(s.time_history, s.value_history, t))
        if exact:
            curves["exact"] = (x, np.array([bench.exact_solution(y, t) for y in x]))
        if initial:
            curves["initial"] = (x, np.array([bench.initial_data(y) for y in x]))
        if problem != "swe":
            if initial:
                curves["$u_0$"] = curves.pop("initial")
            film_judge(m, frame.lines, curves, {**where, "time": float(t)})
            continue
        if not m.check(len(frame.axes) == 3, "parts of a frame", **where, actual=len(frame.axes)):
            return
        names = {"exact": ("$h+b$", "$q$", "$u$"), "initial": ("$h_0+b$", "$q_0$", "$u_0$")}
        for k, lines in enumerate(frame.axes):
            part = {}
            for label, (places, values) in curves.items():
                h, q = values[:, 0], values[:, 1]
                y = (h + np.array([bench.bathymetry(z) for z in places]), q, q / h)[k]
                part[names.get(label, (label,) * 3)[k]] = (places, y)
            if k == 0:
                part["$b$"] = (x, np.array([bench.bathymetry(y) for y in x]))
            film_judge(m, lines, part, {**where, "time": float(t), "part": k})
            visible(m, lines, frame.limits[k], {**where, "time": float(t), "part": k}, below=k > 0)


def visible(m, lines, limits, where, below=True):
    """Every point of the curves lies inside the axes."""
    left, right, bottom, top = limits
    for line in lines:
        m.observe("visible curves")
        slack = 1e-9 * max(1e-300, np.max(np.abs(line.y)))
        m.check(np.max(line.y) <= top + slack, "a curve leaves the picture at the top", **where, label=line.label, actual=float(np.max(line.y)), top=top)
        if below:
            m.check(np.min(line.y) >= bottom - slack, "a curve leaves the picture at the bottom", **where, label=line.label, actual=float(np.min(line.y)), bottom=bottom)
        m.check(left - 1e-9 * abs(left) <= np.min(line.x) and np.max(line.x) <= right + 1e-9 * abs(right), "a curve leaves the picture at the side", **where, label=line.label)


def film_judge(m, lines, curves, where):
    labels = sorted(line.label for line in lines)
    if not m.check(labels == sorted(map(base, curves)), "curves of a frame", **where, actual=labels, expected=sorted(curves)):
        return
    for line, (x, y) in matched(lines, curves):
        m.observe("frame curves")
        if m.check(len(line.y) == len(y), "number of points of a frame", **where, label=line.label):
            m.close(line.x, x, "places of a frame", 0, 1e-11 * np.max(np.abs(x)), **where, label=line.label)
            m.close(line.y, y, "values of a frame", 1e-10, 1e-11 * max(1e-300, np.max(np.abs(y))), **where, label=line.label)


def film_line(m, rng, problem):
    """The animate command of the command line."""
    os.chdir(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    for i in range(2):
        key = str(rng.choice(["b1", "oscillation", "lake-at-rest"])) if problem == "swe" else DEFAULT[problem]
        end = float(np.round(rng.uniform(0.02, 0.15), 3))

        def make():
            bench = BENCHMARKS[problem][key]()
            bench.end_time = end
            return bench

        n, points, steps = int(rng.integers(6, 14)), int(rng.integers(3, 40)), int(rng.integers(2, 7))
        initial = bool(rng.integers(2))
        line = ["animate", problem, "-b", key, "-T", end, "-m", points, "--hide", "--time_steps", steps, "--save", "film.mp4"] + (["--initial"] if initial else [])
        start = float(np.round(rng.uniform(0.1, 0.9) * end, 4)) if rng.random() < 0.5 else None
        if start is not None:
            line += ["-t", start]
        duration = 20.0
        if rng.random() < 0.5:
            duration = float(rng.choice([1.0, 2.5]))
            line += ["--duration", duration]
        kind = work.SWE["llf"] if problem == "swe" else work.SCALAR_FV["llf"]
        runs = []
        if rng.random() < 0.7 or not (initial or problem == "advection"):
            line += ["-s", "llf", "+m", n, "llf", "+m", n + 3, "+s", "second"]
            for size, label in ((n, "llf"), (n + 3, "second")):
                run = Run.__new__(Run)
                run.label, run.grid, run.name = label, grid(None, make(), size, 0), "llf"
                run.twin = work.solve(kind(make(), mesh_size=size, cfl_number=0.1, save_history=True))
                run.value = run.twin.solution.value
                runs.append(run)
        animate(m, rng, problem, make, runs, initial, steps, points, start, duration, False, "film.mp4", i, line=line)


def build(plan):
    for problem in BENCHMARKS:
        for i in range(2):
            plan.case(f"plots/{problem}/{i}", plots, problem)
            plan.case(f"films/{problem}/{i}", film, problem)
        plan.case(f"plot command/{problem}", plot_line, problem)
        plan.case(f"animate command/{problem}", film_line, problem)
