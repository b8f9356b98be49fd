"""C27: error series and parameter variations cover what they announce."""
import contextlib
import os
import tempfile

import core
import numpy as np
from benchmark.shallow_water import OscillationNoTopographyBenchmark, RandomBenchmarkGenerator
from command import GenerateShallowWaterErrorEvolutionSeries, PlotShallowWaterAverageErrorEvolution
from command.parameter_variation_test import PARAMETER_VARIATIONS, ParameterVariation, ParameterVariationTest

import work
from C18 import quiet
from C20 import interpolated, relative

RULE = (
    "error series over random benchmarks (one to five, seeds, fixed parameters, pairs of solvers, injected failures) and "
    "parameter variations (classes and command line, references, built-in and own parameters); the benchmarks given to both "
    "solvers are recorded and every error, average, plotted curve and file is recomputed from solvers run from scratch. "
    "Non-trivial: series of more than one benchmark."
)
QUICK_ROUNDS = 4
REQUIRE = {"benchmarks": 50, "series": 20, "errors": 200, "averages": 15, "files": 60, "failures": 1, "variations": 6}

PARAMETERS = {
    "height_average": ("h0", lambda rng: float(rng.uniform(1.5, 3))),
    "height_amplitude": ("Ah", lambda rng: float(rng.uniform(0.2, 0.6))),
    "height_phase_shift": ("ph", lambda rng: float(rng.uniform(0.1, 6))),
    "height_wave_number": ("kh", lambda rng: int(rng.integers(1, 4))),
    "velocity_average": ("v0", lambda rng: float(rng.uniform(0.5, 1.5))),
    "velocity_amplitude": ("Av", lambda rng: float(rng.uniform(0.1, 0.5))),
    "velocity_phase_shift": ("pv", lambda rng: float(rng.uniform(0.1, 6))),
    "velocity_wave_number": ("kv", lambda rng: int(rng.integers(1, 3))),
}


def scratch():
    os.chdir(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))


class Pair:
    def __init__(self, rng, end):
        self.end = end
        self.n = n = int(rng.choice([8, 10, 12]))
        kinds = [str(k) for k in rng.choice(["llf", "low-order", "es1", "mcl"], 2)]
        cfl = [float(np.round(rng.uniform(0.04, 0.1), 4)) for _ in range(2)]
        k = int(rng.choice([2, 3])) if rng.random() < 0.4 else None
        self.words = [[kinds[0], "+m", n, "++cfl", cfl[0], "+s", "approximation"], [kinds[1], "+m", n, "++cfl", cfl[1], "+s", "reference"]]
        if k:
            self.words[1] = ["coarse", "+m", k * n, "++cfl", cfl[1], "+c", k, "+s", "reference"]

        def build(bench):
            one = work.SWE[kinds[0]](bench, mesh_size=n, cfl_number=cfl[0], short="approximation", save_history=True)
            if k:
                return one, work.SWE["coarse"](bench, mesh_size=k * n, cfl_number=cfl[1], coarsening_degree=k, short="reference", save_history=True)
            return one, work.SWE[kinds[1]](bench, mesh_size=n, cfl_number=cfl[1], short="reference", save_history=True)

        self.build = build

    def fresh(self, bench):
        """Times, errors and both solutions for a benchmark, from scratch."""
        one, two = (work.solve(s) for s in self.build(bench))
        u, v = one.solution, two.solution
        t = u.time_history if len(u.time_history) > len(v.time_history) else v.time_history
        return t, np.array([relative(u.time_history, u.value_history, v.time_history, v.value_history, s) for s in t]), u, v

    def solvers(self, log=None, failing=()):
        """Solvers as a command gets them, recording the benchmarks they are given."""
        solvers = self.build(OscillationNoTopographyBenchmark(end_time=self.end))
        if log is not None:
            for i, solver in enumerate(solvers):
                reinitialize = solver.reinitialize

                def hooked(bench, i=i, reinitialize=reinitialize):
                    log[i].append(bench)
                    reinitialize(bench)

                solver.reinitialize = hooked
        if failing:
            ode = solvers[0].as_dict()["ode_solver"]
            execute = ode.execute

            def faulty(dt):
                if len(log[0]) - 1 in failing and ode.time + dt >= 0.5 * self.end:
                    raise ValueError("Fault for testing.")
                execute(dt)

            ode.execute = faulty
        return solvers


@contextlib.contextmanager
def recorded(log):
    """Records the benchmarks all solvers are re-initialised with."""
    classes, depth = [core.Solver], [0]
    for cls in classes:
        classes += [c for c in cls.__subclasses__() if c not in classes]
    classes = [c for c in classes if "reinitialize" in vars(c)]
    olds = [vars(c)["reinitialize"] for c in classes]

    def hook(old):
        def hooked(self, bench):
            if not depth[0]:
                log[1 if self.short == "reference" else 0].append(bench)
            depth[0] += 1
            try:
                old(self, bench)
            finally:
                depth[0] -= 1

        return hooked

    for c, old in zip(classes, olds):
        c.reinitialize = hook(old)
    try:
        yield
    finally:
        for c, old in zip(classes, olds):
            c.reinitialize = old


def average(times, errors):
    """Mean and maximum of all series on the shortest time grid."""
    t = min(times, key=len)
    values = np.array([[interpolated(s, e, x) for x in t] for s, e in zip(times, errors)])
    return t, values.mean(axis=0), values.max(axis=0)


def judge_average(m, drawn, path, times, errors, where):
    base, extension = os.path.splitext(path)
    t, mean, most = average(times, errors)
    for i, suffix in enumerate(("_h", "_q")):
        name = base + suffix + extension
        m.observe("files")
        figures = [s for s in drawn.saved if os.path.normpath(s.path) == os.path.normpath(name)]
        if not m.check(len(figures) == 1 and os.path.exists(name), "average error plot is stored once", **where, path=name, actual=[s.path for s in drawn.saved][-6:]):
            continue
        figure = figures[0]
        if m.check(len(figure.lines) == 1 and len(figure.lines[0].x) == len(t), "curves of an average error plot", **where, actual=len(figure.lines)):
            m.close(figure.lines[0].x, t, "times of an average error", 1e-12, **where)
            m.close(figure.lines[0].y, mean[:, i], "average error", 1e-9, 1e-13, **where)
            m.observe("averages")
        if m.check(len(figure.fills) == 1, "band of an average error plot", **where):
            vertices = figure.fills[0]
            for values, what in ((mean, "lower edge of the band"), (most, "upper edge of the band")):
                distance = [np.min(np.abs(vertices[:, 0] - x) + np.abs(vertices[:, 1] - y)) for x, y in zip(t, values[:, i])]
                m.close(max(distance), 0.0, what, 0, 1e-9 * max(1, t[-1]), **where)
            m.check(vertices[:, 1].max() <= most[:, i].max() * (1 + 1e-9) + 1e-12, "band exceeds the largest error", **where)


def judge_series(m, rng, pair, log, expected, times, errors, failing, where):
    """The benchmarks of a series and its results."""
    for i, name in enumerate(("approximation", "reference")):
        got = [b.as_dict() for b in log[i]]
        m.check([str(g) for g in got] == [str(b.as_dict()) for b in expected], "benchmarks given to a solver", **where, solver=name, actual=[str(g) for g in got][:2], expected=str(expected[0].as_dict()))
    m.observe("benchmarks", len(expected))
    m.observe("series")
    solutions, good = [], [b for i, b in enumerate(expected) if i not in failing]
    if not m.check(len(times) == len(errors) == len(good), "number of series", **where, actual=len(times), expected=len(good)):
        return [pair.fresh(b) for b in good]
    for bench, t, e in zip(good, times, errors):
        fresh = pair.fresh(bench)
        solutions.append(fresh)
        m.check(len(t) == len(fresh[0]), "number of recorded errors", **where, actual=len(t), expected=len(fresh[0]))
        if len(t) == len(fresh[0]):
            m.close(t, fresh[0], "times of a series", 1e-12, **where)
            m.close(e, fresh[1], "errors of a series", 1e-8, 1e-12, **where)
        m.observe("errors", np.size(e))
    return solutions


def series(m, rng):
    for _ in range(3):
        scratch()
        end = float(np.round(rng.uniform(0.3, 1.2), 3))
        pair = Pair(rng, end)
        number, seed = int(rng.integers(1, 6)), int(rng.integers(1, 10**6))
        names = [str(k) for k in rng.choice(list(PARAMETERS), int(rng.integers(0, 3)), replace=False)]
        fixed = {k: PARAMETERS[k][1](rng) for k in names}
        failing = {int(rng.integers(number))} if number > 1 and rng.random() < 0.4 else set()
        flags = {k: bool(rng.random() < 0.4) for k in ("save_plot", "save_error")}
        flags["save_animation"] = bool(rng.random() < 0.1)
        log = [], []
        one, two = pair.solvers(log, failing)
        where = {"pair": str(pair.words), "number": number, "seed": seed, "fixed": fixed, "failing": sorted(failing)}
        earlier = bool(rng.integers(2))
        if earlier:  # results of another series are kept
            os.makedirs("out")
            with open("out/notes.txt", "w") as f:
                f.write("kept")
        with quiet() as out, work.Drawn() as drawn:
            generator = GenerateShallowWaterErrorEvolutionSeries(
                one, two, seed=seed, end_time=end, initial_conditions=number, description="test", save_directory="out" if any(flags.values()) else None, **flags, **fixed
            )
            generator.execute()
        source = RandomBenchmarkGenerator(seed=seed, end_time=end, **fixed)
        expected = [source() for _ in range(number)]
        m.input("series", pair.words, number, seed, fixed, end, nontrivial=number > 1, sample=where)
        for bench in expected:
            for k, value in fixed.items():
                m.check(bench.as_dict()[PARAMETERS[k][0]] == value, "fixed parameter is honoured", parameter=k, value=value)
        solutions = judge_series(m, rng, pair, log, expected, generator.times, generator.errors, failing, where)
        for i in failing:
            m.check(f"seed={expected[i].seed}" in out.getvalue(), "failed benchmark is reported", **where)
            m.observe("failures")
        files(m, drawn, "out", flags, expected, failing, solutions, where)
        names = ["notes.txt"] * earlier
        for i in set(range(number)) - failing:
            names += [f"error_{i}.png"] * flags["save_error"] + [f"plot_{i}_{k}.png" for k in "hqv"] * flags["save_plot"] + [f"animation_{i}.mp4"] * flags["save_animation"]
        m.check((sorted(os.listdir("out")) if os.path.isdir("out") else []) == sorted(names), "files of a series are those ordered", **where, flags=flags, actual=sorted(os.listdir("out")) if os.path.isdir("out") else [], expected=sorted(names))
        m.check(os.listdir(".") in (["out"], []), "files outside of the directory of a series", **where, actual=os.listdir("."))
        m.check(not drawn.shown, "a series shows nothing", **where)
        if solutions:
            with quiet(), work.Drawn() as drawn:
                PlotShallowWaterAverageErrorEvolution(generator.times, generator.errors, show=False, save="average.png").execute()
            judge_average(m, drawn, "average.png", [s[0] for s in solutions], [s[1] for s in solutions], where)


def files(m, drawn, directory, flags, expected, failing, solutions, where):
    """Plots stored for every benchmark of a series."""
    solutions = iter(solutions)
    norm = os.path.normpath
    for i, bench in enumerate(expected):
        names = [f"error_{i}.png"] * flags["save_error"] + [f"plot_{i}_{k}.png" for k in "hqv"] * flags["save_plot"] + [f"animation_{i}.mp4"] * flags["save_animation"]
        if i in failing:
            continue
        t, e, u, v = next(solutions)
        for name in names:
            path = os.path.join(directory, name)
            m.observe("files")
            if name.endswith("mp4"):
                tapes = [f for f in drawn.films if norm(f.path) == norm(path)]
                if m.check(len(tapes) == 1 and os.path.exists(path), "animation of a series is stored", **where, path=path):
                    frames = np.unique(np.concatenate([u.time_history, v.time_history]))
                    m.check(len(tapes[0].frames) == len(frames), "frames of a series", **where, actual=len(tapes[0].frames), expected=len(frames))
                continue
            figures = [s for s in drawn.saved if norm(s.path) == norm(path)]
            if not m.check(len(figures) == 1 and os.path.exists(path), "plot of a series is stored", **where, path=path, actual=[s.path for s in drawn.saved][-6:]):
                continue
            (figure,) = figures
            if name.startswith("error"):
                m.check(str(bench.seed) in figure.title, "title names the seed", **where, title=figure.title, benchmark_seed=bench.seed)
                if m.check(len(figure.lines) == 2, "curves of an error plot", **where, actual=len(figure.lines)):
                    for j, line in enumerate(figure.lines):
                        if m.check(len(line.y) == len(e), "points of an error plot", **where):
                            m.close(line.y, e[:, j], "values of an error plot", 1e-8, 1e-12, **where)
                continue
            k = "hqv".index(name[-5])
            values = {"approximation": u.value, "reference": v.value}
            if m.check(sorted(l.label for l in figure.lines) == sorted(values), "curves of a plot of a series", **where, actual=[l.label for l in figure.lines]):
                for line in figure.lines:
                    w = values[line.label]
                    m.close(line.y, (w[:, 0], w[:, 1], w[:, 1] / w[:, 0])[k], "values of a plot of a series", 1e-8, 1e-12, **where, path=path)


def described(bench):
    """The data of a benchmark (the end time is up to the solvers)."""
    return str({k: v for k, v in bench.as_dict().items() if k != "end_time"})


class Own(ParameterVariation):
    def __init__(self, rng, taken):
        name = str(rng.choice([k for k in PARAMETERS if k not in taken]))
        self.name, self.short, self.description = name, PARAMETERS[name][0], "own"
        self.values = list(dict.fromkeys(PARAMETERS[name][1](rng) for _ in range(int(rng.integers(1, 3)))))
        other = str(rng.choice([k for k in PARAMETERS if k != name]))
        self.benchmark_defaults = {other: PARAMETERS[other][1](rng)}


def variation(m, rng, command):
    """A parameter variation test as a whole."""
    for _ in range(2):
        scratch()
        end = float(np.round(rng.uniform(0.2, 0.6), 3))
        pair = Pair(rng, end)
        number, seed = int(rng.integers(1, 3)), int(rng.integers(1, 1000))
        references = str(rng.choice(["references", "ref"])) if rng.random() < 0.6 else None
        prefix = str(rng.choice(["error", "nn"]))
        keys = [str(k) for k in rng.choice(list(PARAMETER_VARIATIONS), int(rng.integers(0, 3)), replace=False)]
        save_plot = bool(rng.random() < 0.3)
        log = [], []
        if rng.random() < 0.5:
            os.makedirs(str(rng.choice(["out", "out/references", "out/height_average"])))
        if command:
            line = ["parameter-variation-test", "out/", "-n", number, "--seed", seed, "-T", end]
            if references:
                line += ["--references"] + ([references] if references != "references" or rng.random() < 0.5 else [])
            if prefix != "error":
                line += ["--references-prefix", prefix]
            if keys or rng.random() < 0.3:
                line += ["-v", *(keys or ["all"])]
                keys = keys or list(PARAMETER_VARIATIONS)
            if save_plot:
                line += ["--save-plot"]
            line += ["-s", *pair.words[0], *pair.words[1]]
            variations = [PARAMETER_VARIATIONS[k] for k in keys]
            m.check({"height-average": [1.6, 2.4], "wave-number": [10, 15], "amplitude": [0.8, 1.0, 1.5]} == {k: list(np.round(v.values, 12)) for k, v in PARAMETER_VARIATIONS.items()}, "built-in variations")
            with recorded(log), quiet(), work.Drawn() as drawn:
                work.cli(*line)
        else:
            variations = [PARAMETER_VARIATIONS[k] for k in keys] + [Own(rng, {PARAMETER_VARIATIONS[k].name for k in keys})]
            one, two = pair.solvers(log)
            line = [v.name for v in variations]
            with quiet(), work.Drawn() as drawn:
                ParameterVariationTest(
                    one, two, "out/", initial_data_number=number, seed=seed, end_time=end, references=references, references_prefix=prefix,
                    parameter_variations=variations, save_plot=save_plot,
                ).execute()
        where = {"line": " ".join(map(str, line)), "pair": str(pair.words)}
        m.input(tuple(map(str, line)), pair.words, seed, end, [list(v.values) for v in variations], nontrivial=number > 1, sample=where)
        runs = [({}, f"out/{references}", f"out/{references}/{prefix}_average.png")] if references else []
        for v in variations:
            for value in v.values:
                runs.append(({v.name: value, **v.benchmark_defaults}, f"out/{v.name}/{value}", f"out/{v.name}/{v.short}_{value}_average.png"))
        everything = []
        for fixed, directory, picture in runs:
            source = RandomBenchmarkGenerator(seed=seed, end_time=end, **fixed)
            expected = [source() for _ in range(number)]
            everything += expected
            solutions = [pair.fresh(b) for b in expected]
            m.observe("series")
            m.observe("errors", sum(s[1].size for s in solutions))
            for bench in expected:
                for k, value in fixed.items():
                    m.check(bench.as_dict()[PARAMETERS[k][0]] == value, "parameter is honoured", parameter=k, value=value)
            files(m, drawn, directory, {"save_error": True, "save_plot": save_plot, "save_animation": False}, expected, set(), solutions, {**where, "directory": directory})
            judge_average(m, drawn, picture, [s[0] for s in solutions], [s[1] for s in solutions], {**where, "directory": directory})
            m.observe("variations")
        m.observe("benchmarks", len(everything))
        for i, name in enumerate(("approximation", "reference")):
            m.check([described(b) for b in log[i]] == [described(b) for b in everything], "benchmarks given to a solver", **where, solver=name, actual=len(log[i]), expected=len(everything))
        m.check(not drawn.films and not drawn.shown, "animations or windows without order", **where, films=[f.path for f in drawn.films])
        stored = sorted(os.path.normpath(s.path) for s in drawn.saved)
        m.check(len(stored) == len(set(stored)), "files overwrite each other", **where, stored=stored)
        m.check(len(stored) == len(runs) * (number * (1 + 3 * save_plot) + 2), "number of stored files", **where, actual=len(stored))


def averages(m, rng):
    """Averages of arbitrary series."""
    for _ in range(4):
        scratch()
        number = int(rng.integers(1, 6))
        end = float(rng.uniform(0.5, 5))
        times = [np.concatenate([[0.0], np.sort(rng.uniform(0, end, int(rng.integers(1, 12)))), [end]]) for _ in range(number)]
        errors = [rng.uniform(0, 1, (len(t), 2)) for t in times]
        with quiet(), work.Drawn() as drawn:
            PlotShallowWaterAverageErrorEvolution([t.copy() for t in times], [e.copy() for e in errors], show=False, save="a.png").execute()
        m.input("averages", number, times, nontrivial=number > 1)
        judge_average(m, drawn, "a.png", times, errors, {"number": number})


def build(plan):
    for i in range(3):
        plan.case(f"series/{i}", series)
    plan.case("variation/classes", variation, False)
    plan.case("variation/command", variation, True)
    plan.case("averages", averages)
