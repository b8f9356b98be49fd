"""C18: the command line does what the same call of the classes does."""
import contextlib
import io
import os
import tempfile

import benchmark.advection as advection
import benchmark.burgers as burgers
import benchmark.shallow_water as shallow_water
import core
import defaults
import finite_volume.shallow_water.solver as sw
import numpy as np
import pandas as pd

import work

RULE = (
    "command lines drawn at random (problem, benchmark key or default, end time, one to four solvers with options in long, "
    "short or abbreviated spelling, labels which equal solver keys) are given to the real parser and executed; every solver "
    "has to end with bitwise the same solution, time, grid, name and label as a solver built from the classes with the values "
    "written on the command line (and the documented defaults for the others); generate-data, delete-curvature, "
    "analyze-data, train-network and help are compared by the files and text they produce; ill-formed lines must not compute "
    "anything. Non-trivial: lines with at least one option."
)
QUICK_ROUNDS = 2
REQUIRE = {"repeated solvers": 8, "lines": 80, "solvers compared": 120, "options": 200, "rejected": 60, "time steps": 400, "commands compared": 8}

BENCHMARKS = {
    "advection": {
        "three-hills": advection.ThreeHillsBenchmark, "two-hills": advection.TwoHillsBenchmark, "one-hill": advection.OneHillBenchmark,
        "cos": advection.CosineBenchmark, "gauss": advection.GaussianBellBenchmark,
    },
    "burgers": {"shock": burgers.SchockBenchmark, "smooth": burgers.SmoothBenchmark},
    "swe": {
        "lake-at-rest-no-bathymetry": shallow_water.LakeAtRestNoBathymetryBenchmark,
        "lake-at-rest": shallow_water.LakeAtRestBenchmark,
        "lake-at-rest-perturbation": shallow_water.PerturbatedLakeAtRestBenchmark,
        "moving-water-no-bathymetry": shallow_water.MovingWaterNoBathymetryBenchmark,
        "moving-water-bump-bathymetry": shallow_water.MovingWaterBumpBathymetryBenchmark,
        "oscillation": shallow_water.OscillationNoTopographyBenchmark,
        "damm-break": shallow_water.DammBreakBenchmark,
        "cylindrical-damm-break": shallow_water.CylindricalDammBreakWithOutflowBenchmark,
        "cylindrical-damm-break-with-wall": shallow_water.CylindricalDammBreakWithReflectingBoundaryBenchmark,
        "sinus-inflow": shallow_water.SinusInflowBenchmark,
        "b1": shallow_water.FirstBenchmark, "b2": shallow_water.SecondBenchmark, "b3": shallow_water.ThirdBenchmark,
        "b4": shallow_water.FourthBenchmark, "b5": shallow_water.FifthBenchmark,
    },
}
DEFAULT = {"advection": "two-hills", "burgers": "shock", "swe": "oscillation"}

FV, FE = defaults.FINITE_VOLUME_CFL_NUMBER, defaults.FINITE_ELEMENT_CFL_NUMBER
SIZE = defaults.CALCULATE_MESH_SIZE
FLUXES = {
    "central": sw.CentralFluxGetter, "es": sw.EnergyStableFluxGetter, "es1": sw.FirstOrderDiffusiveEnergyStableFluxGetter,
    "llf": sw.LaxFriedrichsFluxGetter, "low-order": sw.LowOrderFluxGetter,
}
# key: (class, mesh size, CFL number, further options)
SCALAR = {
    "cg": (work.FE["cg"], SIZE, FE, "px"),
    "cg-low": (work.FE["cg-low"], SIZE, 1.0, "pao"),
    "mcl-fem": (work.FE["mcl-fem"], SIZE, 1.0, "pao"),
    "llf": (work.SCALAR_FV["llf"], SIZE, FV, ""),
    "central": (work.SCALAR_FV["central"], SIZE, FV, ""),
    "mcl-fv": (work.SCALAR_FV["mcl-fv"], SIZE, FV, "o"),
}
SWE = {
    "llf": (sw.LaxFriedrichsSolver, SIZE, FV, "o"),
    "lw": (sw.LaxWendroffSolver, SIZE, FV, ""),
    "low-order": (sw.LowOrderSolver, SIZE, FV, "o"),
    "central": (sw.CentralFluxSolver, SIZE, FV, ""),
    "es": (sw.EnergyStableSolver, SIZE, FV, "o"),
    "es1": (sw.FirstOrderDiffusiveEnergyStableSolver, SIZE, FV, "o"),
    "mcl": (sw.MCLSolver, SIZE, FV, "of"),
    "antidiffusion": (sw.LinearAntidiffusiveSolver, SIZE, FV, "ofg"),
    "coarse": (sw.CoarseSolver, SIZE, FV, "ofc"),
    "reduced-llf": (sw.ReducedLaxFriedrichsSolver, 50, FV / defaults.COARSENING_DEGREE, "o"),
    "reduced-llf-2": (sw.ReducedLaxFriedrichs2Solver, 50, FV / 40, "o"),
}
ROUGH = {"central", "lw", "es", "antidiffusion", "cg"}  # may fail for rough data


def spelled(rng, short, long):
    """One of the spellings argparse accepts for an option."""
    choices = [s for s in (short, long) if s]
    if rng.random() < 0.2 and len(long) > 6:
        choices = [long[:-1]]
    return str(rng.choice(choices))


def solver_line(rng, table, key, sizes=(8, 12, 16), explicit=None):
    """(words of the command line, class, keyword arguments of the class)"""
    kind, size, cfl, extra = table[key]
    words, options = [], {}
    given = lambda: rng.random() < (0.5 if explicit is None else explicit)
    n = int(rng.choice(sizes))
    parts = [("mesh", n)]  # default meshes are too large for most runs
    kwargs = {"mesh_size": n, "cfl_number": cfl, "name": None, "short": key}
    if given():
        kwargs["cfl_number"] = float(np.round(cfl * rng.uniform(0.4, 1.0), 5))
        parts.append(("cfl", kwargs["cfl_number"]))
    if given():
        kwargs["name"] = str(rng.choice(["Test", "My Solver", "llf", "central", "u(x)"]))
        parts.append(("name", kwargs["name"]))
    if given():
        kwargs["short"] = str(rng.choice(["S", "central", "llf", "reference solution", "cg", "mcl"]))
        parts.append(("short", kwargs["short"]))
    if "p" in extra:
        kwargs["polynomial_degree"] = defaults.POLYNOMIAL_DEGREE
        if given():
            kwargs["polynomial_degree"] = int(rng.integers(1, 4))
            parts.append(("degree", kwargs["polynomial_degree"]))
    if "x" in extra and given():
        kwargs["exact_flux"] = True
        parts.append(("exact", None))
    if "a" in extra and given():
        kwargs["adaptive"] = True
        parts.append(("adaptive", None))
    if "o" in extra:
        kwargs["ode_solver_type"] = work.ODE[defaults.ODE_SOLVER]
        if given():
            ode = str(rng.choice(list(work.ODE)))
            kwargs["ode_solver_type"] = work.ODE[ode]
            parts.append(("ode", ode))
    if "f" in extra and given():
        flux = str(rng.choice(list(FLUXES)))
        kwargs["flux_getter"] = FLUXES[flux]()
        parts.append(("flux", flux))
    if "g" in extra:
        kwargs["gamma"] = defaults.ANTIDIFFUSION_GAMMA
        if given():
            kwargs["gamma"] = float(np.round(rng.uniform(-0.05, 0.05), 4))
            parts.append(("gamma", kwargs["gamma"]))
    if "c" in extra:
        kwargs["coarsening_degree"] = defaults.COARSENING_DEGREE
        if given():
            degree = int(rng.choice([d for d in (1, 2, 4) if n % d == 0]))
            kwargs["coarsening_degree"] = degree
            parts.append(("degree of coarsening", degree))
        if n % kwargs["coarsening_degree"]:
            kwargs["mesh_size"] = n = 2 * kwargs["coarsening_degree"]
            parts[0] = ("mesh", n)
    spelling = {
        "mesh": ("+m", "++mesh-size"), "cfl": (None, "++cfl"), "name": ("+n", "++name"), "short": ("+s", "++short"),
        "degree": ("+p", "++polynomial-degree"), "exact": (None, "++exact-flux"), "adaptive": (None, "++adaptive"),
        "ode": ("+o", "++ode-solver"), "flux": ("+f", "++flux"), "gamma": ("+g", "++gamma"), "degree of coarsening": ("+c", "++coarsening-degree"),
    }
    for i in rng.permutation(len(parts)):
        name, value = parts[i]
        option = spelled(rng, *spelling[name])
        if value is None:
            words += [option]
        elif option.startswith("++") and rng.random() < 0.2:
            words += [f"{option}={value}"]
        else:
            words += [option, str(value)]
    return [key] + words, kind, kwargs, len(parts)


def construct(kind, bench, kwargs):
    return kind(bench, **{k: v for k, v in kwargs.items() if v is not None})


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


def problem_words(rng, problem, mild=False):
    """Benchmark and end time of a line: words and a factory of the benchmark."""
    table = BENCHMARKS[problem]
    words, options = [], 0
    key = DEFAULT[problem]
    if rng.random() < 0.75:
        choices = ["oscillation", "b1", "b2", "b3", "b4", "b5"] if mild else list(table)
        key = str(rng.choice(choices))
        words += [str(rng.choice(["-b", "--benchmark"])), key]
        options += 1
    bench = table[key]
    if problem == "swe" and rng.random() < 0.15:
        seed = int(rng.integers(0, 1000))
        words, options = [str(rng.choice(["-r", "--random-benchmark"])), str(seed)], 1
        bench = lambda: shallow_water.RandomOscillationNoTopographyBenchmark(seed=seed)
    return words, bench, options


def end_time(rng, bench, steps, cfl, sizes):
    """An end time after about STEPS steps of the finest mesh."""
    b = bench()
    speed = 1.5
    if b.problem == "shallow_water":
        h = max(float(np.atleast_1d(b.initial_data(x))[0]) for x in np.linspace(b.domain.a, b.domain.b, 50))
        speed = 2 + np.sqrt(b.gravitational_acceleration * h)
    return float(f"{max(steps * cfl * b.domain.length / sizes / speed, 1e-6):.4g}")


def compare(m, solver, reference, where):
    m.check(type(solver) is type(reference), "command line builds the wrong class of solver", **where, actual=type(solver).__name__)
    m.check(solver.name == reference.name or where["default_name"], "command line gives a solver the wrong name", **where, actual=solver.name)
    m.check(solver.short == reference.short, "command line gives a solver the wrong label", **where, actual=solver.short)
    a, b = solver.solution, reference.solution
    m.check(np.array_equal(a.grid, b.grid), "command line builds another grid than the class", **where)
    m.check(a.time == b.time, "command line solver ends at another time than the class", **where, actual=a.time, expected=b.time)
    m.check(np.array_equal(a.value, b.value, equal_nan=True), "command line solver computes something else than the class", **where)


def stated(m, solver, kwargs, where):
    """What the line says about a solver is visible in the solver."""
    if kwargs.get("name") is not None:
        m.check(solver.name == kwargs["name"], "name given for a solver", **where, actual=solver.name, expected=kwargs["name"])
    m.check(solver.short == kwargs["short"], "label given for a solver", **where, actual=solver.short, expected=kwargs["short"])
    size = kwargs["mesh_size"] // kwargs.get("coarsening_degree", 1) * kwargs.get("polynomial_degree", 1)
    m.check(len(solver.solution.grid) == size, "mesh given for a solver", **where, actual=len(solver.solution.grid), expected=size)
    if "ode_solver_type" in kwargs:
        m.check(type(solver.as_dict()["ode_solver"]) is kwargs["ode_solver_type"], "ODE solver given for a solver", **where, actual=type(solver.as_dict()["ode_solver"]).__name__)


def lines(m, rng, problem):
    table = SCALAR if problem != "swe" else SWE
    for _ in range(8):
        number = int(rng.choice([1, 1, 2, 3, 4]))
        keys = [str(k) for k in rng.choice([k for k in table if not k.startswith("reduced")], number)]
        reduced = problem == "swe" and rng.random() < 0.25
        if reduced:
            work.Network(rng, second=False)
            keys[0] = "reduced-llf"
        mild = problem == "swe" and (reduced or bool(ROUGH & set(keys)) or "coarse" in keys)
        words, bench, options = problem_words(rng, problem, mild)
        specs = [solver_line(rng, table, key) for key in keys]
        if rng.random() < 0.25:  # the same solver once more, word for word
            specs.insert(int(rng.integers(number + 1)), specs[int(rng.integers(number))])
            number += 1
            m.observe("repeated solvers")
        finest = max(s[2]["mesh_size"] * s[2].get("polynomial_degree", 1) for s in specs)
        cfl = min(s[2]["cfl_number"] for s in specs)
        final = end_time(rng, bench, 4, cfl, finest)
        if rng.random() < 0.85 or mild:
            words = words + [str(rng.choice(["-T", "--end-time"])), str(final)] if rng.random() < 0.5 else [str(rng.choice(["-T", "--end-time"])), str(final)] + words
            options += 1
        else:
            final = None
        line = ["calculate", problem, *words, str(rng.choice(["-s", "--solver"]))] + [w for s in specs for w in s[0]]
        options += sum(s[3] for s in specs)
        m.input(tuple(line), nontrivial=options > number, sample={"line": " ".join(map(str, line))})
        m.observe("lines")
        m.observe("options", options)
        references = []
        b = bench()
        if final is not None:
            b.end_time = final
        failed = None
        for _, kind, kwargs, _ in specs:
            solver = construct(kind, b, kwargs)
            references.append(solver)
        for solver in references:
            try:
                work.solve(solver)
            except (ValueError, FloatingPointError) as error:
                failed = error
                break
        with quiet() as out:
            try:
                namespace = work.parse(*line)
                solvers = namespace.solver
                options_of_command = {k: v for k, v in vars(namespace).items() if k not in ("command", "args", "profile")}
                command = namespace.command(**options_of_command)
                command.execute()
                raised = None
            except SystemExit:
                raise AssertionError("valid command line was refused: " + " ".join(map(str, line)) + " " + out.getvalue()[-500:])
            except (ValueError, FloatingPointError) as error:
                raised = error
        m.check((raised is None) == (failed is None), "command line fails although the classes do not (or vice versa)", line=line, error=str(raised or failed))
        m.check(len(solvers) == number, "number of solvers on the command line", line=line, actual=len(solvers))
        m.check(len({id(s) for s in solvers}) == number and len({id(s.solution) for s in solvers}) == number, "every solver of the command line is one of its own", line=line)
        for solver, reference, (_, _, kwargs, _) in zip(solvers, references, specs):
            compare(m, solver, reference, {"line": " ".join(map(str, line)), "default_name": kwargs["name"] is None})
            stated(m, solver, kwargs, {"line": " ".join(map(str, line))})
            m.observe("solvers compared")
        m.observe("time steps", 4 * number)


def default_sizes(m, rng, problem):
    """Lines which leave everything open: documented defaults are used."""
    table = SCALAR if problem != "swe" else SWE
    keys = list(table)
    if problem == "swe":
        work.Network(rng, second=False)
        keys = [k for k in keys if k != "reduced-llf-2"]
    keys = [str(k) for k in rng.permutation(keys)[:3]]
    for key in keys:
        kind, size, cfl, extra = table[key]
        line = ["calculate", problem, "-s", key]
        b = BENCHMARKS[problem][DEFAULT[problem]]()
        final = end_time(rng, BENCHMARKS[problem][DEFAULT[problem]], 2, cfl, size)
        line[2:2] = ["-T", str(final)]
        b.end_time = final
        kwargs = {"mesh_size": size, "cfl_number": cfl, "short": key}
        if "p" in extra:
            kwargs["polynomial_degree"] = defaults.POLYNOMIAL_DEGREE
        if "o" in extra:
            kwargs["ode_solver_type"] = work.ODE[defaults.ODE_SOLVER]
        if "g" in extra:
            kwargs["gamma"] = defaults.ANTIDIFFUSION_GAMMA
        if "c" in extra:
            kwargs["coarsening_degree"] = defaults.COARSENING_DEGREE
        reference = work.solve(construct(kind, b, kwargs))
        with quiet():
            namespace = work.parse(*line)
            work.solve(namespace.solver[0])
        m.input(tuple(line), nontrivial=False)
        compare(m, namespace.solver[0], reference, {"line": " ".join(line), "default_name": True})
        stated(m, namespace.solver[0], kwargs, {"line": " ".join(line)})
        m.check(namespace.solver[0].name != "", "solver without a name", line=line)
        m.observe("solvers compared")
        m.observe("time steps", 2)


class Computed(Exception):
    pass


def rejections(m, rng, problem):
    """Ill-formed lines do not compute anything."""
    table = SCALAR if problem != "swe" else SWE
    key = str(rng.choice([k for k in table if "o" in table[k][3] and not k.startswith("reduced")]))
    bad = [
        [problem.upper(), "-s", key],
        [problem, "-b", "nonsense", "-s", key],
        [problem, "-b", DEFAULT[problem] + "x", "-s", key],
        [problem, "-s", "nonsense"],
        [problem, "-s", key, "nonsense"],
        [problem, "-s", key, "+x", "3"],
        [problem, "--nonsense", "-s", key],
        [problem, "-s", key, "+m", str(rng.choice(["0", "-4", "2.5", "many", ""]))],
        [problem, "-s", key, "++cfl", str(rng.choice(["0", "-0.1", "fast", ""]))],
        [problem, "-s", key, "+o", str(rng.choice(["rk4", "EULER", ""]))],
        [problem, "-s", key, "+m"],
        [problem, "-T", str(rng.choice(["0", "-1", "later"])), "-s", key],
    ]
    if problem == "swe":
        bad += [
            [problem, "-s", "mcl", "+f", "nonsense"],
            [problem, "-s", "coarse", "+c", str(rng.choice(["0", "-1", "1.5"]))],
            [problem, "-s", "antidiffusion", "+g", "much"],
            [problem, "-b", "b1", "-r", "3", "-s", key],
            [problem, "-r", "seed", "-s", key],
        ]
    else:
        bad += [[problem, "-s", "cg", "+p", str(rng.choice(["0", "-1", "1.5"]))], [problem, "-s", "low-order"]]
    solve = core.Solver.solve

    def hooked(self, *args, **kwargs):
        raise Computed

    core.Solver.solve = hooked
    try:
        for words in bad:
            with quiet():
                try:
                    work.cli("calculate", *words)
                    outcome = "silence"
                except Computed:
                    outcome = "computed"
                except (SystemExit, Exception):
                    outcome = "rejected"
            m.input("bad", *words, sample={"line": " ".join(words)})
            m.check(outcome == "rejected", "ill-formed command line is not rejected", line=" ".join(words), outcome=outcome)
            m.observe("rejected")
        with quiet():
            try:
                work.cli("calculate", problem, "-s", key)
                outcome = "silence"
            except Computed:
                outcome = "computed"
        m.check(outcome == "computed", "hook sees no computation", outcome=outcome)
    finally:
        core.Solver.solve = solve


# ------------------------------------------------------------- other commands
def scratch():
    directory = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    os.chdir(directory)
    return directory


def generate(m, rng):
    from command import GenerateData

    scratch()
    os.mkdir("cli")
    os.mkdir("api")
    degree = int(rng.choice([2, 4]))
    n = degree * int(rng.integers(6, 9))
    radius = int(rng.integers(1, 4))
    number, seed = int(rng.integers(1, 3)), int(rng.integers(1, 100))
    final = float(np.round(rng.uniform(0.5, 1.5), 3))
    node = int(rng.integers(radius, n // degree - radius + 1)) if rng.random() < 0.5 else None
    key = str(rng.choice(["llf", "low-order", "es1"]))
    line = ["generate-data", "-d", "cli/", "-T", final, "-c", degree, "-n", number, "--seed", seed, "-i", radius]
    if node is not None:
        line += ["--node-index", node]
    line += ["-s", key, "+m", n]
    for append in (False, True):
        with quiet():
            work.cli(*line, *(["--append"] if append else []))
        bench = shallow_water.OscillationNoTopographyBenchmark()
        bench.end_time = final
        solver = SWE[key][0](bench, mesh_size=n, cfl_number=FV, ode_solver_type=work.ODE[defaults.ODE_SOLVER])
        with quiet():
            GenerateData(
                solver, "api/", end_time=final, coarsening_degree=degree, solution_number=number, seed=seed, input_radius=radius,
                node_index=node, overwrite=not append,
            ).execute()
        m.input(tuple(line), append, sample={"line": " ".join(map(str, line))})
        names = sorted(os.listdir("api"))
        m.check(sorted(os.listdir("cli")) == names and len(names) >= 2, "files generated from the command line", actual=sorted(os.listdir("cli")), expected=names)
        for name in names:
            with open(os.path.join("cli", name), "rb") as f, open(os.path.join("api", name), "rb") as g:
                m.check(f.read() == g.read(), "data generated from the command line differ", line=line, file=name, append=append)
        m.observe("commands compared")


def deletion(m, rng):
    from command import DeleteCurvature

    scratch()
    rows = int(rng.integers(5, 30))
    columns = pd.MultiIndex.from_product([["U0", "U1", "U2", "U3"], ["h", "q"]])
    data = pd.DataFrame(rng.uniform(1, 3, (rows, 8)), columns=columns)
    flux = pd.DataFrame(rng.normal(size=(rows, 2)), columns=pd.MultiIndex.from_product([["G_{1/2}"], ["h", "q"]]))
    pd.concat([data, flux], axis=1).to_csv("data.csv")
    h, kh, kq = (float(np.round(x, 4)) for x in (rng.uniform(0.5, 3), rng.uniform(0.2, 1.5), rng.uniform(0.2, 1.5)))
    line = ["delete-curvature", "data.csv", "cli.csv", "-s", h, "--kh", kh, "--kq", kq]
    with quiet():
        work.cli(*line)
        DeleteCurvature("data.csv", "api.csv", step_length=h, curvature_height_threshold=kh, curvature_discharge_threshold=kq).execute()
    with open("cli.csv") as f, open("api.csv") as g:
        m.check(f.read() == g.read(), "deletion from the command line differs", line=line)
    m.input(tuple(line), data.values)
    with quiet() as out:
        work.cli("analyze-data", "cli.csv", "data.csv")
    for path in ("cli.csv", "data.csv"):
        m.check(path.upper() in out.getvalue(), "analyze-data leaves out a file", file=path)
    m.observe("commands compared", 2)


def training(m, rng):
    from command import TrainNetwork
    from finite_volume.shallow_water.solver import LaxFriedrichsNetwork

    results = []
    rows = 40
    columns = pd.MultiIndex.from_product([["U0", "U1", "U2", "U3"], ["h", "q"]]).append(pd.MultiIndex.from_product([["G_{1/2}"], ["h", "q"]]))
    data = pd.DataFrame(rng.uniform(1, 3, (rows, 10)), columns=columns)
    epochs, skip, seed = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 100))
    rate = float(np.round(rng.uniform(0.001, 0.05), 4))
    for how in ("cli", "api"):
        scratch()
        os.makedirs("data/reduced-llf")
        data.to_csv("data/reduced-llf/data.csv")
        with quiet() as out:
            if how == "cli":
                work.cli("train-network", "llf", "-e", epochs, "--skip", skip, "--seed", seed, "-p", "lr", rate)
            else:
                network = LaxFriedrichsNetwork(warm_start=True)
                network.set_params(lr=rate)
                TrainNetwork(network, epochs=epochs, skip=skip, seed=seed, confirm=False, plot_loss=False).execute()
        network = LaxFriedrichsNetwork()
        with quiet():
            network.load_params()
            results.append(network.predict(np.float32(data.values[:, :8])))
        m.check(len(network.history) in (0, epochs), "number of epochs trained", actual=len(network.history), expected=epochs)
    m.input("train", epochs, skip, seed, rate)
    m.check(np.array_equal(*results), "network trained from the command line differs", epochs=epochs, skip=skip, seed=seed, rate=rate)
    m.observe("commands compared")


def helping(m, rng):
    for key in {**SCALAR, **SWE}:
        with quiet() as out:
            work.cli("help", key)
        extra = (SWE.get(key) or SCALAR[key])[3]
        text = out.getvalue()
        for option in ["++mesh-size", "++cfl", "++name", "++short"] + (["++ode-solver"] if "o" in SWE.get(key, SCALAR.get(key))[3] else []):
            m.check(option in text, "help does not mention an option", page=key, option=option)
        m.input("help", key)
    problems = {"calculate": 3, "plot": 3, "animate": 3, "eoc": 2}
    commands = [*problems, "analyze-curvature", "analyze-data", "delete-curvature", "generate-data", "help", "plot-error-evolution", "print-network", "train-network"]
    pages = [[c] for c in commands] + [[c, p] for c, n in problems.items() for p in ("advection", "burgers", "swe")[:n]] + [[]]
    for page in pages:
        with quiet() as out:
            try:
                work.cli(*page, "--help")
                code = None
            except SystemExit as error:
                code = error.code
        m.input("--help", *page)
        m.check(code == 0, "--help fails", page=page, code=code)
        for word in commands if not page else [page[0]]:
            m.check(word in out.getvalue(), "--help does not name the command", page=page, word=word)
    m.observe("commands compared")


def reporting(m, rng):
    """--args and --profile print in addition and change nothing else."""
    results = []
    solve = core.Solver.solve

    def hooked(self, *args, **kwargs):
        solve(self, *args, **kwargs)
        results.append(self.solution.value.copy())

    core.Solver.solve = hooked
    line = ["calculate", "burgers", "-T", 0.05, "-s", "llf", "+m", 16]
    try:
        texts = []
        for extra in ([], ["--args"], ["--profile"], ["--profile", 5]):
            with quiet() as out:
                work.cli(*line[:2], *extra, *line[2:])
            texts.append(out.getvalue())
    finally:
        core.Solver.solve = solve
    m.input("reporting", *line)
    m.check(len(results) == 4 and all(np.array_equal(results[0], r) for r in results), "output options change the computation", runs=len(results))
    m.check("ARGUMENTS" not in texts[0] and "ARGUMENTS" in texts[1] and "LaxFriedrichs" in texts[1], "--args prints the arguments", text=texts[1][:500])
    m.check("function calls" not in texts[0] + texts[1] and "function calls" in texts[2] and "function calls" in texts[3], "--profile prints a profile", text=texts[2][:500])
    m.observe("commands compared")


def build(plan):
    for problem in BENCHMARKS:
        for i in range(2 if problem != "swe" else 3):
            plan.case(f"lines/{problem}/{i}", lines, problem)
        plan.case(f"defaults/{problem}", default_sizes, problem)
        plan.case(f"rejections/{problem}", rejections, problem)
    plan.case("generate-data", generate)
    plan.case("delete-curvature", deletion)
    plan.case("train-network", training)
    plan.case("help", helping)
    plan.case("output options", reporting)
