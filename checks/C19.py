"""C19: generated training data are exact records of subgrid fluxes."""
import os
import tempfile

import numpy as np
import pandas as pd
from benchmark import shallow_water

import ref
import work

RULE = (
    "generate-data runs (command line and API) over small meshes, coarsening degrees, radii, nodes, fine solvers, ODE solvers, "
    "seeds and numbers of solutions; every row written is recomputed from an independent fine run (reference fluxes, "
    "Runge-Kutta steps over the recorded times) starting from the initial data described by the benchmark file; appending, "
    "overwriting and repeating runs are compared byte-wise. Non-trivial: more than two rows."
)
QUICK_ROUNDS = 4
REQUIRE = {"rows recomputed": 1000, "benchmarks": 60, "appended files": 12, "repeated runs": 12, "default nodes": 4, "standard directories": 6, "rows of any magnitude": 150}
CASE_TIMEOUT = 240
SCHEMES = ("llf", "low-order", "central", "es", "es1", "antidiffusion")
NAMES = [("seed", "")] + [(a, b) for a in ("height", "velocity") for b in ("average", "amplitude", "wave_number", "phase_shift")]


def read(path, names=False):
    """A csv file with two header rows and an index column, read by hand."""
    with open(path) as f:
        rows = [line.rstrip("\n").split(",") for line in f]
    head = list(zip(rows[0][1:], rows[1][1:]))
    body = [row for row in rows[2:]]
    index = [row[0] for row in body]
    values = np.array([[float(x) for x in row[1:]] for row in body]).reshape(len(body), len(head))
    return head, index, values


def config(rng):
    k = int(rng.choice([1, 2, 3, 4, 5]))
    coarse = int(rng.integers(6, 11))
    radius = int(rng.choice([1, 2, 2, 3]))
    node = int(rng.integers(radius, coarse - radius + 1))
    scheme = str(rng.choice(SCHEMES))
    if k == 1 and radius == 1:
        radius, node = 2, max(node, 2)
    node = min(node, coarse - radius)
    return {
        "k": k, "n": k * coarse, "radius": radius, "node": node, "scheme": scheme,
        "ode": "heun" if scheme == "central" else str(rng.choice(["euler", "heun", "ssp3"])),
        "seed": int(rng.integers(0, 10**6)), "number": int(rng.integers(1, 4)),
        "cfl": float(rng.choice([0.02, 0.05, 0.1])), "steps": int(rng.integers(2, 9)),
    }


def end_time(c):
    return c["steps"] * c["cfl"] * 100.0 / c["n"] * 0.93


def solver_of(c):
    kind = work.SWE[c["scheme"]]
    bench = shallow_water.OscillationNoTopographyBenchmark(end_time=end_time(c))
    extra = {"gamma": 0.01} if c["scheme"] == "antidiffusion" else {}
    return kind(bench, mesh_size=c["n"], cfl_number=c["cfl"], ode_solver_type=work.ODE[c["ode"]], **extra)


def api(c, directory, **kw):
    from command.generate_data import GenerateData

    GenerateData(
        solver_of(c), directory, solution_number=c["number"], end_time=end_time(c), seed=c["seed"],
        coarsening_degree=c["k"], input_radius=c["radius"], node_index=c["node"], print_output=False, **kw,
    ).execute()


def line(c, directory, append=False, short=()):
    extra = ["++gamma", "0.01"] if c["scheme"] == "antidiffusion" else []
    work.cli(
        "generate-data", *(["-d", directory] if directory else []), "-T", repr(end_time(c)), "-c", str(c["k"]), "-n", str(c["number"]),
        "--seed", str(max(1, c["seed"])), "-i", str(c["radius"]),
        *(["--node-index", str(c["node"])] if c["node"] != c["radius"] or c["seed"] % 2 else []),
        *(["--append"] if append else []),
        "-s", c["scheme"], "+m", str(c["n"]), "++cfl", repr(c["cfl"]), *([] if c["scheme"] == "central" else ["+o", c["ode"]]), *extra, *short,
    )


def initial(parameters):
    seed, h0, ah, kh, ph, v0, av, kv, pv = parameters

    def data(x):
        h = h0 + ah * np.sin(kh * 2 * np.pi * x / 100.0 + ph)
        return np.array([h, h * (v0 + av * np.sin(kv * 2 * np.pi * x / 100.0 + pv))])

    return data


def node_flux(c, s, l, r):
    extra = {"gamma": 0.01, "base": "llf"} if c["scheme"] == "antidiffusion" else {}
    # both cells only: flux into the right cell of the node between them
    two = ref.Setting("shallow_water", 2, 2 * s.dx, ("outflow",), ref.G)
    return ref.node_fluxes(c["scheme"], two, np.array([l, r]), 0.0, **extra)[1][1]


def verify(m, c, directory, numbers=None):
    """Recomputes all rows of the files; NUMBERS: announced number of benchmarks."""
    head, index, rows = read(os.path.join(directory, "data.csv"))
    names, _, benchmarks = read(os.path.join(directory, "benchmark.csv"))
    node, radius, k = c["node"], c["radius"], c["k"]
    columns = [(f"U{i}", x) for i in range(node - radius, node + radius) for x in "hq"] + [(f"G_{node - 0.5}", x) for x in "hq"]
    m.check(head == columns, "columns of the data file", actual=head, expected=columns)
    m.check(names == NAMES, "columns of the benchmark file", actual=names)
    m.check(len(benchmarks) == (numbers or c["number"]), "one benchmark row for every solution", actual=len(benchmarks), expected=numbers or c["number"])
    m.check(len(set(benchmarks[:, 0])) == len(benchmarks) or numbers, "every solution starts from another benchmark")
    times = np.array([float(t) for t in index])
    starts = [i for i in range(len(times)) if i == 0 or times[i] <= times[i - 1]]
    m.check(len(starts) == len(benchmarks), "one block of rows for every solution", actual=len(starts), expected=len(benchmarks))
    s = ref.Setting("shallow_water", c["n"], 100.0, ("periodic",), ref.G)
    coarse = ref.Setting("shallow_water", c["n"] // k, 100.0, ("periodic",), ref.G)
    extra = {"gamma": 0.01, "base": "llf"} if c["scheme"] == "antidiffusion" else {}
    f = lambda t, u: ref.rhs(c["scheme"], s, u, t, **extra)
    for start, stop, parameters in zip(starts, [*starts[1:], len(times)], benchmarks):
        t = times[start:stop]
        m.observe("benchmarks")
        m.check(t[0] == 0.0, "first row belongs to the initial time", actual=t[0])
        m.close(t[-1], end_time(c), "last row belongs to the end time", 1e-12, 1e-12)
        # steps of the fixed size up to the end: one row each
        dt = c["cfl"] * 100.0 / c["n"]
        m.check(len(t) == int(np.ceil(end_time(c) / dt - 1e-9)) + 1, "one row for every time step", actual=len(t), step=dt, end=end_time(c))
        m.close(np.diff(t)[:-1], np.full(len(t) - 2, dt), "rows of consecutive time steps", 1e-9, 1e-12)
        described = shallow_water.RandomOscillationNoTopographyBenchmark(int(parameters[0]))
        m.close(parameters[1:], [
            described.height_average, described.height_amplitude, described.height_wave_number, described.height_phase_shift,
            described.velocity_average, described.velocity_amplitude, described.velocity_wave_number, described.velocity_phase_shift,
        ], "benchmark row describes the benchmark of its seed", 1e-13)
        u = ref.cell_averages(initial(parameters), 0.0, 100.0, c["n"])
        m.input(c["scheme"], c["ode"], c["n"], k, radius, node, parameters, nontrivial=len(t) > 2, sample={**c, "rows": len(t), "first": rows[start][:4]})
        for i in range(len(t)):
            if i > 0:
                u = ref.rk_step(c["ode"], f, t[i - 1], u, t[i] - t[i - 1])
            averages = u.reshape(-1, k, 2).mean(axis=1)
            g = node_flux(c, s, u[node * k - 1], u[node * k]) - node_flux(c, coarse, averages[node - 1], averages[node])
            expected = [*averages[node - radius : node + radius].ravel(), *g]
            row = rows[start + i]
            m.close(row[:-2], expected[:-2], "coarse values of a row", 1e-9, 1e-11, row=i, config=c)
            m.close(row[-2:], expected[-2:], "subgrid flux of a row", 1e-8, 1e-9, row=i, config=c)
            m.observe("rows recomputed")


def content(directory):
    out = []
    for name in ("data.csv", "benchmark.csv"):
        with open(os.path.join(directory, name), "rb") as f:
            out.append(f.read())
    return out


def single(m, rng, how):
    for _ in range(3):
        c = config(rng)
        if how == "cli":
            c["seed"] = max(1, c["seed"])
            if rng.random() < 0.4:
                c["node"], c["seed"] = c["radius"], 2 * (c["seed"] // 2) + 2
                m.observe("default nodes")
        directory = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        (line if how == "cli" else api)(c, directory)
        verify(m, c, directory)
        m.check(sorted(os.listdir(directory)) == ["benchmark.csv", "data.csv"], "files written", actual=os.listdir(directory))


def histories(m, rng):
    """Repeating, overwriting and appending."""
    c = {**config(rng), "number": int(rng.integers(1, 3))}
    c["seed"] = max(1, c["seed"])
    directory, other = (tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]) for _ in range(2))
    api(c, directory)
    before = content(directory)
    np.random.seed(int(rng.integers(1000)))
    np.random.random(3)
    line(c, other)
    m.check(content(other) == before, "equal seeds give equal files", config=c)
    m.observe("repeated runs")
    d = {**c, "seed": c["seed"] + 1, "number": int(rng.integers(1, 4))}
    if rng.random() < 0.5:
        api(d, directory, overwrite=False)
    else:
        line(d, directory, append=True)
    after = content(directory)
    for name, old, new in zip(("data.csv", "benchmark.csv"), before, after):
        m.check(new.startswith(old) and len(new) > len(old), f"appending keeps earlier rows of {name}", config=d)
    m.observe("appended files")
    verify(m, c, directory, numbers=c["number"] + d["number"])
    api(d, other)  # overwrites
    verify(m, d, other)
    appended = after[0][len(before[0]):]
    m.check(content(other)[0].endswith(appended) and content(other)[0] != before[0], "overwriting leaves nothing of earlier runs; appended rows are the ones of a run of its own", config=d)
    # the way train-network reads the file
    frame = pd.read_csv(os.path.join(other, "data.csv"), header=[0, 1], skipinitialspace=True, index_col=0)
    _, _, values = read(os.path.join(other, "data.csv"))
    m.close(frame.values, values, "file is read as written", 1e-13)


def seeds(m, rng):
    """Different seeds: different data. A builder used again starts from scratch."""
    from command.generate_data import SubgridFluxDataBuilder, SubgridFluxDataFrameBuilder

    c = {**config(rng), "number": 1}
    a, b = (tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]) for _ in range(2))
    api(c, a)
    api({**c, "seed": c["seed"] + 1}, b)
    m.check(content(a) != content(b), "different seeds give different data", config=c)

    def builder():
        solver = solver_of(c)
        space = solver.solution.space
        bench = shallow_water.OscillationNoTopographyBenchmark(end_time=end_time(c))
        return SubgridFluxDataBuilder(
            solver, solver.flux_getter(bench, space), solver.flux_getter(bench, space.coarsen(c["k"])),
            coarsening_degree=c["k"], input_radius=c["radius"], node_index=c["node"], print_output=False,
        )

    shared = builder()
    benchmarks = [shallow_water.RandomOscillationNoTopographyBenchmark(int(rng.integers(10**6)), end_time=end_time(c)) for _ in range(3)]
    frames = None
    for i in rng.integers(0, 3, 5):
        values, flux = shared(benchmarks[i])
        other_values, other_flux = builder()(benchmarks[i])
        m.check(len(values) == 2 * c["radius"], "number of coarse values")
        m.close(np.array(values), np.array(other_values), "data builder used again: coarse values", 0, 0)
        m.close(flux, other_flux, "data builder used again: subgrid flux", 0, 0)
        new = SubgridFluxDataFrameBuilder(shared).get_data_frame(benchmarks[i], frames)
        if frames is not None:
            m.check(len(new) == len(frames) + len(flux), "data frame grows by the new rows")
            m.close(new.values[: len(frames)], frames.values, "data frame keeps earlier rows", 0, 0)
        m.close(new.values[-len(flux):], np.concatenate([*values, flux], axis=1), "data frame rows are the data", 0, 0)
        frames = new
        m.observe("repeated runs")


def magnitudes(m, rng):
    """Data of given benchmarks with water of all depths."""
    from command.generate_data import SubgridFluxDataBuilder

    for _ in range(3):
        c = config(rng)
        scale, g = 10 ** rng.uniform(-8, 3), ref.G
        h = work.profile(rng, str(rng.choice(["smooth", "step", "noise"])), 0.0, 1.0, c["n"], scale, 2 * scale)
        v = work.profile(rng, "smooth", 0.0, 1.0, c["n"], -1e-3 * scale, np.sqrt(scale))
        data = lambda x: np.array([h(x), h(x) * v(x)])
        speed = 2 * np.sqrt(2 * g * scale) + np.sqrt(scale)
        cfl = 0.2 / speed
        bench = work.SWEBenchmark(data, (0.0, 1.0), c["steps"] * 0.93 * cfl / c["n"], 0.0, ("periodic",), (None, None), g)
        extra = {"gamma": 0.01 * speed / c["n"]} if c["scheme"] == "antidiffusion" else {}
        new = lambda: work.SWE[c["scheme"]](bench, mesh_size=c["n"], cfl_number=cfl, ode_solver_type=work.ODE[c["ode"]], save_history=True, **extra)
        expected = work.solve(new()).solution
        solver = new()
        space = solver.solution.space
        k, node, radius = c["k"], c["node"], c["radius"]
        fine, coarse = (solver.flux_getter(bench, x) for x in (space, space.coarsen(k)))
        values, flux = SubgridFluxDataBuilder(
            solver, fine, coarse, coarsening_degree=k, input_radius=radius, node_index=node, print_output=False)(bench)
        u = expected.value_history
        averages = u.reshape(len(u), -1, k, 2).mean(axis=2)
        m.input(c["scheme"], c["n"], k, node, radius, scale, u[0], nontrivial=True, sample={**c, "scale": scale})
        m.check(len(values) == 2 * radius, "number of coarse values")
        one, other = (solver.flux_getter(bench, x) for x in (space, space.coarsen(k)))
        _, fine = one(u[:, node * k - 1], u[:, node * k])
        _, coarse = other(averages[:, node - 1], averages[:, node])
        expected = np.moveaxis(averages[:, node - radius : node + radius], 1, 0)
        for i, name in enumerate(("heights", "discharges")):
            m.close(np.array(values)[..., i], expected[..., i], f"coarse {name} of any magnitude", 0, 1e-14 * np.abs(u[..., i]).max(), config=c)
            size = np.abs(fine).max(axis=0) + np.abs(coarse).max(axis=0)
            m.close(flux[:, i], (fine - coarse)[:, i], f"fluxes of {name} of any magnitude", 0, 1e-11 * (size[i] + size.max() * min(1, 1 / speed) ** (1 - i)), config=c)
        m.observe("rows of any magnitude", len(u))


def standard(m, rng):
    """Without a directory the data go where train-network looks for them."""
    import contextlib
    import io

    from finite_volume.shallow_water.solver import NETWORK_TYPES

    here = os.getcwd()
    os.chdir(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    try:
        for key in ("llf", "es1", "llf2"):
            c = {**config(rng), "scheme": key[:3], "number": 1, "node": 2, "radius": 2, "k": int(rng.integers(2, 4))}
            c["n"] = c["k"] * int(rng.integers(6, 9))
            c["seed"] = 2 * int(rng.integers(1, 1000)) + 1
            directory = os.path.join("data", {"llf2": "reduced-llf-2"}.get(key, f"reduced-{key}"))
            os.makedirs(directory)
            line(c, None, short=["+s", key] if key == "llf2" else [])
            verify(m, c, directory)
            if key in NETWORK_TYPES:
                m.check(os.path.normpath(NETWORK_TYPES[key]().data_path) == os.path.normpath(os.path.join(directory, "data.csv")), "generated data are the training data of the network", network=key)
            m.observe("standard directories")
        m.check(sorted(os.listdir("data")) == ["reduced-es1", "reduced-llf", "reduced-llf-2"] and os.listdir(".") == ["data"], "files elsewhere", actual=os.listdir("data"))
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            api({**c, "number": 1}, directory)
        m.check("is saved in" not in out.getvalue(), "no report without order", output=out.getvalue()[-200:])
    finally:
        os.chdir(here)


def build(plan):
    for i in range(2):
        plan.case(f"standard directory/{i}", standard)
    for i in range(4):
        plan.case(f"api/{i}", single, "api")
        plan.case(f"cli/{i}", single, "cli")
        plan.case(f"histories/{i}", histories)
        plan.case(f"seeds/{i}", seeds)
        plan.case(f"magnitudes/{i}", magnitudes)
