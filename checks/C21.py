"""C21: networks survive storage and reduced solvers use them faithfully."""
import contextlib
import io
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import finite_volume.shallow_water.solver as sw
import ref
import vf
import work

RULE = (
    "random networks (weights, scalers) stored and loaded by fresh objects and in another process; training runs (command line) "
    "with seeds, skipped rows, vanishing learning rate, resumption and refused saving; predictions are compared with a layer by "
    "layer evaluation of the stored weights; semi-discretisations and runs of the reduced solvers are compared with a reference "
    "which adds this evaluation to the Lax-Friedrichs flux of each node, for all boundary conditions, flat and uneven bottoms. "
    "Non-trivial: more than one input row / cell."
)
QUICK_ROUNDS = 2
CASE_TIMEOUT = 240
REQUIRE = {"networks loaded": 20, "right-hand sides": 80, "steps": 40, "trainings": 8, "stencils": 60, "other process": 2}
KINDS = {False: sw.ReducedLaxFriedrichsSolver, True: sw.ReducedLaxFriedrichs2Solver}
TOL = 2e-5


def inputs(rng, net, n):
    return (net.x_mean + net.x_scale * rng.normal(size=(n, 8))).astype(np.float32)


def scale(net, y):
    return float(np.abs(y).max() + net.y_scale.max())


def loaded(kind):
    network = kind()
    with contextlib.redirect_stdout(io.StringIO()) as out:
        network.load_params()
    return network, out.getvalue()


def storage(m, rng, second):
    for _ in range(4):
        net = work.Network(rng, second=second, output=float(10 ** rng.uniform(-3, 1)))
        X = inputs(rng, net, int(rng.integers(1, 30)))
        expected = net(X)
        m.input("storage", second, X, nontrivial=len(X) > 1, sample={"second": second, "X": X[0], "y": expected[0]})
        first, out = loaded(net.type)
        m.check("could not be loaded" not in out, "stored network is loaded", output=out)
        before = X.copy()
        m.close(first.predict(X), expected, "prediction of the loaded network", 0, TOL * scale(net, expected))
        m.check(np.array_equal(before, X), "prediction keeps its input")
        m.close(first.predict(X), net.network.predict(X), "loaded network equals the stored one", 0, 0)
        with contextlib.redirect_stdout(io.StringIO()):
            first.save_params()
        again, _ = loaded(net.type)
        m.close(again.predict(X), first.predict(X), "network stored again", 0, 0)
        m.observe("networks loaded", 2)
        # another network stored later does not change loaded ones
        kept = first.predict(X)
        other = work.Network(rng, second=second)
        for name in ("reduced-llf", "reduced-llf-2"):
            shutil.copytree(os.path.join(other.directory, "data", name), os.path.join(net.directory, "data", name), dirs_exist_ok=True)
        os.chdir(net.directory)
        m.close(first.predict(X), kept, "loaded network keeps its weights", 0, 0)
        newer, _ = loaded(net.type)
        m.close(newer.predict(X), other(X), "the network stored last is loaded", 0, TOL * scale(other, other(X)))
        m.observe("networks loaded")


SCRIPT = """
import sys, json, pickle, contextlib, io
sys.path.insert(0, sys.argv[1])
import finite_volume.shallow_water.solver as sw
with open("X.pkl", "rb") as f:
    X = pickle.load(f)
network = {"llf": sw.LaxFriedrichsNetwork, "llf2": sw.LaxFriedrichs2Network}[sys.argv[2]]()
with contextlib.redirect_stdout(io.StringIO()):
    network.load_params()
print(json.dumps(network.predict(X).tolist()))
"""


def process(m, rng, second):
    net = work.Network(rng, second=second)
    X = inputs(rng, net, 12)
    with open("X.pkl", "wb") as f:
        pickle.dump(X, f)
    out = subprocess.run([sys.executable, "-B", "-c", SCRIPT, vf.REPO, "llf2" if second else "llf"], capture_output=True, text=True, timeout=120)
    m.check(out.returncode == 0, "network can be loaded in another process", error=out.stderr[-500:])
    m.input("process", second, X)
    m.close(np.array(json.loads(out.stdout)), net(X), "prediction in another process", 0, TOL * scale(net, net(X)))
    m.observe("other process")


def stored(m, rng):
    """The networks which are part of the repository."""
    import torch

    source = os.path.join(vf.REPO, "data")
    directory = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    shutil.copytree(source, os.path.join(directory, "data"))
    os.chdir(directory)
    for kind, name in ((sw.LaxFriedrichsNetwork, "reduced-llf"), (sw.LaxFriedrichs2Network, "reduced-llf-2")):
        network, out = loaded(kind)
        m.check("could not be loaded" not in out, "network of the repository is loaded", network=name, output=out)
        weights = torch.load(os.path.join("data", name, "model.pkl"))
        with open(os.path.join("data", name, "input_scaler.pkl"), "rb") as f:
            x = pickle.load(f)
        with open(os.path.join("data", name, "output_scaler.pkl"), "rb") as f:
            y = pickle.load(f)
        X = (x.mean_ + x.scale_ * rng.normal(size=(20, 8))).astype(np.float32)
        net = work.Network.__new__(work.Network)
        net.weights = {key: value.numpy() for key, value in weights.items()}
        net.x_mean, net.x_scale, net.y_mean, net.y_scale = x.mean_, x.scale_, y.mean_, y.scale_
        expected = net(X)
        m.input("repository", name, X)
        m.close(network.predict(X), expected, "prediction of the network of the repository", 0, 10 * TOL * scale(net, expected))
        m.observe("networks loaded")


# ---------------------------------------------------------------- reduced solver
def setup(rng, net):
    conditions, inflow = ("periodic",), (None, None)
    if rng.random() < 0.6:
        conditions = tuple(str(rng.choice(["outflow", "wall", "inflow"])) for _ in range(2))
        values = [np.array([rng.uniform(1, 2), rng.normal()]) for _ in range(2)]
        inflow = tuple((lambda t, v=v: v * (1 + 0.1 * np.sin(t))) for v in values)
    bottom = rng.random() < 0.4
    n = int(rng.integers(4, 16))
    return work.swe_setup(rng, n=n, bottom=bottom, conditions=conditions, inflow=inflow, kind="smooth", froude=0.2, courant=0.05, steps=6), inflow


def reference(net, s, gamma=None):
    """Semi-discretisation: flux of Lax and Friedrichs plus the network's correction."""

    def rhs(t, u):
        left, right = ref.node_fluxes("llf", s, u, t)
        e = ref.extend(u, s.conditions, 2, t, s.inflow)
        X = np.array([np.concatenate([e[i], e[i + 1], e[i + 2], e[i + 3]]) for i in range(s.n + 1)])
        g = net(X)
        if gamma is not None:
            g = g + gamma * (e[2 : s.n + 3] - e[1 : s.n + 2]) / s.dx
        left, right = left - g, right + g
        return (right[:-1] + left[1:]) / s.dx

    return rhs


def tolerance(net, s, u):
    return 4 * TOL * (np.abs(net.y_mean).max() + 20 * net.y_scale.max()) / s.dx


def reduced(m, rng, second):
    for _ in range(6):
        net = work.Network(rng, second=second, output=float(10 ** rng.uniform(-3, 0)))
        (bench, options), inflow = setup(rng, net)
        n = options["mesh_size"]
        s = work.setting(bench, n, inflow)
        gamma = None
        if rng.random() < 0.3:
            gamma = float(rng.uniform(0, 0.5))
            getter = sw.ReducedFluxGetter(4, net.type())
            solver = sw.LinearAntidiffusiveSolver(bench, gamma=gamma, flux_getter=getter, **options)
        else:
            solver = KINDS[second](bench, **options)
        f, rhs = reference(net, s, gamma), work.rhs_of(solver)
        for _ in range(3):
            u = work.random_swe_state(rng, n, froude=1.0)
            t = float(rng.uniform(0, 3))
            expected = f(t, u)
            nodes = np.abs(expected).max()
            actual = rhs(t, u)
            m.input(second, bench.boundary_conditions, u, t, sample={"second": second, "conditions": bench.boundary_conditions, "u": u[:3]})
            m.close(actual, expected, "semi-discretisation of the reduced solver", 1e-9, tolerance(net, s, u) + 1e-10 * nodes, conditions=bench.boundary_conditions, n=n, gamma=gamma)
            m.observe("right-hand sides")
            # nothing outside of the stencil matters
            if n > 6:
                i = int(rng.integers(n))
                other = u.copy()
                other[i] *= rng.uniform(1.1, 2)
                changed = np.abs(rhs(t, other) - actual).max(axis=1) > tolerance(net, s, u) + 1e-9 * nodes
                far = [j for j in range(n) if min(abs(i - j), n - abs(i - j)) > 2]
                m.check(not changed[far].any(), "cells outside the stencil have no influence", cell=i, changed=np.flatnonzero(changed))
                m.observe("stencils")


def runs(m, rng, second):
    """Complete runs follow the reference step by step."""
    for _ in range(3):
        net = work.Network(rng, second=second, output=1e-2)
        (bench, options), inflow = setup(rng, net)
        n = options["mesh_size"]
        name = str(rng.choice(list(work.ODE)))
        solver = KINDS[second](bench, save_history=True, ode_solver_type=work.ODE[name], **options)
        try:
            work.solve(solver)
        except ValueError:  # heights became negative
            continue
        s = work.setting(bench, n, inflow)
        f = reference(net, s)
        times, values = solver.solution.time_history, solver.solution.value_history
        m.input("run", second, name, values[0], nontrivial=len(times) > 2, sample={"second": second, "ode": name, "times": times[:4]})
        for i in range(len(times) - 1):
            dt = times[i + 1] - times[i]
            try:
                expected = ref.rk_step(name, f, times[i], values[i], dt)
            except (ValueError, FloatingPointError):
                break
            m.close(values[i + 1], expected, "step of the reduced solver", 1e-9, dt * tolerance(net, s, values[i]), ode=name, conditions=bench.boundary_conditions)
            m.observe("steps")


# --------------------------------------------------------------------- training
def data_file(rng, path, rows):
    X = rng.uniform(0.5, 3, 8) + rng.uniform(0.1, 1, 8) * rng.normal(size=(rows, 8))
    y = rng.normal(size=2) * 0.1 + 0.1 * np.array([X[:, 2] - X[:, 4], X[:, 3] - X[:, 5]]).T
    head = [f"U{i}" for i in range(4) for _ in range(2)] + ["G_1.5"] * 2
    with open(path, "w") as f:
        f.write("," + ",".join(head) + "\n," + ",".join(["h", "q"] * 5) + "\n")
        for i in range(rows):
            f.write(",".join(map(repr, map(float, [i * 0.1, *X[i], *y[i]]))) + "\n")
    return X, y


def train(*arguments):
    with contextlib.redirect_stdout(io.StringIO()):
        work.cli("train-network", *arguments)


def files(name):
    directory = os.path.join("data", name)
    out = {}
    for entry in sorted(os.listdir(directory)):
        with open(os.path.join(directory, entry), "rb") as f:
            out[entry] = f.read()
    return out


def weights_of(network):
    return {key: value.detach().numpy().copy() for key, value in network.module_.state_dict().items()}


def training(m, rng, second):
    import torch

    key, name = ("llf2", "reduced-llf-2") if second else ("llf", "reduced-llf")
    kind = sw.LaxFriedrichs2Network if second else sw.LaxFriedrichsNetwork
    rows, skip = int(rng.integers(40, 90)), int(rng.integers(1, 4))
    seed = str(int(rng.integers(1, 1000)))
    results = []
    seed_of_data = int(rng.integers(10**6))
    for _ in range(2):
        directory = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        os.chdir(directory)
        os.makedirs(os.path.join("data", name))
        X, y = data_file(np.random.default_rng(seed_of_data), os.path.join("data", name, "data.csv"), rows)
        torch.manual_seed(int(rng.integers(1000)))
        np.random.seed(int(rng.integers(1000)))
        source = files(name)["data.csv"]
        train(key, "-e", "3", "--skip", str(skip), "--seed", seed)
        m.check(files(name)["data.csv"] == source, "training keeps the data file")
        network, out = loaded(kind)
        m.check("could not be loaded" not in out, "trained network is loaded", output=out)
        results.append(network.predict(X.astype(np.float32)))
        m.observe("trainings")
    m.input("training", second, rows, skip, seed, X, sample={"rows": rows, "skip": skip, "seed": seed})
    m.close(results[0], results[1], "equal seeds give equal networks", 1e-5, 1e-7)
    with open(os.path.join("data", name, "input_scaler.pkl"), "rb") as f:
        x_scaler = pickle.load(f)
    with open(os.path.join("data", name, "output_scaler.pkl"), "rb") as f:
        y_scaler = pickle.load(f)
    for label, scaler, values in (("inputs", x_scaler, X[::skip]), ("subgrid fluxes", y_scaler, y[::skip])):
        m.close(scaler.mean_, values.mean(axis=0), f"{label} are scaled with the data trained on: mean", 1e-4, 1e-5)
        m.close(scaler.scale_, values.std(axis=0), f"{label} are scaled with the data trained on: deviation", 1e-4, 1e-5)
    network, _ = loaded(kind)
    history = json.loads(files(name)["history.json"])
    m.check(1 <= len(history) <= 3, "stored history contains the epochs", epochs=len(history))
    before, kept = files(name), weights_of(network)
    # a vanishing learning rate changes nothing, training goes on with the stored network
    train(key, "-e", "2", "--skip", str(skip), "--resume", "-p", "lr", "0")
    resumed, _ = loaded(kind)
    for k, value in weights_of(resumed).items():
        m.close(value, kept[k], "training resumes with the stored weights", 0, 0, weight=k)
    m.check(len(json.loads(files(name)["history.json"])) > len(history), "history of resumed training goes on")
    with work.Drawn() as drawn:
        train(key, "-e", "2", "--resume", "-p", "lr", "0.05", "--plot-loss")
    losses = json.loads(files(name)["history.json"])
    if m.check(len(drawn.shown) == 1 and len(drawn.shown[0]) == 1 and len(drawn.shown[0][0].lines) == 2, "losses are plotted", actual=len(drawn.shown)):
        for line in drawn.shown[0][0].lines:
            quantity = {"training loss": "train_loss", "validation loss": "valid_loss"}.get(line.label)
            m.check(quantity is not None, "label of a loss", label=line.label)
            m.close(line.y, np.log10([epoch[quantity] for epoch in losses]), "losses plotted are those of the history", 1e-6, 1e-6, label=line.label)
            m.observe("losses plotted", len(line.y))
    changed, _ = loaded(kind)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        work.cli("print-network", key)
    m.check(str(list(changed.module_.parameters())) in out.getvalue(), "print-network prints the stored weights", output=out.getvalue()[:300])
    for words in (["print-network", "nonsense"], ["print-network"], ["train-network", "nonsense"], ["train-network"], ["train-network", key, "-e", "0"], ["train-network", key, "--skip", "-1"], ["train-network", key, "-p", "lr"]):
        before = files(name)
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            m.raises(lambda: work.cli(*words), SystemExit, "ill-formed lines are refused")
        m.check(files(name) == before, "ill-formed lines leave the stored network", words=words)
    m.check(any((value != kept[k]).any() for k, value in weights_of(changed).items()), "resumed training changes the weights")
    m.observe("trainings", 2)
    # refused saving
    before = files(name)
    stdin, sys.stdin = sys.stdin, io.StringIO("maybe\nn\n")
    try:
        train(key, "-e", "1", "--confirm")
    finally:
        sys.stdin = stdin
    m.check(files(name) == before, "refused saving leaves the stored network")
    stdin, sys.stdin = sys.stdin, io.StringIO("Y\n")
    try:
        train(key, "-e", "1", "--confirm")
    finally:
        sys.stdin = stdin
    m.check(files(name) != before, "confirmed saving stores the network")
    m.observe("trainings", 2)


def build(plan):
    plan.case("repository", stored)
    for second in (False, True):
        name = "second" if second else "first"
        for i in range(2):
            plan.case(f"storage/{name}/{i}", storage, second)
        plan.case(f"process/{name}", process, second)
        plan.case(f"training/{name}", training, second)
        for i in range(4):
            plan.case(f"reduced/{name}/{i}", reduced, second)
            plan.case(f"runs/{name}/{i}", runs, second)
