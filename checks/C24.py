"""C24: curvature and data analysis describe the stored data."""
import contextlib
import io
import os
import tempfile

import matplotlib.axes
import matplotlib.pyplot as plt
import numpy as np

from finite_volume.shallow_water.solver.reduced_model import Curvature

import work

RULE = (
    "random data files (different sizes, scales, index values, duplicated and extreme rows, thresholds hit exactly) given to "
    "delete-curvature, analyze-curvature and analyze-data through the command line; kept rows, drawn points and printed "
    "statistics are recomputed row by row. Non-trivial: files with more than two rows."
)
QUICK_ROUNDS = 5
REQUIRE = {"rows judged": 900, "rows deleted": 200, "rows kept": 200, "points drawn": 400, "statistics": 500, "curvatures": 400, "rows near a threshold": 50}
HEAD = [f"U{i}" for i in range(4) for _ in range(2)] + ["G_1.5"] * 2


def write(path, index, rows):
    with open(path, "w") as f:
        f.write("," + ",".join(HEAD) + "\n," + ",".join(["h", "q"] * 5) + "\n")
        for i, row in zip(index, rows):
            f.write(",".join(map(repr, map(float, [i, *row]))) + "\n")


def read(path):
    with open(path) as f:
        rows = [line.rstrip("\n").split(",") for line in f]
    body = [[float(x) for x in row] for row in rows[2:]]
    return rows[:2], np.array([r[0] for r in body]), np.array([r[1:] for r in body]).reshape(len(body), 10)


def curvature(row, h):
    """Mean curvature of height and discharge at both inner cells of a row."""
    out = []
    for k in (0, 1):
        u = [float(row[2 * i + k]) for i in range(4)]
        kappa = []
        for j in (1, 2):
            first = (u[j + 1] - u[j - 1]) / (2 * h)
            second = (u[j + 1] - 2 * u[j] + u[j - 1]) / h**2
            kappa.append(abs(second) / (1 + first**2) ** 1.5)
        out.append(sum(kappa) / 2)
    return out


def data(rng, rows):
    scale = 10 ** rng.uniform(-2, 1)
    kind = rng.integers(3)
    if kind == 0:
        values = rng.normal(size=(rows, 10)) * scale
    elif kind == 1:  # smooth and kinked rows
        values = rng.uniform(1, 3, (rows, 1)) + rng.uniform(0, 0.05, (rows, 10)) + (rng.random((rows, 10)) < 0.1) * scale
    else:
        values = np.repeat(rng.uniform(0.5, 2, (rows, 1)), 10, axis=1)
        values[rng.random(rows) < 0.5] *= rng.uniform(0.5, 1.5, 10)
    if rows > 3:
        values[1] = values[0]
    starts = np.sort(rng.uniform(0, 5, rows)) if rng.random() < 0.5 else np.tile(np.arange(rows) * 0.25, 1) % 1.0
    return starts, values


def nearly(rng, row, h, k, threshold):
    """The row with component K scaled such that its curvature nearly is the threshold."""
    def scaled(f):
        new = np.array(row, dtype=float)
        new[k:8:2] *= f
        return new

    low, high = 0.0, 1.0
    while curvature(scaled(high), h)[k] < threshold:
        low, high = high, 2 * high
        if high > 1e6:
            return row
    for _ in range(60):
        middle = (low + high) / 2
        low, high = (middle, high) if curvature(scaled(middle), h)[k] < threshold else (low, middle)
    return scaled(low * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -3)))


def run(*arguments):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        work.cli(*arguments)
    return out.getvalue()


def scratch():
    directory = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    os.chdir(directory)
    return directory


def formula(m, rng):
    for _ in range(10):
        h = float(10 ** rng.uniform(-2, 1))
        _, values = data(rng, int(rng.integers(1, 12)))
        X = values[:, :8]
        before = X.copy()
        actual = Curvature(h).fit(X).transform(X)
        m.input(h, X, nontrivial=len(X) > 2, sample={"h": h, "row": X[0]})
        m.check(np.array_equal(X, before), "input of the curvature is left alone")
        m.close(actual[:, :8], before, "first columns are the inputs", 0, 0)
        m.close(actual[:, 8:], np.array([curvature(r, h) for r in X]), "curvature of a row", 1e-9, 1e-12)
        m.observe("curvatures", len(X))
        # reversing or shifting a row keeps its curvature
        m.close(Curvature(h).transform(X.reshape(-1, 4, 2)[:, ::-1].reshape(-1, 8))[:, 8:], actual[:, 8:], "reversed rows are as curved", 1e-9, 1e-12)
        # circles of radius r are curved by 1 / r for small steps
    r, h = float(rng.uniform(2, 10)), 1e-3
    x = rng.uniform(-0.5, 0.5) * r
    circle = np.sqrt(r**2 - (x + h * np.arange(4)) ** 2)
    m.close(Curvature(h).transform(np.repeat(circle, 2)[None])[0, 8:], [1 / r, 1 / r], "curvature of a circle", 2e-3)


def delete(m, rng):
    for _ in range(6):
        scratch()
        rows = int(rng.integers(1, 40))
        index, values = data(rng, rows)
        h, kh, kq = 2.0, 0.25, 0.5
        arguments = []
        if rng.random() < 0.6:
            h = float(10 ** rng.uniform(-1, 0.7))
            arguments += [str(rng.choice(["-s", "--step-length"])), repr(h)]
        kappa = np.array([curvature(r, h) for r in values])
        if rng.random() < 0.6:
            kh = float(np.quantile(kappa[:, 0], rng.uniform(0.1, 0.9)) * 1.0001 + 1e-9)
            arguments += ["--kh", repr(kh)]
        if rng.random() < 0.6:
            kq = float(np.quantile(kappa[:, 1], rng.uniform(0.1, 0.9)) * 1.0001 + 1e-9)
            arguments += ["--kq", repr(kq)]
        for i in np.flatnonzero(rng.random(rows) < 0.3):
            values[i] = nearly(rng, values[i], h, *[(0, kh), (1, kq)][rng.integers(2)])
        kappa = np.array([curvature(r, h) for r in values])
        write("data.csv", index, values)
        with open("data.csv", "rb") as f:
            source = f.read()
        target = str(rng.choice(["target.csv", "data.csv"]))
        run("delete-curvature", "data.csv", target, *arguments)
        head, times, kept = read(target)
        if target != "data.csv":
            with open("data.csv", "rb") as f:
                m.check(f.read() == source, "source file is left alone")
        m.check(head[0][1:] == HEAD and head[1][1:] == ["h", "q"] * 5, "header is kept", head=head)
        m.input("delete", h, kh, kq, values, nontrivial=rows > 2, sample={"h": h, "kh": kh, "kq": kq, "rows": rows, "kept": len(kept)})
        clear = (np.abs(kappa[:, 0] - kh) > 1e-9 * kh) & (np.abs(kappa[:, 1] - kq) > 1e-9 * kq)
        below = (kappa[:, 0] < kh) & (kappa[:, 1] < kq)
        m.observe("rows judged", rows)
        m.observe("rows near a threshold", int(((np.abs(kappa[:, 0] - kh) < 2e-3 * kh) | (np.abs(kappa[:, 1] - kq) < 2e-3 * kq)).sum()))
        m.observe("rows kept", int(below.sum()))
        m.observe("rows deleted", int((~below).sum()))
        if not clear.all():
            continue
        m.check(len(kept) == below.sum(), "number of rows kept", actual=len(kept), expected=int(below.sum()), thresholds=(kh, kq), h=h)
        m.close(kept, values[below].reshape(kept.shape), "rows kept are the ones below both thresholds", 1e-14, 1e-300)
        m.close(times, index[below], "rows keep their index", 1e-14, 1e-300)
        with open(target, "rb") as f:
            first = f.read()
        run("delete-curvature", target, "again.csv", *arguments)
        _, _, again = read("again.csv")
        m.close(again.reshape(kept.shape), kept, "deleting again deletes nothing", 1e-14, 1e-300)


@contextlib.contextmanager
def scattered():
    """Records the points of all scatter plots and where they are drawn."""
    points, original = [], matplotlib.axes.Axes.scatter

    def scatter(self, x, y, *args, **kwargs):
        points.append((self, np.array(x), np.array(y)))
        return original(self, x, y, *args, **kwargs)

    matplotlib.axes.Axes.scatter = scatter
    try:
        yield points
    finally:
        matplotlib.axes.Axes.scatter = original


def draw(m, rng):
    for _ in range(2):
        scratch()
        files = {}
        for name in ("llf", "es1"):
            os.makedirs(os.path.join("data", f"reduced-{name}"))
            files[name] = data(rng, int(rng.integers(2, 15)))
            write(os.path.join("data", f"reduced-{name}", "data.csv"), *files[name])
        os.makedirs(os.path.join("data", "curvature-analysis"))
        save = bool(rng.integers(2))
        hide = bool(rng.random() < 0.7)
        plt.close("all")
        with work.Drawn() as drawn, scattered() as points:
            run("analyze-curvature", *(["--hide"] if hide else []), *(["--save"] if save else []))
        m.check(len(drawn.shown) == (0 if hide else 1), "figures are shown unless hidden", hide=hide, actual=len(drawn.shown))
        for figures in drawn.shown:
            m.check(len(figures) == 4, "all figures are shown", actual=len(figures))
        m.input("draw", *[v for _, v in files.values()], nontrivial=True, sample={"rows": {k: len(v[1]) for k, v in files.items()}})
        m.check(len(points) == 8, "four figures of both data sets", actual=len(points))
        seen = set()
        for axes, x, y in points:
            name = {"LLF": "llf", "ES1": "es1"}.get(axes.get_title())
            m.check(name is not None, "title of a plot", actual=axes.get_title())
            of = {"$\\kappa_h$": 0, "$\\kappa_q$": 1}.get(axes.get_xlabel())
            to = {"$G_{1.5}^h$": 8, "$G_{1.5}^q$": 9}.get(axes.get_ylabel())
            m.check(of is not None and to is not None, "labels of a plot", actual=(axes.get_xlabel(), axes.get_ylabel()))
            seen.add((name, of, to))
            values = files[name][1]
            kappa = np.array([curvature(r, 2.0) for r in values])
            m.close(x, kappa[:, of], "curvatures drawn", 1e-9, 1e-12, plot=(name, of, to))
            m.close(y, values[:, to], "subgrid fluxes drawn", 1e-12, 1e-300, plot=(name, of, to))
            (left, right), (bottom, top) = sorted(axes.get_xlim()), sorted(axes.get_ylim())
            m.check(left <= x.min() and x.max() <= right and bottom <= y.min() and y.max() <= top, "points outside of the picture", plot=(name, of, to), limits=(left, right, bottom, top), points=(x.min(), x.max(), y.min(), y.max()))
            m.observe("points drawn", len(x))
        for figure in drawn.saved:
            name = os.path.splitext(os.path.basename(figure.path))[0]
            labels = {(x, y) for _, x, y in figure.labels}
            m.check(labels == {("$\\kappa_%s$" % name[1:2], "$G_{1.5}^%s$" % name[-1:])}, "name of a saved plot", path=figure.path, labels=labels)
        m.check(len(seen) == 8, "every pair of curvature and subgrid flux is drawn once", seen=seen)
        saved = os.listdir(os.path.join("data", "curvature-analysis"))
        m.check(sorted(saved) == (sorted(["kh_Gh.png", "kh_Gq.png", "kq_Gh.png", "kq_Gq.png"]) if save else []), "files saved", actual=saved)
        plt.close("all")


def statistics(m, rng):
    import pandas as pd

    for _ in range(3):
        scratch()
        names = [f"data-{i}.csv" for i in range(int(rng.integers(1, 4)))]
        files = {}
        for name in names:
            index, values = data(rng, int(rng.integers(2, 30)))
            write(name, index, values)
            files[name] = values
        with work.Drawn() as drawn, pd.option_context("display.width", 10000, "display.max_columns", 100, "display.precision", 12, "display.float_format", "{:.12e}".format):
            out = run("analyze-data", *names)
        m.check(not drawn.shown and not plt.get_fignums(), "figures without order", figures=plt.get_fignums())
        m.input("statistics", *files.values(), sample={"files": names})
        position = -1
        for name in names:
            at = out.find(name.upper())
            m.check(at > position, "files are described in order", output=out[:200])
            position = at
            block = out[at:].splitlines()
            table = {}
            for line in block[2:]:
                cells = line.split()
                if cells and cells[0] in ("count", "mean", "std", "min", "25%", "50%", "75%", "max") and cells[0] not in table:
                    table[cells[0]] = [float(c) for c in cells[1:]]
            values = files[name]
            expected = {
                "count": np.full(10, len(values), dtype=float), "mean": values.mean(axis=0), "std": values.std(axis=0, ddof=1),
                "min": values.min(axis=0), "max": values.max(axis=0),
                **{f"{p}%": np.percentile(values, p, axis=0) for p in (25, 50, 75)},
            }
            for key, value in expected.items():
                m.check(key in table, "statistics are printed", missing=key)
                m.close(np.array(table[key]), value, f"{key} of a column", 1e-9, 1e-10 * np.abs(values).max(), file=name)
                m.observe("statistics", len(value))


def histogram(m, rng):
    scratch()
    files, drawn = {}, []
    for i in range(2):
        index, values = data(rng, int(rng.integers(2, 30)))
        write(f"{i}.csv", index, values)
        files[f"{i}.csv"] = values
    original = matplotlib.axes.Axes.hist

    def hist(self, x, *args, **kwargs):
        drawn.append(np.sort(np.ravel(np.array(x, dtype=float))))
        return original(self, x, *args, **kwargs)

    matplotlib.axes.Axes.hist = hist
    try:
        plt.close("all")
        with work.Drawn() as shown:
            run("analyze-data", *files, "--histogram")
        m.check(len(shown.shown) == 1 and len(shown.shown[0]) == len(files), "one figure of histograms for every file is shown", actual=[len(x) for x in shown.shown])
        plt.close("all")
    finally:
        matplotlib.axes.Axes.hist = original
    m.input("histogram", *files.values())
    expected = [np.sort(values[:, k]) for values in files.values() for k in range(10)]
    m.check(len(drawn) == len(expected), "one histogram for every column of every file", actual=len(drawn))
    for column in expected:
        m.check(any(len(x) == len(column) and np.allclose(x, column, 1e-12, 1e-300) for x in drawn), "histograms show the stored columns")


def build(plan):
    for i in range(4):
        plan.case(f"formula/{i}", formula)
        plan.case(f"delete/{i}", delete)
    for i in range(2):
        plan.case(f"draw/{i}", draw)
        plan.case(f"statistics/{i}", statistics)
    plan.case("histogram", histogram)
