"""C12: meshes and coarsening partition the domain and keep averages."""
import core
import finite_element as fem
import finite_volume
import numpy as np

import finite_volume.shallow_water.solver as sw
import work

RULE = (
    "random intervals (tiny, huge, shifted), mesh sizes 1-60, refinement and coarsening degrees, points in cells, on "
    "edges and outside, vectors of one to three components; each mesh, index mapping, space, coarse solution and "
    "coarse solver the code builds is compared with index arithmetic done independently. Non-trivial: more than one cell."
)
QUICK_ROUNDS = 30
REQUIRE = {"meshes": 300, "points": 2000, "vectors": 300, "coarse solutions": 200, "rejections": 200, "coarse solvers": 20}


def random_interval(rng):
    a, b = work.random_domain(rng)
    if rng.random() < 0.4:
        b = a + 10 ** rng.uniform(-3, 4)
    return float(a), float(b)


def intervals(m, rng):
    for _ in range(20):
        a, b = random_interval(rng)
        I = core.Interval(a, b)
        m.input(a, b)
        m.check(I.a == a and I.b == b and I.length == b - a, "interval: ends and length", a=a, b=b)
        m.close(I.center, (a + b) / 2, "interval: centre", 1e-15)
        x = rng.uniform(a, b)
        for point, inside, inner in ((a, True, False), (b, True, False), (a - (b - a), False, False), (np.nextafter(b, np.inf), False, False), (np.nextafter(a, -np.inf), False, False), ((a + b) / 2, True, True), (x, True, a < x < b)):
            m.check((point in I) == inside, "interval: membership", a=a, b=b, point=point)
            m.check(I.is_in_inner(point) == inner, "interval: interior", a=a, b=b, point=point)
            m.check(I.is_in_boundary(point) == (point in (a, b)), "interval: boundary", a=a, b=b, point=point)
        m.check(I == core.Interval(a, b) and hash(I) == hash(core.Interval(a, b)) and not I == core.Interval(a, b + (b - a)) and not I == core.Interval(a - (b - a), b), "interval: equality")
        m.raises(lambda: core.Interval(b, a), AssertionError, "interval: refuses reversed ends")
        m.raises(lambda: core.Interval(a, a), AssertionError, "interval: refuses empty intervals")
        m.observe("rejections", 2)
        T = core.AffineTransformation()
        s = rng.uniform(-1, 2)
        tol = 1e-13 * (max(abs(a), abs(b)) + (b - a))
        m.close(T(s, I), a + s * (b - a), "affine map", 0, tol)
        m.close(T(0.0, I), a, "affine map: left end", 0, tol)
        m.close(T(1.0, I), b, "affine map: right end", 0, tol)
        m.close(T.inverse(T(s, I), I), s, "affine map: inverse", 0, 2 * tol / (b - a))
        m.close(T.derivative(I), b - a, "affine map: derivative", 1e-15)
        m.close(T.inverse_derivative(I), 1 / (b - a), "affine map: derivative of the inverse", 1e-14)


def check_mesh(m, mesh, a, b, n, label):
    m.observe("meshes")
    m.check(len(mesh) == n and len(list(mesh)) == n and len(mesh.space_steps) == n, f"{label}: number of cells", cells=len(mesh), expected=n)
    cells = [mesh[i] for i in range(n)]
    m.check(cells[0].a == a and cells[-1].b == b, f"{label}: covers the domain", first=cells[0].a, last=cells[-1].b)
    m.check(mesh.domain.a == a and mesh.domain.b == b, f"{label}: domain")
    m.check(all(cells[i].b == cells[i + 1].a for i in range(n - 1)), f"{label}: no gaps or overlaps")
    h, tol = (b - a) / n, 1e-14 * max(abs(a), abs(b))
    m.close([c.a for c in cells], a + h * np.arange(n), f"{label}: equally long cells", 0, 4 * tol)
    m.close(mesh.step_length, h, f"{label}: step length", 1e-12, tol)
    m.close(mesh.space_steps, np.full(n, h), f"{label}: space steps", 1e-12, tol)
    m.check(all(mesh.index(c) == i for i, c in enumerate(cells)), f"{label}: index of cells")
    m.check([(c.a, c.b) for c in mesh] == [(c.a, c.b) for c in cells], f"{label}: iteration order")


def meshes(m, rng):
    for _ in range(8):
        a, b = random_interval(rng)
        n = work.cells(rng, 1, 61, 0.04, 400)
        mesh = core.UniformMesh(core.Interval(a, b), n)
        m.input(a, b, n, nontrivial=n > 1, sample={"domain": [a, b], "cells": n})
        check_mesh(m, mesh, a, b, n, "mesh")
        k = int(rng.integers(1, 6))
        fine = mesh.refine(k)
        check_mesh(m, fine, a, b, n * k, "refined mesh")
        check_mesh(m, mesh.refine(), a, b, 2 * n, "mesh refined by default")
        back = fine.coarsen(k)
        check_mesh(m, back, a, b, n, "mesh refined and coarsened")
        m.check(back == mesh and mesh == core.UniformMesh(core.Interval(a, b), n), "mesh: refining and coarsening are inverse")
        if k > 1:
            m.check(not fine == mesh, "mesh: meshes of other size differ")
            m.check(not mesh == core.UniformMesh(core.Interval(a, b + (b - a)), 2 * n), "mesh: meshes of other domains differ")
        for shift in (b - a, -(b - a) / n, 1.0):
            if a + shift != a:
                m.check(not mesh == core.UniformMesh(core.Interval(a + shift, b + shift), n), "mesh: meshes of translated domains differ", shift=shift)
        tol = 1e-13 * max(abs(a), abs(b))
        for i in range(n):
            m.check(abs(fine[k * i].a - mesh[i].a) <= tol and abs(fine[k * (i + 1) - 1].b - mesh[i].b) <= tol, "mesh: refinement is nested", cell=i)
        for d in range(1, n + 3):
            if n % d == 0:
                check_mesh(m, mesh.coarsen(d), a, b, n // d, "coarsened mesh")
            else:
                m.observe("rejections")
                m.raises(lambda: mesh.coarsen(d), AssertionError, "mesh: refuses inadmissible coarsening", cells=n, degree=d)
        # finding points
        edges = [c.a for c in mesh] + [b]
        for x in [*rng.uniform(a, b, 6), *rng.choice(edges, 4), a, b, a - 0.1 * (b - a), b + 0.1 * (b - a)]:
            expected = [i for i in range(n) if edges[i] <= x <= edges[i + 1]]
            m.observe("points")
            m.check(list(mesh.find_cell_indices(x)) == expected, "mesh: finds cells of a point", point=x, got=list(mesh.find_cell_indices(x)), expected=expected)
            m.check([(c.a, c.b) for c in mesh.find_cells(x)] == [(edges[i], edges[i + 1]) for i in expected], "mesh: cells contain the point", point=x)
        space = finite_volume.FiniteVolumeSpace(mesh)
        centres = np.array([(edges[i] + edges[i + 1]) / 2 for i in range(n)])
        m.close(space.cell_centers, centres, "space: cell centres", 0, tol)
        m.close(space.grid, centres, "space: grid", 0, tol)
        m.check(space.dimension == n and space.node_number == n, "space: dimension")
        m.check(space.refine(k).mesh == fine and space.refine(k).dimension == n * k, "space: refinement")
        m.check(space.refine(k).coarsen(k).mesh == mesh, "space: coarsening")
        u = rng.normal(size=(n, 2))
        element = space.element(u)
        for i in range(n):
            m.check((element(i, rng.uniform(edges[i], edges[i + 1])) == u[i]).all(), "space: element has the value of its cell", cell=i)


def vectors(m, rng):
    for _ in range(10):
        k, n = work.cells(rng, 1, 9, 0.08, 60), work.cells(rng, 1, 20, 0.08, 300)
        tail = [(), (2,), (3,)][int(rng.integers(3))]
        fine = rng.normal(size=(k * n, *tail)) * work.magnitude(rng)
        if rng.random() < 0.2:
            fine = np.round(fine * 10).astype(int)
        before = fine.copy()
        m.input(k, fine, nontrivial=k > 1)
        m.observe("vectors")
        coarsener = core.VectorCoarsener(k)
        coarse = coarsener(fine)
        expected = [sum(fine[k * i + j] for j in range(k)) / k for i in range(n)]
        m.close(coarse, expected, "vector coarsening", 1e-13, degree=k)
        m.close(np.sum(coarse, axis=0) * k, np.sum(fine, axis=0), "vector coarsening keeps integrals", 0, 1e-11 * (np.abs(fine).sum() + 1e-300))
        m.check((fine == before).all(), "vector coarsening leaves its input alone")
        coarse += 1
        m.check((fine == before).all(), "coarse vector is no view of the fine one")
        c = float(rng.normal())
        m.close(coarsener(np.full((k * n, *tail), c)), np.full((n, *tail), c), "vector coarsening keeps constants", 1e-14)
        j = int(rng.integers(1, 6))
        both = np.repeat(fine.astype(float), j, axis=0)
        m.close(core.VectorCoarsener(j)(both), fine, "vector coarsening of repeated values", 1e-13)
        m.close(core.VectorCoarsener(k)(core.VectorCoarsener(j)(both)), core.VectorCoarsener(j * k)(both), "vector coarsening is nested", 1e-12)
        mapping = core.FineGridIndicesMapping(k * n, k)
        for i in range(n):
            m.check(tuple(mapping(i)) == tuple(range(k * i, k * i + k)), "fine cells of a coarse cell", degree=k, cell=i, got=mapping(i))
        bad = k * n + int(rng.integers(1, k)) if k > 1 else None
        if bad:
            m.observe("rejections", 2)
            m.raises(lambda: coarsener(np.zeros((bad, *tail))), ValueError, "vector coarsening refuses indivisible vectors", size=bad, degree=k)
            m.raises(lambda: core.FineGridIndicesMapping(bad, k), ValueError, "fine cell mapping refuses indivisible meshes", size=bad, degree=k)


def coarse_solutions(m, rng):
    for _ in range(8):
        k, n = int(rng.integers(1, 7)), int(rng.integers(1, 12))
        a, b = random_interval(rng)
        tail = [(), (2,)][int(rng.integers(2))]
        space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(a, b), k * n))
        start = float(rng.normal())
        values = [rng.normal(size=(k * n, *tail)) * work.magnitude(rng) for _ in range(5)]
        history = rng.random() < 0.6
        m.input(k, values[0], nontrivial=k > 1)
        m.observe("coarse solutions")
        solution = core.DiscreteSolution(values[0], start, space)
        coarse = (core.CoarseSolutionWithHistory if history else core.CoarseSolution)(solution, k)
        times = [start]

        def average(v):
            return np.array([sum(v[k * i + j] for j in range(k)) / k for i in range(n)])

        for i, v in enumerate(values):
            if i:
                dt = rng.uniform(0.01, 1)
                coarse.update(dt, v)
                times.append(times[-1] + dt)
            m.close(coarse.value, average(v), "coarse solution: values", 0, 1e-14 * np.abs(v).max())
            m.close(coarse.time, times[-1], "coarse solution: time", 1e-14)
            m.check((solution.value == v).all(), "coarse solution: fine values are kept")
        m.check(coarse.space.dimension == n and coarse.space.mesh == core.UniformMesh(core.Interval(a, b), n), "coarse solution: space", cells=coarse.space.dimension)
        m.close(coarse.grid, core.UniformMesh(core.Interval(a, b), n).domain.a + (np.arange(n) + 0.5) * (b - a) / n, "coarse solution: grid", 0, 1e-12 * max(abs(a), abs(b)))
        m.check(coarse.dimension == (n if not tail else (n, 2)), "coarse solution: dimension", dimension=coarse.dimension)
        if history:
            if m.check(len(coarse.value_history) == len(values), "coarse solution: length of the history"):
                for stored, v in zip(coarse.value_history, values):
                    m.close(stored, average(v), "coarse solution: history of values", 0, 1e-14 * np.abs(v).max())
            m.close(coarse.time_history, times, "coarse solution: history of times", 0, 1e-12)
            m.close(coarse.time_step_history, np.diff(times), "coarse solution: history of time steps", 0, 1e-12)
        fresh = rng.normal(size=(k * n, *tail)) * work.magnitude(rng)
        coarse.set_value(fresh, start + 0.5)
        m.close(coarse.value, average(fresh), "coarse solution: set values", 0, 1e-14 * np.abs(fresh).max())
        m.close(coarse.time, start + 0.5, "coarse solution: set time", 0, 1e-12)
        again = rng.normal(size=(k * n, *tail)) * work.magnitude(rng)
        coarse.set_value(again, start + 0.5)
        m.close(coarse.value, average(again), "coarse solution: values replaced at the same time", 0, 1e-14 * np.abs(again).max())
        if not history:
            # the plain coarse solution is a view of the fine one
            solution.update(0.25, fresh)
            m.close(coarse.value, average(fresh), "coarse solution: follows the fine solution", 0, 1e-14 * np.abs(fresh).max())
            m.close(coarse.time, start + 0.75, "coarse solution: follows the fine time", 0, 1e-12)
            solution.set_value(again, solution.time)
            m.close(coarse.value, average(again), "coarse solution: follows replaced fine values", 0, 1e-14 * np.abs(again).max())


def coarse_solvers(m, rng):
    """The coarse solver shows the averages of a fine low-order run."""
    bench, options = work.swe_setup(rng, n=work.cells(rng, 3, 12, 0.08, 150), steps=4, kind="smooth", bottom=False)
    k = int(rng.integers(2, 6))
    n = options["mesh_size"]
    history = rng.random() < 0.5
    scheme = str(rng.choice(["llf", "low-order", "es1"]))
    kwargs = {} if scheme == "llf" and rng.random() < 0.5 else {"flux_getter": sw.SHALLOW_WATER_FLUX_GETTER[scheme]}
    coarse = work.SWE["coarse"](bench, mesh_size=n * k, coarsening_degree=k, cfl_number=options["cfl_number"], save_history=history, **kwargs)
    m.input(n, k, bench.speed, scheme, nontrivial=k > 1)
    m.observe("coarse solvers")
    m.check(len(coarse.solution.space.mesh) == n and len(coarse.solution.value) == n, "coarse solver: mesh size", cells=len(coarse.solution.space.mesh), expected=n)
    a, b = bench.domain.a, bench.domain.b
    m.close(coarse.solution.grid, a + (np.arange(n) + 0.5) * (b - a) / n, "coarse solver: grid", 0, 1e-12 * max(abs(a), abs(b)))
    start = work.ref.cell_averages(bench.initial_data, a, b, n * k)
    average = core.VectorCoarsener(k)
    m.close(coarse.solution.value, average(start), "coarse solver: initial values", 1e-11)
    fine = work.SWE[scheme](bench, mesh_size=n * k, cfl_number=options["cfl_number"], save_history=True)
    work.solve(coarse)
    work.solve(fine)
    m.close(coarse.solution.value, average(fine.solution.value), "coarse solver: final values", 1e-9)
    m.close(coarse.solution.time, bench.end_time, "coarse solver: final time", 0, 1e-11 * max(1, abs(bench.end_time)))
    if history:
        m.close(coarse.solution.value_history, [average(v) for v in fine.solution.value_history], "coarse solver: history", 1e-9)
    w0 = np.sum(start[:, 0]) / k
    m.close(coarse.solution.value[:, 0].sum(), w0, "coarse solver: keeps the water volume", 1e-10)


def types(m, rng):
    """Command line number types accept exactly what they say."""
    for _ in range(20):
        i = int(rng.integers(-5, 50))
        x = float(rng.choice([0.0, rng.normal(), 10 ** rng.uniform(-10, 10), 1.0]))
        m.input(i, x)
        for function, text, good, value in (
            (core.positive_int, str(i), i > 0, i), (core.non_negative_int, str(i), i >= 0, i),
            (core.positive_float, repr(x), x > 0, x), (core.percent_number, repr(x), 0 <= x <= 1, x),
            (core.positive_int, f"{i}.5", False, None), (core.positive_float, "text", False, None),
        ):
            if good:
                m.check(function(text) == value, "number types return the number", number_type=function.__name__, text=text)
            else:
                m.observe("rejections")
                m.raises(lambda: function(text), ValueError, "number types refuse other input", number_type=function.__name__, text=text)


def neighbours(m, rng):
    """Neighbour indices of finite volume cells."""
    for _ in range(10):
        n, periodic = int(rng.integers(3, 30)), bool(rng.random() < 0.5)
        ghost = int(rng.integers(0, 2)) if n > 5 else 0
        mapping = finite_volume.NeighbourIndicesMapping(n, periodic, ghost_cells=ghost)
        m.input(n, periodic, ghost)
        expected = [{j for j in (i - 1, i, i + 1) if 0 <= j < n} for i in range(n)]
        if periodic:
            # the copies at the other side are those of the same physical cells
            expected[0].add(n - 1 - 2 * ghost)
            expected[-1].add(2 * ghost)
        m.check(all(set(mapping(i)) == expected[i] for i in range(n)), "neighbours of finite volume cells", cells=n, periodic=periodic)
        u = rng.normal(size=n) * work.magnitude(rng)
        m.close(core.LocalMaximum(mapping)(u), [max(u[j] for j in s) for s in expected], "local maxima", 0)
        m.close(core.LocalMinimum(mapping)(u), [min(u[j] for j in s) for s in expected], "local minima", 0)


def choices(m, rng):
    """Component-wise maxima, minima and minmod."""
    for _ in range(10):
        shape = [(7,), (5, 2), (1,)][int(rng.integers(3))]
        values = [rng.normal(size=shape) * work.magnitude(rng) for _ in range(int(rng.integers(1, 6)))]
        for v in values:
            v[rng.random(shape) < 0.2] = 0.0
        before = [v.copy() for v in values]
        m.input("choices", *values)
        stack = np.array(values)
        m.check((np.ravel(core.maximum(*values)) == [max(c) for c in stack.reshape(len(values), -1).T]).all(), "component-wise maximum", values=len(values))
        m.check((np.ravel(core.minimum(*values)) == [min(c) for c in stack.reshape(len(values), -1).T]).all(), "component-wise minimum", values=len(values))
        a, b = values[0], values[-1] if rng.random() < 0.5 else values[0] * rng.uniform(-1, 3, shape)
        expected = [0.0 if x * y <= 0 else (min(x, y) if x > 0 else max(x, y)) for x, y in zip(a.ravel(), b.ravel())]
        m.close(core.minmod(a, b).ravel(), expected, "minmod", 1e-15)
        m.close(core.minmod(b, a).ravel(), expected, "minmod is symmetric", 1e-15)
        m.check(all((x == y).all() for x, y in zip(before, values)), "maximum, minimum and minmod leave their inputs alone")


def build(plan):
    for k in range(6):
        for function in (choices, intervals, meshes, vectors, coarse_solutions, coarse_solvers, types, neighbours):
            plan.case(f"{function.__name__} #{k}", function)
