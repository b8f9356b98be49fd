"""C11: quadrature, norms and interpolation are exact where they claim to be."""
import core
import finite_element as fem
import finite_volume
import numpy as np
from numpy.polynomial import Polynomial

import work

RULE = (
    "random intervals, rules of 1-20 nodes, polynomials of every degree within the claimed exactness (and functions "
    "that are constant, linear or discontinuous per cell), scalar and vector valued; results of the executed rules, norms "
    "and interpolators are compared with antiderivatives, numpy's Gauss rules and loop references. "
    "Non-trivial: non-constant functions."
)
QUICK_ROUNDS = 10
REQUIRE = {"rules": 100, "integrals": 1000, "norms": 500, "interpolations": 400, "solutions": 50}


def interval(rng):
    kind = rng.integers(5)
    if kind == 0:
        return -1.0, 1.0
    if kind == 1:
        return 0.0, 1.0
    a, b = work.random_domain(rng)
    if kind == 2:
        b = a + 10 ** rng.uniform(-3, 3)
    return float(a), float(b)


def polynomial(rng, degree, a, b):
    """Random polynomial scaled to [a, b]."""
    return Polynomial(rng.normal(size=degree + 1) * work.magnitude(rng, 0.15), domain=[a, b], window=[-1, 1])


def exact_integral(p, a, b):
    q = p.integ()
    return q(b) - q(a)


def rules(m, rng):
    for _ in range(12):
        n = int(rng.integers(1, 21))
        a, b = interval(rng)
        built = [("Gauss", core.GaussianQuadrature(n, core.Interval(a, b)), a, b)]
        built.append(("reference Gauss", core.quadrature.SpecificGaussianQuadrature(n), -1.0, 1.0))
        built.append(("element Gauss", core.LocalElementQuadrature(n), 0.0, 1.0))
        for label, rule, l, r in built:
            m.observe("rules")
            m.check(rule.degree == n and len(rule.nodes) == n and len(rule.weights) == n, f"{label}: number of nodes", n=n, degree=rule.degree)
            m.check(rule.domain.a == l and rule.domain.b == r, f"{label}: domain", domain=[rule.domain.a, rule.domain.b])
            nodes, weights = np.array(rule.nodes), np.array(rule.weights)
            tol = 1e-13 * max(abs(l), abs(r))
            m.check((nodes > l).all() and (nodes < r).all() and (np.diff(nodes) > 0).all(), f"{label}: nodes lie in order inside", nodes=nodes, a=l, b=r)
            m.check((weights > 0).all(), f"{label}: positive weights", weights=weights)
            x, w = np.polynomial.legendre.leggauss(n)
            m.close(nodes, (l + r) / 2 + (r - l) / 2 * x, f"{label}: nodes", 0, 1e-12 * (r - l) + tol)
            m.close(weights, (r - l) / 2 * w, f"{label}: weights", 1e-11)
            for degree in {0, 1, 2 * n - 1, int(rng.integers(0, 2 * n))}:
                p = polynomial(rng, degree, l, r)
                m.input(label, n, l, r, degree, p.coef, nontrivial=degree > 0, sample={"nodes": n, "interval": [l, r], "degree": degree})
                m.observe("integrals")
                size = np.abs(p.coef).sum() * (r - l) * (1 + 1e-3 * max(abs(l), abs(r)) / (r - l))
                m.close(rule.integrate(lambda x: float(p(x))), exact_integral(p, l, r), f"{label}: integrates polynomials", 0, 1e-10 * size, n=n, degree=degree)
                q = polynomial(rng, degree, l, r)
                m.close(
                    rule.integrate(lambda x: np.array([p(x), q(x)])), [exact_integral(p, l, r), exact_integral(q, l, r)],
                    f"{label}: integrates vectors", 0, 1e-10 * (size + np.abs(q.coef).sum() * (r - l) * (1 + 1e-3 * max(abs(l), abs(r)) / (r - l))), n=n, degree=degree,
                )


def norms(m, rng):
    for _ in range(6):
        a, b = work.random_domain(rng)
        n = int(rng.integers(1, 15))
        mesh = core.UniformMesh(core.Interval(a, b), n)
        edges = np.linspace(a, b, n + 1)
        degree = int(rng.integers(0, 5))
        parts = [[polynomial(rng, degree, edges[i], edges[i + 1]) for _ in range(2)] for i in range(n)]
        seen = []

        def function(cell, x):
            seen.append((cell, x))
            return parts[cell][0](x)

        def vector(cell, x):
            return np.array([q(x) for q in parts[cell]])

        m.input(a, b, n, degree, parts[0][0].coef, nontrivial=degree > 0, sample={"domain": [a, b], "cells": n, "degree": degree})
        h = (b - a) / n
        tol = 1e-9 * (1 + max(abs(a), abs(b)) / h * 1e-2)
        for k in (None, 1, degree + 1, int(rng.integers(1, 10))):
            kw = {} if k is None else {"quadrature_degree": k}
            x, w = np.polynomial.legendre.leggauss(k or 1)
            x, w = (x + 1) / 2, w / 2
            values = np.array([[[q(edges[i] + h * s) for s in x] for q in parts[i]] for i in range(n)])
            l1 = h * np.einsum("icq,q->c", np.abs(values), w)
            l2 = np.sqrt(h * np.einsum("icq,q->c", values**2, w))
            for name, norm, expected in (("L1", core.L1Norm(mesh, **kw), l1), ("L2", core.L2Norm(mesh, **kw), l2)):
                m.check(norm.name == name, "norm: name", name=norm.name)
                m.close(norm(function), expected[0], f"{name} norm", tol, degree=k)
                m.close(norm(vector), expected, f"{name} norm of vectors", tol, degree=k)
                c = float(rng.normal())
                m.close(norm(lambda i, y: c * vector(i, y)), abs(c) * expected, f"{name} norm is homogeneous", tol)
                m.observe("norms", 3)
            if (k or 1) >= degree + 1:
                exact = np.sqrt([sum(exact_integral(parts[i][c] ** 2, edges[i], edges[i + 1]) for i in range(n)) for c in range(2)])
                m.close(core.L2Norm(mesh, **kw)(vector), exact, "L2 norm is exact", 10 * tol)
                positive = [[q**2 for q in parts[i]] for i in range(n)]
                if (k or 1) >= 2 * degree + 1:
                    exact = [sum(exact_integral(positive[i][c], edges[i], edges[i + 1]) for i in range(n)) for c in range(2)]
                    m.close(core.L1Norm(mesh, **kw)(lambda i, y: np.array([q(y) for q in positive[i]])), exact, "L1 norm is exact", 10 * tol)
        for k in (None, 2, int(rng.integers(2, 30))):
            kw = {} if k is None else {"points_per_cell": k}
            norm = core.norm.solver_spaces(mesh, **kw)
            values = np.array([[max(abs(q(y)) for y in np.linspace(edges[i], edges[i + 1], k or 10)) for q in parts[i]] for i in range(n)])
            m.close(norm(vector), values.max(axis=0), "sup norm of vectors", tol)
            m.close(norm(function), values.max(axis=0)[0], "sup norm", tol)
            m.observe("norms", 2)
            # monotone functions take their extrema at the ends of the cells
            slopes, offsets = (rng.normal(size=n) * work.magnitude(rng) for _ in range(2))
            m.close(
                norm(lambda i, y: offsets[i] + slopes[i] * (y - edges[i]) / h),
                max(max(abs(offsets[i]), abs(offsets[i] + slopes[i])) for i in range(n)), "sup norm of piecewise linear functions", tol,
            )
        m.check(all(mesh[i].a - 1e-12 * abs(b) <= y <= mesh[i].b + 1e-12 * abs(b) for i, y in seen), "norms evaluate inside the stated cell")
        m.check({i for i, _ in seen} == set(range(n)), "norms evaluate every cell")


def norms_of_elements(m, rng):
    """Norms of finite volume and finite element functions."""
    for _ in range(3):
        a, b = work.random_domain(rng)
        n = int(rng.integers(2, 12))
        mesh = core.UniformMesh(core.Interval(a, b), n)
        h = (b - a) / n
        u = rng.normal(size=(n, 2)) * work.magnitude(rng)
        v = finite_volume.FiniteVolumeSpace(mesh).element(u)
        m.input(a, b, u)
        m.observe("norms", 5)
        m.close(core.L1Norm(mesh)(v), h * np.abs(u).sum(axis=0), "L1 norm of cell values", 1e-11)
        m.close(core.L2Norm(mesh)(v), np.sqrt(h * (u**2).sum(axis=0)), "L2 norm of cell values", 1e-11)
        m.close(core.norm.solver_spaces(mesh)(v), np.abs(u).max(axis=0), "sup norm of cell values", 1e-12)
        p = int(rng.integers(1, 5))
        V = fem.LagrangeSpace(mesh, p)
        w = rng.normal(size=V.dimension) * work.magnitude(rng)
        w0 = rng.normal(size=V.dimension)
        mass = np.asarray(fem.MassMatrix(V)().toarray())
        m.close(core.L2Norm(mesh, p + 1)(V.element(w)), np.sqrt(w @ mass @ w), "L2 norm of finite elements", 1e-8 * (1 + max(abs(a), abs(b)) / (b - a)))
        e, e0 = V.element(w), V.element(w0)
        total = core.L1Norm(mesh, 3)(lambda i, y: e(i, y) - e0(i, y))
        m.check(total <= core.L1Norm(mesh, 3)(e) + core.L1Norm(mesh, 3)(e0) + 1e-9 * (np.abs(w).max() + np.abs(w0).max()), "L1 norm: triangle inequality")


def interpolation(m, rng):
    for _ in range(8):
        a, b = work.random_domain(rng)
        n = int(rng.integers(1, 20))
        mesh = core.UniformMesh(core.Interval(a, b), n)
        edges = np.linspace(a, b, n + 1)
        k = int(rng.integers(1, 7))
        degree = int(rng.integers(0, 2 * k))
        p, q = polynomial(rng, degree, a, b), polynomial(rng, degree, a, b)
        m.input(a, b, n, k, p.coef, nontrivial=degree > 0)
        size = (np.abs(p.coef).sum() + np.abs(q.coef).sum()) * (1 + max(abs(a), abs(b)) * n / (b - a) * 1e-3)
        average = core.CellAverageInterpolator(mesh, k)
        expected = np.array([[exact_integral(f, edges[i], edges[i + 1]) * n / (b - a) for f in (p, q)] for i in range(n)])
        m.close(average.interpolate(lambda x: float(p(x))), expected[:, 0], "cell averages of polynomials", 0, 1e-9 * size, k=k, degree=degree)
        m.close(average.interpolate(lambda x: np.array([p(x), q(x)])), expected, "cell averages of vectors", 0, 1e-9 * size, k=k, degree=degree)
        constant = int(rng.integers(-3, 4))
        m.close(average.interpolate(lambda x: constant), np.full(n, float(constant)), "cell averages of an integer constant", 1e-12)
        nodes = np.sort(rng.uniform(a, b, int(rng.integers(1, 15))))
        nodal = core.NodeValuesInterpolator(*nodes)
        m.close(nodal.interpolate(lambda x: float(p(x))), p(nodes), "nodal interpolation", 0, 1e-12 * size)
        m.close(nodal.interpolate(lambda x: np.array([p(x), q(x), 1.0])), np.array([p(nodes), q(nodes), np.ones(len(nodes))]).T, "nodal interpolation of vectors", 0, 1e-12 * size)
        m.observe("interpolations", 5)
        # a step inside a cell is seen at the nodes of the documented rule only
        cut = rng.uniform(a, b)
        x, w = np.polynomial.legendre.leggauss(k)
        grid = [edges[i] + (edges[i + 1] - edges[i]) * (x + 1) / 2 for i in range(n)]
        if all(abs(y - cut).min() > 1e-9 * (b - a) for y in grid):
            m.close(
                average.interpolate(lambda x: 1.0 if x < cut else -2.0),
                [np.sum(w / 2 * np.where(y < cut, 1.0, -2.0)) for y in grid], "cell averages of a step", 1e-10,
            )
        m.check(average.interpolate(lambda x: float(p(x))).dtype == np.float64, "interpolation yields floats")


def linear(x, xp, fp):
    """Piecewise linear interpolation with constant continuation."""
    if x <= xp[0]:
        return fp[0]
    if x >= xp[-1]:
        return fp[-1]
    k = max(i for i in range(len(xp)) if xp[i] <= x)
    s = (x - xp[k]) / (xp[k + 1] - xp[k])
    return (1 - s) * fp[k] + s * fp[k + 1]


def temporal_and_spatial(m, rng):
    for _ in range(10):
        nt, nx = int(rng.integers(2, 9)), int(rng.integers(2, 9))
        tail = [(), (2,), (3,)][int(rng.integers(3))]
        old_time, old_grid = np.cumsum(rng.uniform(0.1, 1, nt)) - 2, np.cumsum(rng.uniform(0.1, 1, nx)) - 1
        values = rng.normal(size=(nt, nx, *tail)) * work.magnitude(rng)
        new_time = np.sort(np.concatenate([rng.uniform(old_time[0] - 0.3, old_time[-1] + 0.3, int(rng.integers(1, 9))), rng.choice(old_time, 2)]))
        new_grid = np.sort(np.concatenate([rng.uniform(old_grid[0] - 0.3, old_grid[-1] + 0.3, int(rng.integers(1, 9))), rng.choice(old_grid, 2)]))
        if rng.random() < 0.4:
            # any units and grids which nearly agree
            unit = 10 ** rng.uniform(-12, 6)
            old_time, old_grid = old_time * unit, old_grid * unit
            new_time = np.sort(old_time + unit * 10 ** rng.uniform(-6, -1) * rng.uniform(-1, 1, nt))
            new_grid = np.sort(old_grid + unit * 10 ** rng.uniform(-6, -1) * rng.uniform(-1, 1, nx))
        before = values.copy()
        m.input(values, new_time, new_grid)
        m.observe("interpolations", 2)
        got = core.TemporalInterpolator()(old_time, values, new_time)
        m.close(got, [linear(t, old_time, values) for t in new_time], "temporal interpolation", 1e-12)
        got = core.SpatialInterpolator()(old_grid, values, new_grid)
        m.close(got, np.array([[linear(x, old_grid, v) for x in new_grid] for v in values]), "spatial interpolation", 1e-12)
        m.close(core.TemporalInterpolator()(old_time, values, old_time), values, "temporal interpolation at the old times", 1e-13)
        m.close(core.SpatialInterpolator()(old_grid, values, old_grid), values, "spatial interpolation on the old grid", 1e-13)
        m.check((values == before).all(), "interpolation leaves its input alone")


def solutions(m, rng):
    """Initial data of the solvers are cell averages and nodal values."""
    for _ in range(5):
        a, b = work.random_domain(rng)
        n = int(rng.integers(1, 30))
        start = float(rng.normal())
        p, q = polynomial(rng, 3, a, b), polynomial(rng, 3, a, b)
        edges = np.linspace(a, b, n + 1)
        size = 10 * (np.abs(p.coef).sum() + np.abs(q.coef).sum()) * (1 + max(abs(a), abs(b)) * n / (b - a) * 1e-3)
        history = bool(rng.random() < 0.5)
        m.input(a, b, n, p.coef, q.coef)
        m.observe("solutions", 3)
        bench = work.ScalarBenchmark("advection", lambda x: float(p(x)), (a, b), start + 1, start)
        swe = work.SWEBenchmark(lambda x: np.array([p(x), q(x)]), (a, b), start + 1, start)
        expected = np.array([[exact_integral(f, edges[i], edges[i + 1]) * n / (b - a) for f in (p, q)] for i in range(n)])
        for benchmark, values in ((bench, expected[:, 0]), (swe, expected)):
            solution = finite_volume.get_finite_volume_solution(benchmark, n, history)
            m.close(solution.value, values, "initial cell averages", 0, 1e-10 * size)
            m.check(solution.time == start, "initial time of cell averages", time=solution.time, start=start)
            m.close(solution.grid, (edges[1:] + edges[:-1]) / 2, "cell centres", 0, 1e-12 * max(abs(a), abs(b)))
        degree = int(rng.integers(1, 8))
        solution = fem.get_finite_element_solution(bench, n, degree, history)
        nodes = a + np.arange(n * degree) * (b - a) / (n * degree)
        m.close(solution.value, p(nodes), "initial nodal values", 0, 1e-10 * size)
        m.check(solution.time == start, "initial time of nodal values")
        m.close(solution.grid, nodes, "nodes", 0, 1e-12 * max(abs(a), abs(b)))


def build(plan):
    for k in range(6):
        plan.case(f"rules #{k}", rules)
        plan.case(f"norms #{k}", norms)
        plan.case(f"norms of elements #{k}", norms_of_elements)
        plan.case(f"interpolation #{k}", interpolation)
        plan.case(f"temporal and spatial #{k}", temporal_and_spatial)
        plan.case(f"solutions #{k}", solutions)
