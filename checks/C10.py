"""C10: finite element spaces and operators are exact."""
import core
import finite_element as fem
import numpy as np

import work

RULE = (
    "random domains, meshes of 3-12 cells, polynomial degrees 1-7, DOF vectors of all sizes and polynomial data; every "
    "value, derivative, matrix entry, vector entry and semi-discretisation the code computes is compared with an "
    "independent dense assembly (product formula of the Lagrange basis, 40-point Gauss rule, loops over cells). "
    "Non-trivial: non-constant DOF vectors."
)
QUICK_ROUNDS = 3
REQUIRE = {"bases": 7, "spaces": 30, "elements": 30, "matrices": 60, "vectors": 60, "semi-discretisations": 60, "limited pairs": 500}

X40, W40 = np.polynomial.legendre.leggauss(40)
X40, W40 = (X40 + 1) / 2, W40 / 2


def phi(p, i, x):
    """Lagrange basis on equidistant nodes of [0, 1]."""
    x = np.asarray(x, dtype=float)
    y = np.ones_like(x)
    for k in range(p + 1):
        if k != i:
            y = y * (x * p - k) / (i - k)
    return y


def dphi(p, i, x):
    x = np.asarray(x, dtype=float)
    y = np.zeros_like(x)
    for m in range(p + 1):
        if m == i:
            continue
        term = np.full_like(x, p / (i - m))
        for k in range(p + 1):
            if k != i and k != m:
                term = term * (x * p - k) / (i - k)
        y = y + term
    return y


class Dense:
    """Independent periodic assembly."""

    def __init__(self, a, b, n, p):
        self.n, self.p, self.N, self.h = n, p, n * p, (b - a) / n
        self.nodes = a + np.arange(self.N) * self.h / p
        self.dofs = [[(e * p + k) % self.N for k in range(p + 1)] for e in range(n)]
        self.PHI = np.array([phi(p, i, X40) for i in range(p + 1)])
        self.DPHI = np.array([dphi(p, i, X40) for i in range(p + 1)])
        m = self.h * np.einsum("q,iq,jq->ij", W40, self.PHI, self.PHI)
        c = np.einsum("q,iq,jq->ij", W40, self.PHI, self.DPHI)
        self.M, self.C = np.zeros((self.N, self.N)), np.zeros((self.N, self.N))
        for d in self.dofs:
            for i in range(p + 1):
                for j in range(p + 1):
                    self.M[d[i], d[j]] += m[i, j]
                    self.C[d[i], d[j]] += c[i, j]
        self.m = self.M.sum(axis=1)

    def values(self, u, e):
        return np.array([u[k] for k in self.dofs[e]]) @ self.PHI

    def derivatives(self, u, e):
        return np.array([u[k] for k in self.dofs[e]]) @ self.DPHI / self.h

    def product(self, u, f, gradient):
        """(f(v), phi_i) or (f(v), phi'_i)."""
        r = np.zeros(self.N)
        B = self.DPHI if gradient else self.PHI * self.h
        for e in range(self.n):
            v = f(self.values(u, e))
            for k, d in enumerate(self.dofs[e]):
                r[d] += np.sum(W40 * v * B[k])
        return r

    def diffusion(self, problem, u):
        D = np.zeros((self.N, self.N))
        for i in range(self.N):
            for j in range(self.N):
                if i != j:
                    if problem == "advection":
                        D[i, j] = max(abs(self.C[i, j]), abs(self.C[j, i]))
                    else:
                        D[i, j] = max(abs(u[j] * self.C[i, j]), abs(u[i] * self.C[j, i]))
        for i in range(self.N):
            D[i, i] = -D[i].sum()
        return D

    def low(self, problem, u):
        f = u if problem == "advection" else u**2 / 2
        D = self.diffusion(problem, u)
        r = np.zeros(self.N)
        for i in range(self.N):
            for j in range(self.N):
                if j != i:
                    r[i] += D[i, j] * (u[j] - u[i]) - (f[j] - f[i]) * self.C[i, j]
        return r / self.m

    def mcl(self, problem, u, count=None):
        f = u if problem == "advection" else u**2 / 2
        D, low = self.diffusion(problem, u), self.low(problem, u)
        around = [set() for _ in range(self.N)]
        for d in self.dofs:
            for i in d:
                around[i] |= set(d)
        top = [max(u[j] for j in around[i]) for i in range(self.N)]
        bot = [min(u[j] for j in around[i]) for i in range(self.N)]
        r = np.zeros(self.N)
        margin = np.inf
        for i in range(self.N):
            for j in around[i]:
                if j == i:
                    continue
                w = D[i, j] * (u[i] + u[j]) + (f[i] - f[j]) * self.C[i, j]
                target = self.M[i, j] * (low[i] - low[j]) + D[i, j] * (u[i] - u[j])
                up = min(2 * D[i, j] * top[i] - w, w - 2 * D[i, j] * bot[j])
                down = max(2 * D[i, j] * bot[i] - w, w - 2 * D[i, j] * top[j])
                r[i] += max(down, min(up, target))
                if count is not None:
                    count(target > up or target < down)
        return low + r / self.m


def dof_vector(rng, n):
    u = work.random_scalar_state(rng, n)
    return u


def basis(m, rng, p):
    local = fem.LocalLagrangeBasis(p)
    m.input(p, sample={"degree": p})
    m.observe("bases")
    m.check(len(local) == p + 1, "basis: number of elements", number=len(local))
    m.close(local.nodes, np.arange(p + 1) / p, "basis: nodes", 1e-14)
    x = np.concatenate([rng.uniform(0, 1, 20), [0.0, 1.0]])
    elements = list(local)
    for i in range(p + 1):
        for source, element in (("[]", local[i]), ("iteration", elements[i]), ("node", local.get_element_at_node(local.nodes[i]))):
            m.close([element(y) for y in x], phi(p, i, x), f"basis: values ({source})", 0, 1e-9)
            m.close([element.derivative(y) for y in x], dphi(p, i, x), f"basis: derivatives ({source})", 1e-9, 1e-8)
        m.close([local[i](y) for y in local.nodes], np.eye(p + 1)[i], "basis: Kronecker property", 0, 1e-10)
    fast = fem.FastLocalElement(local[p // 2])
    fast.set_values(*x)
    fast.set_derivatives(*x)
    m.close([fast(k) for k in range(len(x))], phi(p, p // 2, x), "fast element: values", 0, 1e-9)
    m.close([fast.derivative(k) for k in range(len(x))], dphi(p, p // 2, x), "fast element: derivatives", 1e-9, 1e-8)


def setup(rng, p, n=None):
    a, b = work.random_domain(rng)
    n = int(rng.integers(3, 13 if p < 4 else 6)) if n is None else n
    mesh = core.UniformMesh(core.Interval(a, b), n)
    return a, b, n, mesh, fem.LagrangeSpace(mesh, p), Dense(a, b, n, p)


def space(m, rng, p):
    a, b, n, mesh, V, ref = setup(rng, p)
    tol = 1e-12 * max(abs(a), abs(b))
    m.input(a, b, n, p, sample={"domain": [a, b], "cells": n, "degree": p})
    m.observe("spaces")
    m.check(V.dimension == ref.N and V.polynomial_degree == p, "space: dimension", dimension=V.dimension, expected=ref.N)
    for name in ("basis_nodes", "grid"):
        m.close(getattr(V, name), ref.nodes, f"space: {name}", 0, tol)
    m.check(V.basis_nodes[0] == a, "space: first node", node=V.basis_nodes[0])
    for e in range(n):
        for k in range(p + 1):
            m.check(V.global_index(e, k) == ref.dofs[e][k], "space: global index", cell=e, local=k, index=V.global_index(e, k))
    open_index = fem.GlobalIndexMapping(mesh, p)
    m.check(open_index.dimension == n * p + 1 and all(open_index(e, k) == e * p + k for e in range(n) for k in range(p + 1)),
            "space: global index without periodicity", dimension=open_index.dimension)
    for label, index, size in (("periodic", V.global_index, n * p), ("open", open_index, n * p + 1)):
        expected = [set() for _ in range(size)]
        for e in range(n):
            d = [(e * p + k) % size for k in range(p + 1)]
            for i in d:
                expected[i] |= set(d)
        got = fem.NeighbourIndicesMapping(index)
        m.check(all(set(got(i)) == expected[i] for i in range(size)), f"space: neighbours ({label})",
                got=[sorted(got(i)) for i in range(min(size, 8))], expected=[sorted(s) for s in expected[:8]])
        u = rng.normal(size=size) * work.magnitude(rng)
        m.close(core.LocalMaximum(got)(u), [max(u[j] for j in s) for s in expected], f"space: local maxima ({label})", 0)
        m.close(core.LocalMinimum(got)(u), [min(u[j] for j in s) for s in expected], f"space: local minima ({label})", 0)
    k = int(rng.integers(1, 5))
    finer = V.refine(k)
    m.check(finer.polynomial_degree == p and finer.mesh == mesh.refine(k) and finer.dimension == p * len(finer.mesh), "space: refinement", cells=len(finer.mesh))
    divisors = [d for d in range(1, n + 1) if n % d == 0]
    d = int(rng.choice(divisors))
    coarse = V.coarsen(d)
    m.check(coarse.mesh == mesh.coarsen(d) and coarse.polynomial_degree == p and coarse.dimension == n // d * p, "space: coarsening", cells=len(coarse.mesh))


def elements(m, rng, p):
    a, b, n, mesh, V, ref = setup(rng, p)
    u = dof_vector(rng, ref.N)
    m.input(a, b, p, u)
    m.observe("elements")
    scale = np.abs(u).max() + 1e-300
    tol = 1e-9 * (1 + max(abs(a), abs(b)) / (b - a))
    v = V.element(u)
    h = ref.h
    for e in range(n):
        s = np.concatenate([rng.uniform(0, 1, 4), [0, 1]])
        local = np.array([u[k] for k in ref.dofs[e]])
        expected = sum(local[k] * phi(p, k, s) for k in range(p + 1))
        slope = sum(local[k] * dphi(p, k, s) for k in range(p + 1)) / h
        x = a + (e + s) * h
        m.close([v(e, y) for y in x], expected, "element: values", 0, tol * scale * 10 * p**3, cell=e)
        m.close([v.derivative(e, y) for y in x], slope, "element: derivatives", 0, tol * scale / h * 10 * p**5, cell=e)
        for k in range(p + 1):
            m.close(v(e, V.basis_nodes[ref.dofs[e][k]] if ref.dofs[e][k] or k == 0 else b), u[ref.dofs[e][k]], "element: interpolates nodal values", 0, tol * scale * 10 * p**3)
    fast = fem.FastFiniteElement(V)
    points = rng.uniform(0, 1, 5)
    fast.set_values(*points)
    fast.set_derivatives(*points)
    anchors = fem.AnchorNodesFastFiniteElement(V)
    anchors.set_values()
    anchors.set_derivatives()
    rule = core.LocalElementQuadrature(int(rng.integers(1, 8)))
    quadrature = fem.QuadratureFastElement(V, rule)
    quadrature.set_values()
    quadrature.set_derivatives()
    for label, function, pts in (("fast", fast, points), ("anchor", anchors, np.arange(p + 1) / p), ("quadrature", quadrature, np.array(rule.nodes))):
        kept = dof_vector(rng, ref.N)
        for w in (u, kept, dof_vector(rng, ref.N)):
            if w is u or w is kept:
                function.dof_vector = w = np.array(w)
            else:  # DOFs may also change in place
                function.dof_vector[:] = w
            big = np.abs(w).max() + 1e-300
            for e in range(n):
                local = np.array([w[k] for k in ref.dofs[e]])
                expected = sum(local[k] * phi(p, k, pts) for k in range(p + 1))
                slope = sum(local[k] * dphi(p, k, pts) for k in range(p + 1)) / h
                m.close([function(e, i) for i in range(len(pts))], expected, f"{label} element: values", 0, 1e-9 * big * 10)
                m.close([function.derivative(e, i) for i in range(len(pts))], slope, f"{label} element: derivatives", 0, 1e-9 * big / h * 100)
            # back to the first cell after a change in place of the cell evaluated last
            for e in (n - 1, 0):
                function.dof_vector[ref.dofs[e][0]] += 1.0
                local = np.array([function.dof_vector[k] for k in ref.dofs[e]])
                expected = sum(local[k] * phi(p, k, pts) for k in range(p + 1))
                m.close([function(e, i) for i in range(len(pts))], expected, f"{label} element: values of changed DOFs", 0, 1e-9 * (big + 1) * 10)
    # polynomials are reproduced in every cell but the last, whose right node is the first one
    c = rng.normal(size=p + 1)
    poly = np.polynomial.Polynomial(c, domain=[a, b], window=[-1, 1])
    v = V.element(core.NodeValuesInterpolator(*V.basis_nodes).interpolate(lambda x: float(poly(x))))
    for e in range(n - 1):
        x = a + (e + rng.uniform(0, 1, 3)) * h
        m.close([v(e, y) for y in x], poly(x), "element: reproduces polynomials", 0, tol * np.abs(c).sum() * 10 * p**3)
        m.close([v.derivative(e, y) for y in x], poly.deriv()(x), "element: derivatives of polynomials", 0, tol * np.abs(c).sum() / h * 10 * p**5)


def dense(matrix):
    return np.asarray(matrix().toarray())


def operators(m, rng, p):
    a, b, n, mesh, V, ref = setup(rng, p)
    u, w = dof_vector(rng, ref.N), dof_vector(rng, ref.N)
    m.input(a, b, p, u, sample={"domain": [a, b], "cells": n, "degree": p})
    mass = fem.MassMatrix(V)
    m.close(dense(mass), ref.M, "mass matrix", 1e-9)
    m.close(mass.dot(u), ref.M @ u, "mass matrix: product", 1e-9)
    m.close(mass.inverse(ref.M @ u), u, "mass matrix: inverse", 1e-8)
    m.close(fem.LumpedMassVector(V)(u), ref.m, "lumped mass", 1e-9)
    m.check(abs(fem.LumpedMassVector(V)(u).sum() - (b - a)) <= 1e-10 * (b - a), "lumped mass: sums to the length of the domain")
    gradient = fem.DiscreteGradient(V)
    m.close(dense(gradient), ref.C, "discrete gradient", 1e-9)
    m.close(gradient.dot(u), ref.C @ u, "discrete gradient: product", 1e-9, 1e-9 * np.abs(u).max() * np.abs(ref.C).max())
    upwind = fem.DiscreteUpwind(V)
    m.close(dense(upwind), ref.diffusion("advection", u), "discrete upwind", 1e-9)
    upwind.assemble(u)
    m.close(upwind.dot(u), ref.diffusion("advection", u) @ u, "discrete upwind: product", 0, 1e-8 * np.abs(u).max() * np.abs(ref.C).max())
    m.observe("matrices", 4)
    burgers = fem.BurgersArtificialDiffusion(V)
    for x in (u, w, u):
        burgers.assemble(x)
        D = ref.diffusion("burgers", x)
        size = np.abs(x).max() * np.abs(ref.C).max()
        m.close(dense(burgers), D, "Burgers' diffusion", 0, 1e-9 * size)
        m.close(burgers.dot(x), D @ x, "Burgers' diffusion: product", 0, 1e-8 * size * np.abs(x).max())
        m.observe("matrices")
    for problem in ("advection", "burgers"):
        built = fem.build_artificial_diffusion(problem, V)
        built.assemble(u)
        m.close(dense(built), ref.diffusion(problem, u), f"diffusion of {problem}", 0, 1e-9 * max(np.abs(u).max(), 1) * np.abs(ref.C).max())

    def against(actual, expected, what, size):
        m.observe("vectors")
        m.close(actual, expected, what, 1e-9, 1e-9 * size)

    top = np.abs(u).max() + np.abs(w).max()
    degree = int(rng.integers(p + 1, p + 4))
    rule = core.LocalElementQuadrature(degree)
    fast = fem.QuadratureFastElement(V, rule)
    fast.set_values()
    fast.set_derivatives()
    product = fem.BasisL2Product(fast, V, degree)
    gradients = fem.BasisGradientL2Product(fast, V, degree)
    for x in (u, w):
        fast.dof_vector = x
        against(product(), ref.product(x, lambda v: v, False), "L2 product with the basis", top * ref.h)
        against(gradients(), ref.product(x, lambda v: v, True), "L2 product with basis gradients", top * p**2)
    flux = rng.choice([1.0, 0.5, 2.0]) * np.array([rng.normal(), rng.normal(), rng.normal()])

    def f(v):
        return flux[0] + flux[1] * v + flux[2] * v**2

    size = (np.abs(flux) * np.array([1, top, top**2])).sum() * p**2
    exact = fem.FluxGradient(V, f)
    for x in (u, w, u):
        against(exact(x), ref.product(x, f, True), "flux gradient", size)
    approximated = fem.ApproximatedFluxGradient(V, f)
    for x in (u, w, u):
        against(approximated(x), -ref.C @ f(x), "approximated flux gradient", size)
    approximation = fem.FluxApproximation(f)
    for x in (u, w, u):
        against(approximation(x), f(x), "flux approximation", size)
    against(fem.AdvectionFluxGradient(V)(u), -ref.C @ u, "advection flux gradient", top * p**2)
    against(fem.AdvectionFluxGradient(V)(u), ref.product(u, lambda v: v, True), "advection flux gradient is the integral", top * p**2)
    for problem, g in (("advection", lambda v: v), ("burgers", lambda v: v**2 / 2)):
        s = max(top, top**2) * p**2
        against(fem.build_flux_approximation(problem)(u), g(u), f"built flux approximation ({problem})", s)
        against(fem.build_exact_flux_gradient(problem, V)(u), ref.product(u, g, True), f"built exact flux gradient ({problem})", s)
        against(fem.build_flux_gradient_approximation(problem, V)(u), -ref.C @ g(u), f"built approximated flux gradient ({problem})", s)
        against(fem.build_flux_gradient(problem, V, True)(u), ref.product(u, g, True), f"built flux gradient, exact ({problem})", s)
        against(fem.build_flux_gradient(problem, V, False)(u), -ref.C @ g(u), f"built flux gradient, approximated ({problem})", s)


def semi_discretisation(m, rng, p, name, problem):
    a, b, n, mesh, V, ref = setup(rng, p, int(rng.integers(3, 9 if p < 4 else 5)))
    kwargs = {}
    exact = name == "cg" and rng.random() < 0.5
    if exact:
        kwargs["exact_flux"] = True
    data = work.profile(rng, rng.choice(work.KINDS), a, b, n)
    bench = work.ScalarBenchmark(problem, data, (a, b), end_time=rng.uniform(1, 2))
    solver = work.FE[name](bench, mesh_size=n, polynomial_degree=p, **kwargs)
    nodes = ref.nodes
    m.close(solver.solution.value, [data(x) for x in solver.solution.space.basis_nodes], f"{name}: initial values are nodal", 1e-12)
    m.close(solver.solution.space.basis_nodes, nodes, f"{name}: nodes", 0, 1e-12 * max(abs(a), abs(b)))
    rhs = work.rhs_of(solver)
    for repetition in range(3):
        u = dof_vector(rng, ref.N)
        m.input(name, problem, exact, p, a, b, u)
        m.observe("semi-discretisations")
        top = np.abs(u).max()
        size = (top if problem == "advection" else top**2) / ref.h * p**2
        if name == "cg":
            f = (lambda v: v) if problem == "advection" else (lambda v: v**2 / 2)
            weak = ref.product(u, f, True) if exact else -ref.C @ f(u)
            expected = np.linalg.solve(ref.M, weak)
            size *= np.linalg.cond(ref.M)
        elif name == "cg-low":
            expected = ref.low(problem, u)
        else:
            def count(limited):
                m.observe("limited pairs" if limited else "unlimited pairs")

            expected = ref.mcl(problem, u, count)
        m.close(rhs(rng.normal(), u), expected, f"{name}: semi-discretisation ({problem}{', exact' if exact else ''})", 1e-9, 1e-10 * size * (10 if name == "mcl-fem" else 1))


def build(plan):
    for p in range(1, 8):
        plan.case(f"basis p={p}", basis, p)
        for k in range(6 if p < 4 else 2):
            plan.case(f"space p={p} #{k}", space, p)
            plan.case(f"elements p={p} #{k}", elements, p)
        for k in range(3 if p < 4 else 1):
            plan.case(f"operators p={p} #{k}", operators, p)
        for name in ("cg", "cg-low", "mcl-fem"):
            for problem in ("advection", "burgers"):
                for k in range(3 if p < 4 else 1):
                    plan.case(f"{name} {problem} p={p} #{k}", semi_discretisation, p, name, problem)
