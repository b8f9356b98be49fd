"""C25: system vectors and matrices behave like dense linear algebra."""
import core
import work
import finite_element as fem
import numpy as np
from finite_element import artificial_diffusion

RULE = (
    "random sequences of 15-40 operations (assignments of single entries and of whole matrices, dense or sparse, updates, "
    "factorisations, products, inverses, sums, row- and column-wise scalings, re-assembly, caller overwriting what it "
    "passed) on plain system matrices (also with entries of very different magnitudes) and on assembled finite element matrices (degrees 1-4), compared with a dense twin; "
    "sums are compared with other matrices of the same size. Non-trivial: all."
)
QUICK_ROUNDS = 20
REQUIRE = {"operations": 3000, "products": 600, "inverses": 600, "changes": 600, "assemblies": 150, "graded matrices": 60}


class Twin:
    """Dense model: entries as assigned and entries used for arithmetic."""

    def __init__(self, n):
        self.entries, self.used = np.zeros((n, n)), None

    def commit(self):
        self.used = self.entries.copy()

    @property
    def clean(self):
        return self.used is not None and (self.used == self.entries).all()


def regular(rng, n):
    """Diagonally dominant matrix with a random sparsity pattern."""
    A = rng.normal(size=(n, n)) * (rng.random((n, n)) < rng.uniform(0.2, 1))
    return A + np.diag((np.abs(A).sum(axis=1) + 0.5) * rng.choice([-1, 1], n))


def dense(matrix):
    return np.asarray(matrix.toarray() if hasattr(matrix, "toarray") else matrix)


def entries_agree(m, matrix, twin, after):
    n = len(twin.entries)
    m.close_each(dense(matrix()), twin.entries, f"entries after {after}", 1e-13)
    m.close_each([[matrix[i, j] for j in range(n)] for i in range(min(n, 3))], twin.entries[: min(n, 3)], f"element access after {after}", 1e-13)


def arithmetic(m, rng, matrix, twin, other, other_dense, after):
    n = len(twin.entries)
    x = rng.normal(size=n) * work.magnitude(rng)
    given = x.copy()
    m.close(matrix.dot(x), twin.used @ x, f"product after {after}", 1e-12, 1e-12)
    m.observe("products")
    m.close(dense(matrix + other), twin.used + other_dense, f"sum after {after}", 1e-13)
    m.close(dense(other - matrix), other_dense - twin.used, f"difference after {after}", 1e-13)
    m.close(dense(matrix.multiply_row(x)), twin.entries * x[None, :], f"row-wise scaling after {after}", 1e-13)
    m.close(dense(matrix.multiply_column(x)), twin.entries * x[:, None], f"column-wise scaling after {after}", 1e-13)
    m.check((x == given).all(), "vectors passed in are not changed")
    if (condition := np.linalg.cond(twin.used)) < 1e8:
        m.observe("inverses")
        y = matrix.inverse(x)
        m.close(twin.used @ y, x, f"inverse after {after}", 0, 1e-12 * condition * np.abs(x).max())
        m.check((x == given).all(), "vectors passed in are not changed")


def plain(m, rng):
    from scipy.sparse import csr_matrix

    n = int(rng.integers(2, 9))
    matrix, twin = core.SystemMatrix(n), Twin(n)
    other, other_dense = core.SystemMatrix(n), rng.normal(size=(n, n))
    other.set_values(other_dense)
    m.check(matrix.dimension == n, "dimension")
    start = regular(rng, n)
    m.input(start, sample={"matrix": start[:3]})
    matrix.set_values(start)
    twin.entries[...] = start
    twin.commit()
    for _ in range(int(rng.integers(15, 41))):
        m.observe("operations")
        operation = str(rng.choice(["assign", "set", "update", "factorise", "use", "use", "pass"]))
        if operation == "assign":
            for _ in range(int(rng.integers(1, 4))):
                i, j = (int(k) for k in rng.integers(0, n, 2))
                value = float(rng.normal()) if i != j else float(rng.choice([-1, 1]) * (n + rng.uniform(1, 5)))
                matrix[i, j] = value
                twin.entries[i, j] = value
                m.observe("changes")
            entries_agree(m, matrix, twin, operation)
            if rng.random() < 0.6:
                continue
            matrix.update_csr_values()
            twin.commit()
        elif operation == "set":
            if rng.random() < 0.4 and np.linalg.cond(twin.used) < 1e8:  # values close to the old ones, which are often factorised
                values = twin.used * (1 + 10 ** rng.uniform(-9, -1) * rng.normal(size=(n, n)))
                if rng.random() < 0.7 and twin.clean:
                    matrix.build_inverse()
            else:
                values = regular(rng, n)
            m.observe("changes")
            twin.entries[...] = values
            matrix.set_values(csr_matrix(values) if rng.random() < 0.3 else values)
            values[...] = 77.0  # the caller's own array
            twin.commit()
        elif operation == "update":
            matrix.update_csr_values()
            twin.commit()
        elif operation == "factorise":
            if not twin.clean:
                matrix.update_csr_values()
                twin.commit()
            if np.linalg.cond(twin.used) < 1e8:
                matrix.build_inverse()
        elif operation == "pass" and twin.clean:
            # results do not share memory with the matrix
            for result in (matrix + other, matrix - other, matrix.multiply_row(np.ones(n))):
                result *= 3.0
        entries_agree(m, matrix, twin, operation)
        if twin.clean:
            arithmetic(m, rng, matrix, twin, other, other_dense, operation)
    matrix.update_csr_values()
    twin.commit()
    arithmetic(m, rng, matrix, twin, other, other_dense, "the last update")


def graded(m, rng):
    """Entries of very different magnitudes: none is lost beside the others."""
    n = int(rng.integers(1, 9))
    matrices, arrays = [], []
    for _ in range(2):
        A = rng.normal(size=(n, n)) * (rng.random((n, n)) < rng.uniform(0.3, 1))
        if rng.random() < 0.5:
            A *= 10 ** rng.uniform(-15, 12, (n, n))
        else:
            A *= 10 ** rng.uniform(-9, 9, (n, 1)) * 10 ** rng.uniform(-9, 9, n)
        matrix = core.SystemMatrix(n)
        if rng.random() < 0.5:
            matrix.set_values(A.copy())
        else:
            for i in range(n):
                for j in range(n):
                    if A[i, j] != 0:
                        matrix[i, j] = A[i, j]
            matrix.update_csr_values()
        if rng.random() < 0.5:
            matrix.update_csr_values()
        matrices.append(matrix)
        arrays.append(A)
    (matrix, other), (A, B) = matrices, arrays
    m.input(A, B, sample={"matrix": A[:3]})
    m.observe("graded matrices")
    m.close_each(dense(matrix()), A, "graded: entries", 1e-14)
    m.close_each([[matrix[i, j] for j in range(n)] for i in range(n)], A, "graded: element access", 1e-14)
    m.close_each(dense(matrix + other), A + B, "graded: sum", 1e-14)
    m.close_each(dense(matrix - other), A - B, "graded: difference", 1e-14)
    for _ in range(3):
        x = rng.normal(size=n) * 10 ** rng.uniform(-9, 9, n)
        if rng.random() < 0.5:  # single columns
            x *= np.arange(n) == rng.integers(n)
        bound = 1e-14 * n * (np.abs(A) @ np.abs(x))
        m.check((np.abs(matrix.dot(x) - A @ x) <= bound).all(), "graded: product", matrix=A, x=x)
        m.close_each(dense(matrix.multiply_row(x)), A * x[None, :], "graded: row-wise scaling", 1e-14)
        m.close_each(dense(matrix.multiply_column(x)), A * x[:, None], "graded: column-wise scaling", 1e-14)
    # triangular matrices are solved accurately whatever their scaling
    scale = 10 ** rng.uniform(-12, 9, n)
    matrix.set_values(np.diag(scale))
    if rng.random() < 0.5:
        matrix.build_inverse()
    x = rng.normal(size=n)
    m.close_each(matrix.inverse(scale * x), x, "graded: inverse of diagonal matrices", 1e-12)
    m.observe("inverses")


def assembled(m, rng, kind):
    p, n = int(rng.integers(1, 5)), int(rng.integers(3, 7))
    space = fem.LagrangeSpace(core.UniformMesh(core.Interval(0.0, float(10 ** rng.uniform(-1, 1))), n), p)
    N = space.dimension
    mass = fem.MassMatrix(space)
    M, gradient = dense(mass()).copy(), fem.DiscreteGradient(space)
    G = dense(gradient()).copy()
    m.input(kind, p, n, sample={"matrix": kind, "degree": p, "cells": n})
    if kind == "burgers":
        matrix = artificial_diffusion.BurgersArtificialDiffusion(space)
        for _ in range(5):
            u = rng.normal(size=N) * work.magnitude(rng)
            given = u.copy()
            matrix.assemble(u)
            m.observe("assemblies")
            m.observe("changes", N)
            D = np.abs(G * u[None, :])
            D = np.maximum(D, D.T)
            np.fill_diagonal(D, 0.0)
            D -= np.diag(D.sum(axis=1))
            twin = Twin(N)
            # entries on the diagonal of the gradient vanish up to rounding only
            m.close(dense(matrix()), D, "burgers: assembled entries", 1e-11)
            m.check((u == given).all(), "vectors passed in are not changed")
            twin.entries[...] = dense(matrix())
            twin.commit()
            arithmetic(m, rng, matrix, twin, mass, M, "assembly")
        return
    matrix, A = {"mass": (mass, M), "gradient": (gradient, G)}[kind]
    twin = Twin(N)
    twin.entries[...] = A
    twin.commit()
    other, other_dense = (gradient, G) if kind == "mass" else (mass, M)
    lumped = fem.LumpedMassVector(space)
    for _ in range(int(rng.integers(5, 12))):
        m.observe("operations")
        operation = str(rng.choice(["assemble", "factorise", "use", "change", "vector"]))
        if operation == "assemble":
            matrix.assemble()
            m.observe("assemblies")
            twin.entries[...] = A
            twin.commit()
        elif operation == "factorise" and np.linalg.cond(twin.used) < 1e8:
            matrix.build_inverse()
        elif operation == "change":
            i = int(rng.integers(N))
            value = float(np.abs(A).max() * rng.uniform(1, 2))
            matrix[i, i] = value
            matrix.update_csr_values()
            m.observe("changes")
            twin.entries[i, i] = value
            twin.commit()
        elif operation == "vector":
            m.close(lumped(rng.normal(size=N)), M.sum(axis=1), "lumped mass is the sum of each row", 1e-12)
        m.close(dense(matrix()), twin.entries, f"{kind}: entries after {operation}", 1e-13)
        arithmetic(m, rng, matrix, twin, other, other_dense, operation)


def build(plan):
    for k in range(16):
        plan.case(f"plain #{k}", plain)
    for k in range(4):
        plan.case(f"graded #{k}", graded)
    for kind in ("mass", "gradient", "burgers"):
        for k in range(4):
            plan.case(f"{kind} #{k}", assembled, kind)
