"""Independent reference models (written from the literature / documentation).

Everything here is deliberately written as plain loops over cells and nodes and
shares no code with /repo.
"""
import math

import numpy as np

G = 9.812  # documented default of the gravitational acceleration


# ---------------------------------------------------------------- scalar PDEs
def scalar_flux(problem, u):
    return u if problem == "advection" else 0.5 * u * u


def scalar_speed(problem, u):
    return 1.0 if problem == "advection" else abs(u)


# -------------------------------------------------------------- shallow water
def swe_velocity(w):
    h, q = w
    return 0.0 if h <= 0 else (q / h if h > 1e-15 else 2 * h * q / (h * h + 1e-30))


def swe_flux(w, g=G):
    h, q = float(w[0]), float(w[1])
    if h < 1e-15:
        return np.zeros(2)
    return np.array([q, q * q / h + g * h * h / 2])


def swe_speed(w, g=G):
    return abs(swe_velocity(w)) + math.sqrt(g * max(float(w[0]), 0.0))


# ------------------------------------------------------------ numerical fluxes
def llf(problem, l, r, g=G):
    """Returns local Lax-Friedrichs flux, bar state and wave speed."""
    if problem == "shallow_water":
        fl, fr = swe_flux(l, g), swe_flux(r, g)
        lam = max(swe_speed(l, g), swe_speed(r, g))
    else:
        fl, fr = scalar_flux(problem, l), scalar_flux(problem, r)
        lam = max(scalar_speed(problem, l), scalar_speed(problem, r))
    flux = (fl + fr) / 2 - lam / 2 * (r - l)
    bar = (l + r) / 2 - ((fr - fl) / (2 * lam) if lam > 0 else 0.0)
    return flux, bar, lam


def central(problem, l, r, g=G):
    if problem == "shallow_water":
        return (swe_flux(l, g) + swe_flux(r, g)) / 2
    return (scalar_flux(problem, l) + scalar_flux(problem, r)) / 2


def energy_conservative(l, r, g=G):
    h = (l[0] + r[0]) / 2
    u = (swe_velocity(l) + swe_velocity(r)) / 2
    return np.array([h * u, h * u * u + g / 2 * (l[0] ** 2 + r[0] ** 2) / 2])


def entropy_variables(w, b, g=G):
    u = swe_velocity(w)
    return np.array([g * (w[0] + b) - u * u / 2, u])


def energy_stable_diffusion(l, r, bl, br, g=G):
    mean = (np.asarray(l) + np.asarray(r)) / 2
    u, c = swe_velocity(mean), math.sqrt(g * mean[0])
    R = np.array([[1.0, 1.0], [u - c, u + c]]) / math.sqrt(2 * g)
    # R R^T = dU/dV, hence R |Lambda| R^T [V] is Roe's diffusion
    lam = np.diag([abs(u - c), abs(u + c)])
    return 0.5 * R @ lam @ R.T @ (entropy_variables(r, br, g) - entropy_variables(l, bl, g))


def bathymetry_nodes(b):
    """Bathymetry left/right of all nodes (ghost cells copy the boundary cell)."""
    b = np.asarray(b, dtype=float)
    if (np.abs(b - b[0]) < 1e-15).all():
        return np.zeros(len(b) + 2)
    return np.concatenate([[b[0]], b, [b[-1]]])


class LowOrderNode:
    """Low order scheme of Hajduk and Kuzmin at one node."""

    def __init__(self, l, r, step, g=G):
        self.flux_l, self.flux_r = swe_flux(l, g), swe_flux(r, g)
        _, bar, lam = llf("shallow_water", l, r, g)
        self.lam = lam
        self.h_bar, self.q_bar = bar
        self.fix = min(abs(step) / 2, self.h_bar) * np.sign(step)
        self.h_left, self.h_right = self.h_bar + self.fix, self.h_bar - self.fix
        velocity = (swe_velocity(l) + swe_velocity(r)) / 2
        source = -(g * (l[0] + r[0]) / 2 * self.fix / lam) if lam > 0 else 0.0
        self.q_left = self.q_bar + velocity * self.fix + source
        self.q_right = self.q_bar - velocity * self.fix + source
        self.left = lam * (np.array([self.h_left, self.q_left]) - l) - self.flux_l
        self.right = lam * (np.array([self.h_right, self.q_right]) - r) + self.flux_r


# --------------------------------------------------------- boundary conditions
def extend(u, conditions, radius=1, time=None, inflow=(None, None)):
    """Cell values continued by RADIUS ghost cells on each side."""
    u = np.asarray(u, dtype=float)
    n = len(u)
    conditions = tuple(conditions)
    if len(conditions) == 1:
        conditions = conditions * 2
    left, right = [], []
    for k in range(1, radius + 1):  # distance from the boundary
        left.insert(0, _ghost(u, conditions[0], k, n, time, inflow[0], True))
        right.append(_ghost(u, conditions[1], k, n, time, inflow[1], False))
    return np.array([*left, *u, *right])


def _ghost(u, condition, k, n, time, inflow, is_left):
    if condition == "periodic":
        return u[(-k) % n] if is_left else u[(n - 1 + k) % n]
    if condition == "outflow":
        return u[0] if is_left else u[-1]
    if condition == "inflow":
        return np.asarray(inflow(time), dtype=float)
    if condition == "wall":
        mirror = np.array(u[k - 1] if is_left else u[n - k])
        mirror[1] = -mirror[1]
        return mirror
    raise ValueError(condition)


# ---------------------------------------------------- right-hand sides (FV)
class Setting:
    def __init__(self, problem, n, length, conditions, g=G, bathymetry=None,
                 inflow=(None, None)):
        self.problem, self.n, self.dx = problem, n, length / n
        self.conditions = tuple(conditions)
        self.periodic = self.conditions == ("periodic",)
        self.g, self.inflow = g, inflow
        self.b = bathymetry_nodes(bathymetry if bathymetry is not None else np.zeros(n))


def node_fluxes(scheme, s: Setting, u, time, **kw):
    """(flux into the left cell, flux into the right cell) of every node."""
    e = extend(u, s.conditions, 1, time, s.inflow)
    nodes = [(e[i], e[i + 1]) for i in range(s.n + 1)]
    steps = np.diff(s.b)
    p = s.problem
    left, right = [], []
    if scheme == "mcl":
        return _mcl(s, u, e, nodes, steps, kw.get("high", "central"), time)
    for i, (l, r) in enumerate(nodes):
        if scheme == "low-order":
            node = LowOrderNode(l, r, steps[i], s.g)
            left.append(node.left)
            right.append(node.right)
            continue
        if scheme == "llf":
            f = llf(p, l, r, s.g)[0]
        elif scheme == "central":
            f = central(p, l, r, s.g)
        elif scheme == "es":
            f = energy_conservative(l, r, s.g)
        elif scheme == "es1":
            f = energy_conservative(l, r, s.g) - energy_stable_diffusion(
                l, r, s.b[i], s.b[i + 1], s.g
            )
        elif scheme == "antidiffusion":
            base = node_fluxes(kw.get("base", "llf"), s, u, time)
            f = None
        elif scheme == "lw":
            f0, _, lam = llf(p, l, r, s.g)
            f = f0 + kw["dt"] * lam * (r - l) / s.dx
        else:
            raise ValueError(scheme)
        if scheme == "antidiffusion":
            d = kw["gamma"] * (r - l) / s.dx
            left.append(base[0][i] - d)
            right.append(base[1][i] + d)
            continue
        source = np.zeros(2) if p == "shallow_water" else 0.0
        if p == "shallow_water":
            source = np.array([0.0, s.g / 2 * (l[0] + r[0]) / 2 * steps[i]])
        left.append(-f - source)
        right.append(f - source)
    return np.array(left), np.array(right)


def _mcl(s, u, e, nodes, steps, high, time):
    if s.problem != "shallow_water":
        return _mcl_scalar(s, u, e, nodes)
    return _mcl_swe(s, u, nodes, steps, high, time)


def _mcl_scalar(s, u, e, nodes):
    n = s.n
    upper, lower = [], []
    for i in range(n + 2):  # cells of the extended vector
        around = [e[i]]
        if i > 0:
            around.append(e[i - 1])
        if i < n + 1:
            around.append(e[i + 1])
        if s.periodic and i == 0:
            around.append(u[(-2) % n])
        if s.periodic and i == n + 1:
            around.append(u[1 % n])
        upper.append(max(around))
        lower.append(min(around))
    left, right = [], []
    for i, (l, r) in enumerate(nodes):
        low, bar, lam = llf(s.problem, l, r)
        anti = central(s.problem, l, r) - low
        most = lam * min(upper[i + 1] - bar, bar - lower[i])
        least = lam * max(lower[i + 1] - bar, bar - upper[i])
        f = low + max(least, min(most, anti))
        left.append(-f)
        right.append(f)
    return np.array(left), np.array(right)


def _mcl_swe(s, u, nodes, steps, high, time):
    n = s.n
    low = [LowOrderNode(l, r, steps[i], s.g) for i, (l, r) in enumerate(nodes)]
    _, high_right = node_fluxes(high, s, u, time)

    def cell_neighbours(at_left, at_right):
        """For every cell incl. one ghost cell per side: node values seen from it.

        AT_LEFT/AT_RIGHT: node values belonging to the cell left/right of the
        node."""
        x = np.empty(n + 2)
        y = np.empty(n + 2)
        for c in range(n + 2):
            # node c-1 is left of extended cell c, node c right of it
            x[c] = at_right[c - 1] if c > 0 else np.nan
            y[c] = at_left[c] if c < n + 1 else np.nan
        if s.periodic:
            x[0] = at_right[n - 1]  # node left of the last cell
            y[n + 1] = at_left[1]  # node right of the first cell
        else:
            x[0], y[n + 1] = x[1], y[n]
        return x, y

    h_left = np.array([k.h_left for k in low])
    h_right = np.array([k.h_right for k in low])
    h_bar = np.array([k.h_bar for k in low])
    q_left = np.array([k.q_left for k in low])
    q_right = np.array([k.q_right for k in low])
    lam = np.array([k.lam for k in low])
    v_bar = np.array([
        (a + b) / (c + d) if c + d > 0 else 0.0
        for a, b, c, d in zip(q_left, q_right, h_left, h_right)
    ])
    hx, hy = cell_neighbours(h_left, h_right)
    h_max, h_min = np.maximum(hx, hy), np.minimum(hx, hy)
    bx, by = cell_neighbours(h_bar, h_bar)
    vx, vy = cell_neighbours(v_bar, v_bar)
    qx, qy = cell_neighbours(q_left, q_right)
    ratio = [np.array([a / b if b != 0 else 0.0 for a, b in zip(q, h)]) for q, h in ((qx, bx), (qy, by))]
    v_max = np.max([vx, vy, *ratio], axis=0)
    v_min = np.min([vx, vy, *ratio], axis=0)
    left, right = [], []
    for i in range(n + 1):
        anti = high_right[i] - low[i].right
        fh = max(
            lam[i] * max(h_min[i + 1] - h_right[i], h_left[i] - h_max[i]),
            min(lam[i] * min(h_max[i + 1] - h_right[i], h_left[i] - h_min[i]), anti[0]),
        )
        h_star = h_bar[i] + (fh / lam[i] if lam[i] > 0 else 0.0)
        shift = lam[i] * (q_right[i] - h_star * v_bar[i])
        fv = anti[1] + shift
        fv = max(
            lam[i] * max(h_star * (v_min[i + 1] - v_bar[i]), (2 * h_bar[i] - h_star) * (v_bar[i] - v_max[i])),
            min(lam[i] * min(h_star * (v_max[i + 1] - v_bar[i]), (2 * h_bar[i] - h_star) * (v_bar[i] - v_min[i])), fv),
        )
        fq = fv - shift
        right.append(low[i].right + np.array([fh, fq]))
        left.append(low[i].left - np.array([fh, fq]))
    return np.array(left), np.array(right)


def rhs(scheme, s: Setting, u, time=0.0, **kw):
    left, right = node_fluxes(scheme, s, u, time, **kw)
    return (right[:-1] + left[1:]) / s.dx


# --------------------------------------------------------- Runge-Kutta methods
TABLEAUS = {
    "euler": ([[]], [1.0]),
    "heun": ([[], [1.0]], [0.5, 0.5]),
    "ssp3": ([[], [1.0], [0.25, 0.25]], [1 / 6, 1 / 6, 2 / 3]),
}


def rk_step(method, f, t, u, dt):
    A, b = TABLEAUS[method]
    k = []
    for row in A:
        c = sum(row)
        stage = np.array(u, dtype=float)
        for a, kk in zip(row, k):
            stage = stage + dt * a * kk
        k.append(f(t + c * dt, stage))
    new = np.array(u, dtype=float)
    for weight, kk in zip(b, k):
        new = new + dt * weight * kk
    return new


# ------------------------------------------------------------------ quadrature
def gauss(n, a, b):
    x, w = np.polynomial.legendre.leggauss(n)
    return (a + b) / 2 + (b - a) / 2 * x, (b - a) / 2 * w


def cell_averages(f, a, b, n, points=2):
    """Cell averages with a Gauss rule of POINTS nodes per cell."""
    edges = a + (b - a) * np.arange(n + 1) / n
    values = []
    for i in range(n):
        x, w = gauss(points, edges[i], edges[i + 1])
        values.append(sum(wj * np.asarray(f(xj), dtype=float) for xj, wj in zip(x, w)) / (edges[i + 1] - edges[i]))
    return np.array(values)
