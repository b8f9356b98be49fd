"""C13: a discrete solution is an isolated, complete record of the evolution."""
import core
import finite_element as fem
import finite_volume
import numpy as np

import work

RULE = (
    "random sequences of 10-40 operations (update, rejected update, set an earlier, equal or later time, rejected set, "
    "caller overwriting arrays it passed or received) on all four solution classes with scalar and vector values; after "
    "each operation time, value and histories are compared with a list model that shares no arrays. Solver runs are "
    "recorded step by step and compared with their histories. Non-trivial: at least one update."
)
QUICK_ROUNDS = 24
REQUIRE = {"operations": 3000, "rejected": 300, "caller writes": 500, "truncations": 200, "solver steps": 300, "nearby times": 50, "default times": 50, "largest numbers": 50}


class Model:
    def __init__(self, value, time, average):
        self.average = average
        self.times, self.values = [time], [average(value)]

    @property
    def time(self):
        return self.times[-1]

    def update(self, dt, value):
        self.times.append(self.time + dt)
        self.values.append(self.average(value))

    def set_value(self, value, time):
        keep = [i for i, t in enumerate(self.times) if t < time]
        dropped = len(self.times) - len(keep)
        self.times = [self.times[i] for i in keep] + [time]
        self.values = [self.values[i] for i in keep] + [self.average(value)]
        return dropped


def agree(m, solution, model, history, after):
    scale = max(1.0, *(abs(t) for t in model.times))
    ok = m.close(solution.time, model.time, f"time after {after}", 0, 1e-12 * scale)
    ok &= m.close(solution.value, model.values[-1], f"value after {after}", 1e-14)
    shape = model.values[-1].shape
    m.check(solution.dimension == (shape[0] if len(shape) == 1 else shape), "dimension", dimension=solution.dimension)
    if history:
        ok &= m.close(solution.time_history, model.times, f"history of times after {after}", 0, 1e-12 * scale)
        ok &= m.close(solution.value_history, model.values, f"history of values after {after}", 1e-14)
        ok &= m.close(solution.time_step_history, np.diff(model.times), f"history of time steps after {after}", 0, 2e-12 * scale)
    if not ok:
        from vf import StopCase

        raise StopCase
    # follow the rounding of times so that comparisons of times stay exact
    model.times[-1] = float(solution.time)


def sequence(m, rng, kind):
    n, k = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    coarse, history = kind.startswith("Coarse"), kind.endswith("History")
    size = n * k if coarse else n
    tail = [(), (2,)][int(rng.integers(2))]
    shape = (size, *tail)
    start = float(rng.choice([0.0, rng.normal(), 100.0]))
    held = [rng.normal(size=shape) * work.magnitude(rng)]
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), size))
    inner = core.DiscreteSolution(held[0], start, space)

    def average(v):
        v = np.array(v, dtype=float)
        return np.array([sum(v[k * i + j] for j in range(k)) / k for i in range(n)]) if coarse else v

    # the classes of the record are looked up like the solvers do
    solution = inner
    if kind == "WithHistory":
        solution = core.DiscreteSolutionWithHistory(inner)
    elif kind == "Coarse":
        solution = core.CoarseSolution(inner, k)
    elif kind == "CoarseWithHistory":
        solution = core.CoarseSolutionWithHistory(inner, k)
    model = Model(held[0], start, average)
    m.input(kind, shape, start, held[0], sample={"class": kind, "shape": list(shape), "start": start})
    agree(m, solution, model, history, "construction")
    for _ in range(work.cells(rng, 10, 41, 0.04, 500)):
        operation = rng.choice(["update", "update", "reject", "set", "reject set", "write passed", "write received"])
        m.observe("operations")
        if operation == "update":
            dt, value = float(rng.choice([rng.uniform(1e-3, 1), 1e-9, 0.1])), rng.normal(size=shape) * work.magnitude(rng)
            if not coarse and rng.random() < 0.1:  # finite, but sums and squares are not
                value = rng.choice([-1.0, 1.0], shape) * rng.uniform(1e307, 1.7e308, shape)
                m.observe("largest numbers")
            held.append(value)
            solution.update(dt, value)
            model.update(dt, value)
        elif operation == "set":
            value = rng.normal(size=shape) * work.magnitude(rng)
            held.append(value)
            choice = rng.integers(6)
            times = model.times
            if choice == 0:
                time = float(rng.choice(times))
            elif choice == 1:
                time = times[-1] + rng.uniform(0.01, 1)
            elif choice == 2:
                time = times[0] - rng.uniform(0, 1)
            elif choice == 3:
                # hardly after or before a recorded time
                time = float(rng.choice(times))
                time += float(rng.choice([-1, 1])) * max(float(rng.choice([1e-10, 1e-9, 1e-7])), 4 * np.spacing(abs(time)))
                m.observe("nearby times")
            elif choice == 4:
                time = None
            else:
                time = float(rng.uniform(times[0], times[-1] + 0.1))
            if time is None:  # the time defaults to zero
                time = 0.0
                solution.set_value(value)
                m.observe("default times")
            else:
                solution.set_value(value, time)
            m.check(solution.time == time, "set time is taken exactly", time=solution.time, given=time)
            if model.set_value(value, time):
                m.observe("truncations")
        elif operation.startswith("reject"):
            value = rng.normal(size=shape) * work.magnitude(rng)
            value[tuple(int(rng.integers(s)) for s in shape)] = rng.choice([np.nan, np.inf, -np.inf])
            m.observe("rejected")
            if operation == "reject":
                m.raises(lambda: solution.update(float(rng.uniform(0.01, 1)), value), ValueError, "non-finite updates are refused")
            else:
                time = float(rng.choice([model.times[0], model.times[-1], model.times[-1] + 1, model.times[0] - 1]))
                m.raises(lambda: solution.set_value(value, time), ValueError, "non-finite values are not set")
        elif operation == "write passed":
            m.observe("caller writes")
            for array in held:
                array[...] = rng.normal(size=array.shape)
        else:
            m.observe("caller writes")
            received = [solution.value]
            if history:
                received += [solution.time_history, solution.value_history, solution.time_step_history]
            for array in received:
                if array.flags.writeable:
                    array[...] = 1e9
        agree(m, solution, model, history, operation)
    if coarse:
        m.check(solution.space.dimension == n, "space of the coarse solution")
    else:
        m.check(solution.space is space, "space of the solution")
        m.close(solution.grid, space.grid, "grid of the solution", 0)


def recorded_run(m, rng, family):
    """Histories of solvers hold every step, solutions without history the last one."""
    for _ in range(2):
        if family == "swe":
            bench, options = work.swe_setup(rng, steps=8)
            solver_type = work.SWE[str(rng.choice(["llf", "low-order", "mcl", "coarse"]))]
            if solver_type is work.SWE["coarse"]:
                options = {**options, "mesh_size": options["mesh_size"] * 2, "coarsening_degree": 2}
        elif family == "scalar":
            bench, options = work.scalar_setup(rng, str(rng.choice(["advection", "burgers"])), steps=8)
            solver_type = work.SCALAR_FV[str(rng.choice(["llf", "mcl-fv"]))]
        else:
            bench, options = work.scalar_setup(rng, "advection", n=int(rng.integers(4, 10)), steps=8, kind="smooth")
            solver_type = work.FE["cg"]
            options["polynomial_degree"] = 1
            options["cfl_number"] *= 0.5
        with_history = solver_type(bench, save_history=True, **options)
        without = solver_type(bench, save_history=False, **options)
        ode = with_history.as_dict()["ode_solver"]
        execute = ode.execute
        start = np.array(with_history.solution.value)
        log = []

        def hooked(dt):
            execute(dt)
            log.append((dt, np.array(ode.solution)))

        ode.execute = hooked
        work.solve(with_history)
        work.solve(without)
        coarse = options.get("coarsening_degree", 1)
        fold = core.VectorCoarsener(coarse) if coarse > 1 else (lambda v: v)
        m.input(family, solver_type.__name__, bench.end_time, nontrivial=len(log) > 1)
        m.observe("solver steps", len(log))
        s = with_history.solution
        scale = max(1.0, abs(bench.end_time), abs(bench.start_time))
        m.check((s.value_history[0] == start).all(), "history starts with the initial data")
        m.close(s.value_history[1:], [fold(v) for _, v in log], "history holds the values of every step", 1e-14)
        m.close(s.time_step_history, [dt for dt, _ in log], "history holds every time step", 0, 1e-11 * scale)
        m.close(s.time_history[0], bench.start_time, "history starts at the start time", 0)
        m.check((s.value == s.value_history[-1]).all() and s.time == s.time_history[-1], "the present value ends the history")
        m.close(without.solution.value, s.value, "solutions without history agree", 0)
        m.check(without.solution.time == s.time, "solutions without history have the same time")
        frozen = s.value_history
        ode.solution[...] = 7.0
        m.check((s.value_history == frozen).all(), "later changes of the integrator do not reach the record")
        returned = s.value
        returned[...] = 3.0
        m.check((s.value == frozen[-1]).all(), "changes of returned values do not reach the record")


def long_record(m, rng, kind):
    """Thousands of updates."""
    k = int(rng.integers(1, 4)) if kind.startswith("Coarse") else 1
    n, steps = int(rng.integers(1, 4)), int(rng.integers(300, 3000))
    space = finite_volume.FiniteVolumeSpace(core.UniformMesh(core.Interval(0, 1), n * k))
    values, dts = rng.normal(size=(steps + 1, n * k)) * work.magnitude(rng), rng.uniform(0.01, 1, steps)
    start = float(rng.choice([0.0, rng.normal()]))
    inner = core.DiscreteSolution(values[0], start, space)
    solution = core.CoarseSolutionWithHistory(inner, k) if kind.startswith("Coarse") else core.DiscreteSolutionWithHistory(inner)
    for dt, value in zip(dts, values[1:]):
        solution.update(float(dt), value)
    times = start + np.concatenate([[0.0], np.cumsum(dts)])
    m.input(kind, steps, start, values[0])
    m.observe("operations", steps)
    expected = values.reshape(steps + 1, n, k).mean(axis=2)
    m.close(solution.time_history, times, "long history of times", 1e-10, 1e-10)
    m.close(solution.time_step_history, dts, "long history of time steps", 0, 1e-10)
    m.close(solution.value_history, expected, "long history of values", 1e-12, 1e-12)
    m.close(solution.value, expected[-1], "value after many updates", 1e-12, 1e-12)
    # back to an early time
    early = int(rng.integers(1, steps))
    solution.set_value(values[0], float(solution.time_history[early]))
    m.close(solution.value_history, [*expected[:early], expected[0]], "long history after setting an early value", 1e-12, 1e-12)
    m.check(len(solution.time_history) == early + 1, "length of a long history after setting an early value", got=len(solution.time_history), expected=early + 1)


def build(plan):
    if plan.round < 3:
        for kind in ("Plain", "Coarse"):
            plan.case(f"long {kind}", long_record, kind)
    for kind in ("Plain", "WithHistory", "Coarse", "CoarseWithHistory"):
        for k in range(12):
            plan.case(f"{kind} #{k}", sequence, kind)
    for family in ("swe", "scalar", "fe"):
        for k in range(4):
            plan.case(f"run {family} #{k}", recorded_run, family)
