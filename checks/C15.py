"""C15: runs are deterministic and random benchmarks reproducible."""
import json
import os
import random
import subprocess
import sys

import numpy as np
from benchmark.shallow_water import (
    OscillationNoTopographyBenchmark, RandomBenchmarkGenerator, RandomOscillationNoTopographyBenchmark,
)

import twin
import vf
import work

RULE = (
    "random configurations of every solver run several times: in one process (with other runs and uses of the global "
    "random generators in between) and in fresh processes with other hash seeds, results compared bit by bit; seeds "
    "0-10^9 and random parameters for random benchmarks, interleaved generators, samples of the initial data over the "
    "whole domain. Non-trivial: every run, every seed."
)
QUICK_ROUNDS = 2
THOROUGH_SECONDS = 240
REQUIRE = {"repeated runs": 40, "runs in other processes": 40, "seeds": 300, "parameters": 300, "generators": 60}
NAMES = (
    "height_average", "height_amplitude", "height_phase_shift", "height_wave_number",
    "velocity_average", "velocity_amplitude", "velocity_phase_shift", "velocity_wave_number",
)


def spoil(rng):
    """Uses of global state between runs."""
    np.random.seed(int(rng.integers(2**31)))
    random.seed(int(rng.integers(2**31)))
    np.random.rand(3)


def repeated(m, rng, seed, numbers):
    for number in numbers:
        first = None
        for repetition in range(3):
            spoil(rng)
            if repetition == 2:  # another run in between
                twin.digests(seed, [int(rng.integers(0, 15))])
            got = twin.digests(seed, [number])
            m.input("repeat", seed, number, sample={"solver": got[0][0]})
            m.observe("repeated runs")
            if first is None:
                first = got
            for a, b in zip(first, got):
                m.check(a == b, f"{a[0]}: repeated runs agree bit by bit", first=a, again=b)


def processes(m, rng, seed, numbers):
    expected = twin.digests(seed, numbers)
    for repetition in range(2):
        env = {**os.environ, "PYTHONHASHSEED": str(int(rng.integers(1, 10**6)))}
        out = subprocess.run(
            [sys.executable, os.path.join(vf.VERIF, "lib", "twin.py"), str(seed), ",".join(map(str, numbers))],
            capture_output=True, text=True, env=env,
        )
        lines = [line for line in out.stdout.splitlines() if line.startswith("DIGESTS ")]
        if not m.check(len(lines) == 1, "runs in another process end", error=out.stderr[-1500:]):
            return
        got = json.loads(lines[0][8:])
        m.check(len(got) == len(expected), "number of runs in another process")
        for a, b in zip(expected, got):
            m.input("process", a[0], a[1])
            m.observe("runs in other processes")
            m.check(list(a) == list(b), f"{a[0]}: runs in another process agree bit by bit", here=a, there=b)


def samples(bench, points):
    return np.array([bench.initial_data(x) for x in points])


def benchmarks(m, rng):
    points = np.linspace(0, 100, 23)
    seen = {}
    for _ in range(25):
        seed = int(rng.choice([rng.integers(0, 50), rng.integers(0, 10**9)]))
        spoil(rng)
        one = RandomOscillationNoTopographyBenchmark(seed)
        other = RandomOscillationNoTopographyBenchmark(int(rng.integers(10**9)))
        spoil(rng)
        two = RandomOscillationNoTopographyBenchmark(seed)
        data = samples(one, points)
        m.input(seed, sample={"seed": seed})
        m.observe("seeds")
        m.check((data == samples(two, points)).all() and one.end_time == two.end_time, "equal seeds describe equal data", seed=seed)
        m.check(one.as_dict() == two.as_dict() or str(one.as_dict()) == str(two.as_dict()), "equal seeds describe equal benchmarks", seed=seed)
        m.check(one.seed == seed and one.as_dict()["seed"] == seed, "random benchmarks know their seed", seed=seed, known=one.seed)
        if other.seed != seed:
            m.check(not (data == samples(other, points)).all(), "different seeds describe different data", seed=seed, other=other.seed)
        key = data.tobytes()
        m.check(seen.setdefault(key, seed) == seed, "different seeds describe different data", seed=seed, other=seen[key])
        m.check((data[:, 0] > 0).all(), "random heights are positive", seed=seed)
        for name, low, high in (
            ("height_average", 2.0, 2.0), ("height_amplitude", 0.2, 0.6), ("height_phase_shift", 0, 2 * np.pi), ("height_wave_number", 1, 5),
            ("velocity_average", 1, 2), ("velocity_amplitude", 0.2, 0.6), ("velocity_phase_shift", 0, 2 * np.pi), ("velocity_wave_number", 1, 4),
        ):
            value = getattr(one, name)
            m.check(low <= value <= high, "random parameters lie in their range", name=name, value=value, seed=seed)
            if name.endswith("number"):
                m.check(value == int(value), "wave numbers are integers", value=value)
        reference = np.array([oscillation(x, *[float(getattr(one, name)) for name in NAMES]) for x in points])
        m.close(data, reference, "random data follow their parameters", 1e-12)


def oscillation(x, h0, Ah, ph, kh, v0, Av, pv, kv):
    h = h0 + Ah * np.sin(kh * 2 * np.pi * x / 100 + ph)
    v = v0 + Av * np.sin(kv * 2 * np.pi * x / 100 + pv)
    return h, h * v


def draw(rng, name):
    if name == "height_average":
        return float(rng.uniform(1, 3))
    if name.endswith("number"):
        return int(rng.integers(1, 9))
    return float(rng.uniform(0.01, 0.9))


def parameters(m, rng):
    points = np.linspace(0, 100, 17)
    for _ in range(20):
        given = {name: draw(rng, name) for name in NAMES if rng.random() < 0.5}
        end = float(rng.uniform(0.1, 100))
        seed = int(rng.integers(1, 10**6))
        m.input(seed, tuple(given.items()), sample=given)
        m.observe("parameters")
        for bench in (
            OscillationNoTopographyBenchmark(end_time=end, **given),
            RandomOscillationNoTopographyBenchmark(seed, end_time=end, **given),
            RandomBenchmarkGenerator(seed=seed, end_time=end, **given)(),
        ):
            label = type(bench).__name__
            m.check(bench.end_time == end, f"{label}: end time is honoured", end_time=bench.end_time, given=end)
            for name, value in given.items():
                m.check(getattr(bench, name) == value, f"{label}: given parameters are honoured", name=name, given=value, got=getattr(bench, name))
            full = [float(getattr(bench, name)) for name in NAMES]
            m.close(samples(bench, points), [oscillation(x, *full) for x in points], f"{label}: data follow the parameters", 1e-12)
            entries = bench.as_dict()
            m.check(all(entries[k] == getattr(bench, n) for k, n in zip(("h0", "Ah", "ph", "kh", "v0", "Av", "pv", "kv"), NAMES)), f"{label}: described by its parameters")
        # the fixed oscillation honours zeros
        name = str(rng.choice([n for n in NAMES if n != "height_average"]))
        bench = OscillationNoTopographyBenchmark(**{name: 0})
        m.check(getattr(bench, name) == 0, "oscillation: parameters equal to zero are honoured", name=name, got=getattr(bench, name))


def zero(m, rng, name):
    """Parameters given as zero in random benchmarks (see known findings)."""
    for _ in range(5):
        seed = int(rng.integers(1, 10**6))
        m.input(name, seed)
        if name == "seed":
            generator = RandomBenchmarkGenerator(seed=seed)
            m.check(generator(0).seed == 0, "random benchmark generator honours seed 0")
            continue
        for bench in (RandomOscillationNoTopographyBenchmark(seed, **{name: 0}), RandomBenchmarkGenerator(seed=seed, **{name: 0})()):
            m.check(getattr(bench, name) == 0, f"random benchmark honours {name}=0", got=getattr(bench, name))


def generators(m, rng):
    points = np.linspace(0, 100, 9)
    for _ in range(6):
        seed = int(rng.choice([0, 1, rng.integers(0, 10**9)]))
        end = float(rng.uniform(1, 50))
        one, two = (RandomBenchmarkGenerator(seed=seed, end_time=end) for _ in range(2))
        third = RandomBenchmarkGenerator(seed=seed + 1)
        first, second = [], []
        for _ in range(5):
            spoil(rng)
            first.append(one())
            for _ in range(int(rng.integers(0, 3))):
                third()
        for _ in range(5):
            explicit = int(rng.integers(1, 10**9))
            m.check(third(explicit).seed == explicit, "generators honour explicit seeds")
            second.append(two())
        m.input(seed, end)
        m.observe("generators")
        m.check([b.seed for b in first] == [b.seed for b in second], "generators with equal seeds draw equal benchmarks", seed=seed)
        m.check(all((samples(a, points) == samples(b, points)).all() for a, b in zip(first, second)), "generators with equal seeds draw equal data", seed=seed)
        m.check(len({b.seed for b in first}) == 5, "generators draw different benchmarks", seed=seed)
        m.check(all(b.end_time == end for b in first), "generators honour the end time")
        m.check(all((samples(b, points) == samples(RandomOscillationNoTopographyBenchmark(b.seed), points)).all() for b in first), "seed of a drawn benchmark reproduces it", seed=seed)
        m.check([b.seed for b in first] != [RandomBenchmarkGenerator(seed=seed + 1)().seed for _ in range(5)], "generators with different seeds differ")
    # without seed the benchmarks differ
    m.check(RandomBenchmarkGenerator()().seed != RandomBenchmarkGenerator()().seed, "unseeded generators differ")


def build(plan):
    seed = plan.seed * 1000 + plan.round
    for k in range(15):
        plan.case(f"repeat #{k}", repeated, seed, [k])
    for k in range(3):
        plan.case(f"process #{k}", processes, seed, [15 + 5 * k + j for j in range(5)])
    for k in range(16):
        plan.case(f"benchmarks #{k}", benchmarks)
        plan.case(f"parameters #{k}", parameters)
        plan.case(f"generators #{k}", generators)
    for name in (*NAMES[1:], "seed"):
        plan.case(f"zero {name}", zero, name)
