"""Runs solvers in another process and prints digests of their results (C15)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def digests(seed, numbers):
    import numpy as np
    import vf
    from benchmark.shallow_water import RandomBenchmarkGenerator, RandomOscillationNoTopographyBenchmark

    import C14
    import work

    result = []
    families = [("swe", s) for s in [*work.SWE, "reduced-llf"]] + [("scalar", s) for s in work.SCALAR_FV] + [("fe", s) for s in work.FE]
    for number in numbers:
        rng = vf.make_rng(seed, f"twin {number}")
        family, scheme = families[number % len(families)]
        new, bench, *_ = C14.make(rng, family, scheme)
        solver = new(bench)
        with np.errstate(all="ignore"):
            work.solve(solver)
        solution = solver.solution
        values = getattr(solution, "value_history", solution.value)
        times = getattr(solution, "time_history", solution.time)
        result.append((f"{family} {scheme}", vf.digest(np.array(values)), vf.digest(np.array(times))))
        s = int(rng.integers(1, 10**9))
        x = float(rng.uniform(0, 100))
        drawn = RandomOscillationNoTopographyBenchmark(s).initial_data(x)
        generator = RandomBenchmarkGenerator(seed=s)
        result.append(("random", vf.digest(drawn, *[generator().initial_data(x) for _ in range(3)])))
    return result


def main(seed, numbers):
    sys.path[:0] = [os.path.dirname(HERE), HERE, os.environ.get("VERIF_REPO", "/repo")]
    sys.path.append(os.path.join(os.path.dirname(HERE), "checks"))
    from contextlib import redirect_stderr, redirect_stdout
    from io import StringIO

    import run

    run.always_compile(os.environ.get("VERIF_REPO", "/repo"))
    os.chdir(os.environ["VERIF_SCRATCH"])
    with redirect_stdout(StringIO()), redirect_stderr(StringIO()):
        result = digests(seed, numbers)
    print("DIGESTS " + json.dumps(result))


if __name__ == "__main__":
    main(int(sys.argv[1]), [int(n) for n in sys.argv[2].split(",")])
