#!/usr/bin/env python3
"""Development helper: judges a changed copy of /repo.

    trial.py seeded [ID ...]        validates /verif/seeded/ID (applies, builds, tests pass, demo) and runs its check
    trial.py seeded --all-checks    ... and all other checks, too

Nothing registered in MANIFEST.json uses this file.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
ENV = {
    **os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
}
DESELECT = ["--deselect", "test/benchmark/shalow_water_test.py::TestRandomNoTopographyBenchmark::test_seed"]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def copy():
    directory = tempfile.mkdtemp(prefix="trial-", dir="/tmp")
    target = os.path.join(directory, "repo")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(f"mkdir {target} && cd /repo && git ls-files -z | xargs -0 cp -a --parents -t {target}", shell=True, check=True)
    return directory, target


def tests(repo, timeout=200, fast=False):
    """Stable tests that do not pass (with FAST: truthy if any)."""
    directory = os.path.dirname(repo)
    report = os.path.join(directory, "junit.xml")
    out = os.path.join(directory, "out.json")
    try:
        r = subprocess.run(
            [PYTHON, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", f"--rootdir={repo}", "-o", "python_files=*_test.py",
             "--timeout=60", *(["-x"] if fast else ["--continue-on-collection-errors"]), *DESELECT, "-o", "junit_family=xunit2", f"--junitxml={report}", "test"],
            cwd=repo, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        return {"timeout"}
    if fast:
        return r.returncode
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, f"junit:{report}"], cwd=directory, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        return STABLE - set(json.load(open(out))["passed"])
    except FileNotFoundError:
        return {"no report"}


def check(repo, pid, tier="quick", seed="1", **more):
    env = {**os.environ, "VERIF_REPO": repo, "VERIF_SEED": seed, "VERIF_TIER": "quick", "VERIF_EVIDENCE": os.path.join(os.path.dirname(repo), "evidence"), **more}
    try:
        r = subprocess.run([PYTHON, os.path.join(HERE, "run.py"), pid, "--tier", tier], env=env, cwd=HERE, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return -1, ["timeout"]
    return r.returncode, (r.stdout + r.stderr).splitlines()


def checks():
    return sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("C") and f.endswith(".py"))


def seeded(name, every=False):
    folder = os.path.join(HERE, "seeded", name)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    directory, repo = copy()
    lines = []
    try:
        def demo():
            shutil.copytree(folder, os.path.join(directory, "demo"), dirs_exist_ok=True, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            return subprocess.run(["bash", os.path.join(directory, "demo", "demo.sh")], cwd=repo, env=ENV, capture_output=True, text=True, timeout=300)

        r = demo()
        if r.returncode:
            lines.append(f"BAD demo fails on the unchanged tree: {r.stdout[-500:]}{r.stderr[-1500:]}")
        a = subprocess.run(["git", "apply", "--unsafe-paths", f"--directory={repo}", os.path.join(folder, "patch.diff")], cwd="/", capture_output=True, text=True)
        if a.returncode:
            lines.append("BAD patch: " + a.stderr)
            return name, lines
        r = demo()
        if not r.returncode:
            lines.append("BAD demo passes with the patch")
        else:
            lines.append("demo: " + ((r.stdout + r.stderr).strip().splitlines() or ["-"])[-1][:200])
        failed = tests(repo)
        if failed:
            lines.append(f"BAD tests fail: {sorted(failed)[:5]}")
        pids = checks() if every else [meta["property"]]
        for pid in [meta["property"]] + [p for p in pids if p != meta["property"]]:
            code, out = check(repo, pid)
            if code or pid == meta["property"]:
                what = [line for line in out if "what=" in line]
                lines.append(f"{pid}: exit {code} {'CAUGHT' if code == 1 else 'MISSED' if pid == meta['property'] else ''} {what[0].strip()[:160] if what else out[-1][:160]}")
    finally:
        shutil.rmtree(directory)
    return name, lines


def main():
    names = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with ThreadPoolExecutor(4) as pool:
        for name, lines in pool.map(lambda n: seeded(n, "--all-checks" in sys.argv), names):
            print(name, *("  " + line for line in lines), sep="\n", flush=True)


if __name__ == "__main__":
    main()
