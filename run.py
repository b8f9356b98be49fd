#!/usr/bin/env python3
"""run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the check of one property against /repo's working tree (pure Python: the
interpreter compiles it anew on every run, in a scratch directory).
"""
import argparse
import os
import shutil
import sys
import tempfile

PYTHON = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def always_compile(root):
    """/repo is compiled anew from its sources, never read from a __pycache__."""
    from importlib.machinery import FileFinder, SourceFileLoader

    class Loader(SourceFileLoader):
        def get_code(self, fullname):
            return self.source_to_code(self.get_data(self.path), self.path)

    def hook(path):
        if os.path.realpath(path).startswith(os.path.realpath(root)):
            return FileFinder(path, (Loader, [".py"]))
        raise ImportError

    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()


def selftest():
    """Every check and the code under test can be imported."""
    import importlib

    for path in ("lib", "checks"):
        sys.path.insert(0, os.path.join(HERE, path))
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    os.chdir(os.environ["VERIF_SCRATCH"])
    names = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "checks")) if f.endswith(".py"))
    for name in ("vf", "ref", "work", *names):
        importlib.import_module(name)
    print(f"{len(names)} checks can be imported")


def child(argv):
    import importlib

    if argv == ["--selftest"]:
        return selftest()

    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    parser.add_argument("--replay")
    args = parser.parse_args(argv)
    sys.path.insert(0, os.path.join(HERE, "lib"))
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    sys.path.append(os.path.join(HERE, "checks"))
    always_compile(os.environ.get("VERIF_REPO", "/repo"))
    import vf

    replay = os.path.join(HERE, args.replay) if args.replay else None
    os.chdir(os.environ["VERIF_SCRATCH"])
    module = importlib.import_module(args.property)
    code = vf.main(args.property, module, args.seed, args.tier, replay)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def parent(argv):
    import subprocess

    scratch = tempfile.mkdtemp(prefix="verif-")
    env = dict(os.environ)
    for name in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONHOME"):
        env.pop(name, None)
    env.update(
        VERIF_SCRATCH=scratch,
        HOME=scratch,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONWARNINGS="ignore",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        TMPDIR=scratch,
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        COLUMNS="100",
    )
    os.makedirs(env["MPLCONFIGDIR"])
    try:
        return subprocess.call([PYTHON, os.path.abspath(__file__), *argv], env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if os.environ.get("VERIF_SCRATCH"):
        child(sys.argv[1:])
    else:
        sys.exit(parent(sys.argv[1:]))
