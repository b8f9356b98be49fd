"""Shared machinery of all checks: case scheduling, monitors' verdicts, evidence.

A check module (``checks/Cxx.py``) defines

* ``RULE``      -- how cases are generated and what counts as non-trivial,
* ``REQUIRE``   -- minimal numbers of observed events; below it the run is
                   inconclusive (exit 3), never "held",
* ``build(plan)`` -- registers cases with ``plan.case(name, function, *args)``.

Every case runs the real code of /repo and reports to a :class:`Monitor`.
Verdicts are three-valued: exit 0 (held on what was observed), exit 1 (violated,
with a replay file), any other code (inconclusive or harness error).
"""
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import zlib
from concurrent.futures import ProcessPoolExecutor, as_completed
from contextlib import redirect_stderr, redirect_stdout
from multiprocessing import get_context

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.json")
MAX_REPORTS = 5


class CaseTimeout(BaseException):
    """The case did not end in time; inconclusive, never a violation."""


class StopCase(Exception):
    """Ends a case early after a violation made going on pointless."""


def digest(*values) -> str:
    h = hashlib.sha1()
    for value in values:
        if isinstance(value, np.ndarray):
            h.update(str(value.shape).encode() + np.ascontiguousarray(value).tobytes())
        else:
            h.update(repr(value).encode())
    return h.hexdigest()[:16]


def numbers(*values):
    """VALUES as arrays of floats; complex ones by their two parts."""
    values = [np.asarray(value) for value in values]
    if any(np.iscomplexobj(value) for value in values):
        return [np.stack((np.real(value), np.imag(value)), axis=-1) for value in values]
    return [np.asarray(value, dtype=float) for value in values]


class Monitor:
    """Collects what one case observed and every verdict of its oracles."""

    def __init__(self, name: str, tier: str):
        self.name = name
        self.tier = tier
        self.verdicts = 0
        self.inputs = 0
        self.distinct = set()
        self.observed = {}
        self.violations = []
        self.samples = []

    # -- what was executed ------------------------------------------------
    def input(self, *key, nontrivial=True, sample=None):
        """Registers one generated input / execution."""
        self.inputs += 1
        if nontrivial:
            self.distinct.add(digest(self.name if not key else "", *key))
        if sample is not None and len(self.samples) < 1:
            self.samples.append({"case": self.name, "input": jsonable(sample)})

    def observe(self, event: str, number=1):
        self.observed[event] = self.observed.get(event, 0) + int(number)

    # -- verdicts ---------------------------------------------------------
    def check(self, condition, what: str, **details) -> bool:
        self.verdicts += 1
        if bool(condition):
            return True
        self.fail(what, **details)
        return False

    def fail(self, what: str, **details):
        if len(self.violations) < 20:
            self.violations.append(
                {"case": self.name, "what": what, "details": jsonable(details)}
            )

    def close(self, actual, expected, what: str, rtol=1e-9, atol=0.0, **details):
        """ACTUAL equals EXPECTED up to RTOL relative to the largest entry."""
        self.verdicts += 1
        actual, expected = numbers(actual, expected)
        if actual.shape != expected.shape:
            self.fail(
                what, reason="shape", actual=actual.shape, expected=expected.shape,
                **details
            )
            return False
        if expected.size == 0:
            return True
        finite = np.isfinite(expected)
        if not (finite == np.isfinite(actual)).all():
            self.fail(what, reason="not finite", actual=actual, expected=expected, **details)
            return False
        if not finite.any():
            return True
        scale = np.abs(expected[finite]).max()
        error = np.abs(actual[finite] - expected[finite]).max()
        if error <= rtol * scale + atol:
            return True
        self.fail(
            what,
            reason="values",
            error=error,
            tolerance=rtol * scale + atol,
            actual=actual,
            expected=expected,
            **details,
        )
        return False

    def close_each(self, actual, expected, what: str, rtol=1e-9, atol=0.0, **details):
        """As close, with a tolerance relative to each single entry."""
        self.verdicts += 1
        actual, expected = numbers(actual, expected)
        if actual.shape != expected.shape:
            self.fail(what, reason="shape", actual=actual.shape, expected=expected.shape, **details)
            return False
        ok = np.isclose(actual, expected, rtol=rtol, atol=atol, equal_nan=True)
        if ok.all():
            return True
        self.fail(
            what, reason="values", actual=actual[~ok], expected=expected[~ok],
            where=np.argwhere(~ok), **details
        )
        return False

    def raises(self, function, exceptions, what: str, **details):
        self.verdicts += 1
        try:
            result = function()
        except exceptions:
            return True
        except CaseTimeout:
            raise
        except BaseException as error:  # SystemExit of argparse etc.
            self.fail(what, reason="other exception", exception=repr(error), **details)
            return False
        self.fail(what, reason="no exception", result=repr(result)[:300], **details)
        return False

    def result(self):
        return {
            "name": self.name,
            "verdicts": self.verdicts,
            "inputs": self.inputs,
            "distinct": self.distinct,
            "observed": self.observed,
            "violations": self.violations,
            "samples": self.samples,
            "error": None,
            "timeout": False,
        }


def jsonable(value, depth=0):
    if depth > 6:
        return repr(value)[:200]
    if isinstance(value, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(value.items())[:40]}
    if isinstance(value, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(value)[:40]]
    if isinstance(value, np.ndarray):
        if value.size > 60:
            return {"shape": list(value.shape), "head": jsonable(value.reshape(-1)[:40], depth + 1)}
        return jsonable(value.tolist(), depth + 1)
    if isinstance(value, (np.floating, float)):
        value = float(value)
        return value if np.isfinite(value) else repr(value)
    if isinstance(value, (np.integer, int)) and not isinstance(value, bool):
        return int(value)
    if isinstance(value, (str, bool)) or value is None:
        return value
    if isinstance(value, np.bool_):
        return bool(value)
    return repr(value)[:300]


class Plan:
    def __init__(self, seed: int, tier: str):
        self.seed = seed
        self.tier = tier
        self.round = 0
        self.cases = []
        self._names = set()

    @property
    def quick(self) -> bool:
        return self.tier == "quick"

    def case(self, name: str, function, *args, **kwargs):
        if self.round:
            name = f"round{self.round}:{name}"
        assert name not in self._names, f"duplicate case {name}"
        self._names.add(name)
        self.cases.append((name, function, args, kwargs))

    def rng(self, name="plan"):
        return make_rng(self.seed, f"{name}/{self.round}")


def make_rng(seed: int, name: str) -> np.random.Generator:
    return np.random.default_rng([seed, zlib.crc32(name.encode())])


def _in_repo(error) -> bool:
    """Did the exception come out of the code under test?"""
    root = os.path.realpath(REPO) + os.sep
    for frame in traceback.walk_tb(error.__traceback__):
        filename = os.path.realpath(frame[0].f_code.co_filename)
        if filename.startswith(root):
            return True
    return False


def run_case(case, seed, tier, timeout):
    name, function, args, kwargs = case
    monitor = Monitor(name, tier)
    error_text, timed_out = None, False
    rng = make_rng(seed, name)
    begin = time.monotonic()

    def on_alarm(*_):
        raise CaseTimeout(name)

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    try:
        # warnings and progress bars of the code under test are no output of ours
        quiet = io.StringIO()
        with np.errstate(all="ignore"), redirect_stdout(quiet), redirect_stderr(quiet):
            function(monitor, rng, *args, **kwargs)
    except StopCase:
        pass
    except CaseTimeout:
        timed_out = True
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as error:
        text = "".join(traceback.format_exception(error))[-3000:]
        harness_types = (AttributeError, ImportError, NameError, TypeError)
        if _in_repo(error) or not isinstance(error, harness_types):
            # The code under test raised, or it returned something no oracle
            # could compare (wrong shape, wrong type, missing entry).
            monitor.fail(f"exception {type(error).__name__}", traceback=text)
        else:
            error_text = text
    finally:
        signal.alarm(0)
    result = monitor.result()
    result["seconds"] = time.monotonic() - begin
    result["error"], result["timeout"] = error_text, timed_out
    return result


_STATE = {}


def _worker(index):
    return run_case(
        _STATE["cases"][index], _STATE["seed"], _STATE["tier"], _STATE["timeout"]
    )


# development only: the first violation ends a run with one worker
FAIL_FAST = bool(os.environ.get("VERIF_FAIL_FAST"))


def run_cases(cases, seed, tier, timeout, deadline, workers):
    _STATE.update(cases=cases, seed=seed, tier=tier, timeout=timeout)
    if workers <= 1:
        results = []
        for index in range(len(cases)):
            if deadline and time.monotonic() > deadline:
                break
            results.append(_worker(index))
            if FAIL_FAST and results[-1]["violations"]:
                break
        return results
    results = []
    with ProcessPoolExecutor(workers, mp_context=get_context("fork")) as pool:
        todo = iter(range(len(cases)))
        pending = set()
        exhausted = False
        while True:
            while not exhausted and len(pending) < 2 * workers:
                if deadline and time.monotonic() > deadline:
                    exhausted = True
                    break
                index = next(todo, None)
                if index is None:
                    exhausted = True
                    break
                pending.add(pool.submit(_worker, index))
            if not pending:
                break
            done = next(as_completed(pending))
            pending.discard(done)
            results.append(done.result())
    return results


def load_known(prop):
    try:
        with open(KNOWN) as f:
            entries = json.load(f)["findings"]
    except FileNotFoundError:
        return []
    return [e for e in entries if e["property"] == prop and e["status"] == "known"]


def match_known(known, violation):
    for entry in known:
        if violation["what"] == entry["what"] and entry["case"] in violation["case"]:
            return entry
    return None


def main(prop, module, seed, tier, replay=None):
    start = time.monotonic()
    budget = float(
        os.environ.get("VERIF_BUDGET", getattr(module, "THOROUGH_SECONDS", 300))
    )
    timeout = getattr(module, "CASE_TIMEOUT", 120)
    workers = int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 1))
    only = None
    if replay:
        with open(replay) as f:
            data = json.load(f)
        seed, tier, only = data["seed"], data["tier"], data["case"]

    plan = Plan(seed, tier)
    results = []
    if only is not None:
        if only.startswith("round"):
            plan.round = int(only.split(":")[0][5:])
        module.build(plan)
        cases = [c for c in plan.cases if c[0] == only]
        if not cases:
            print(f"replay: no case {only!r}")
            return 2
        results = run_cases(cases, seed, tier, timeout, None, 1)
    elif tier == "quick":
        for plan.round in range(getattr(module, "QUICK_ROUNDS", 1)):
            plan.cases = []
            module.build(plan)
            results += run_cases(plan.cases, seed, tier, timeout, None, workers)
            if FAIL_FAST and any(r["violations"] for r in results):
                break
    else:
        deadline = start + budget
        while True:
            plan.cases = []
            module.build(plan)
            results += run_cases(
                plan.cases, seed, tier, timeout,
                deadline if plan.round else None, workers,
            )
            plan.round += 1
            if time.monotonic() > deadline or plan.round >= getattr(module, "MAX_ROUNDS", 10**6):
                break

    return report(prop, module, seed, tier, plan, results, start, bool(replay))


def report(prop, module, seed, tier, plan, results, start, replaying):
    observed, distinct, samples = {}, set(), []
    verdicts = inputs = 0
    violations, errors, timeouts = [], [], []
    for r in results:
        verdicts += r["verdicts"]
        inputs += r["inputs"]
        distinct |= r["distinct"]
        for key, number in r["observed"].items():
            observed[key] = observed.get(key, 0) + number
        violations += r["violations"]
        if r["error"]:
            errors.append((r["name"], r["error"]))
        if r["timeout"]:
            timeouts.append(r["name"])
        if r["samples"] and len(samples) < 8:
            samples += r["samples"]
    if os.environ.get("VERIF_PROFILE"):
        for r in sorted(results, key=lambda r: -r["seconds"])[:12]:
            print(f"  {r['seconds']:6.2f}s {r['name']}")
    samples = samples[:8] or [{"cases": [r["name"] for r in results[:5]]}]

    known = load_known(prop)
    new, seen = [], {}
    for violation in violations:
        entry = match_known(known, violation)
        if entry:
            seen[entry["id"]] = entry
        else:
            new.append(violation)

    lacking = []
    if not replaying:
        for event, minimum in getattr(module, "REQUIRE", {}).items():
            if observed.get(event, 0) < minimum:
                lacking.append(f"{event}: {observed.get(event, 0)} < {minimum}")

        evidence = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": inputs,
                "distinct_nontrivial": len(distinct),
                "rule": module.RULE,
                "samples": samples,
                "cases_executed": len(results),
                "oracle_verdicts": verdicts,
                "observed_events": dict(sorted(observed.items())),
                "rounds": plan.round if tier != "quick" else plan.round + 1,
                "harness_errors": len(errors),
                "timeouts": len(timeouts),
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(time.monotonic() - start, 3),
            "violations": len(new),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    for entry in seen.values():
        print(f"KNOWN-FINDING: property={prop} {entry['text']}")

    for name in timeouts[:MAX_REPORTS]:
        print(f"INCONCLUSIVE: case {name} did not end in time")
    for name, text in errors[:2]:
        print(f"HARNESS-ERROR in case {name}:\n{text}")

    print(
        f"{prop} [{tier}, seed {seed}]: {len(results)} cases, {inputs} inputs "
        f"({len(distinct)} distinct non-trivial), {verdicts} verdicts, "
        f"{len(new)} violations, {time.monotonic() - start:.1f}s"
    )

    if new:
        reported = set()
        for number, violation in enumerate(new):
            key = violation["what"]
            if key in reported:
                continue
            reported.add(key)
            path = os.path.join(EVIDENCE, f"replay-{prop}-{len(reported)}.json")
            if not replaying:
                with open(path, "w") as f:
                    json.dump(
                        {"property": prop, "seed": seed, "tier": tier, **violation},
                        f, indent=1,
                    )
                    f.write("\n")
            summary = json.dumps(
                {k: v for k, v in violation["details"].items() if k not in ("actual", "expected")}
            )
            print(f"  case={violation['case']} what={violation['what']} {summary[-1500:]}")
            print(f"VIOLATION property={prop} replay={path}")
            if len(reported) >= MAX_REPORTS:
                break
        return 1
    if errors:
        return 2
    if timeouts or lacking:
        for text in lacking:
            print(f"INCONCLUSIVE: too few events observed ({text})")
        return 3
    return 0
