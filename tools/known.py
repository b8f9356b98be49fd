#!/usr/bin/env python3
"""Writes known_findings.json."""
import json
import os
import subprocess

FIXED = [  # (property, subject of the fix commit, what failed)
    ("C10", "fix: flux approximation returned", "cached flux approximation returned the values of an earlier DOF vector after another one was given (also C26)"),
    ("C13", "fix: discrete solution shared", "changing the array passed to the solution changed the recorded solution"),
    ("C08", "fix: wave speed of scalar", "wave speed of Burgers' Riemann problems was negative or too small for negative values (also C03)"),
    ("C08", "fix: Riemann solver returned NaN for Riemann", "Riemann problems with vanishing wave speed (u=0 on both sides, dry cells) returned NaN (also C02)"),
    ("C23", "fix: Riemann solver returned NaN for subnormal", "a Burgers run stopped with non-finite values as soon as subnormal numbers (1e-316) appeared ahead of a front (also C01, C03)"),
    ("C01", "fix: scalar finite volume MCL", "mass changed in periodic runs of scalar finite volume MCL: the limiter used different bounds at both copies of the periodic node"),
    ("C06", "fix: RungeKutta8", "RungeKutta8 raised TypeError inside solvers (no initial time argument)"),
    ("C18", "fix: finite element solvers did not", "++polynomial-degree was refused by the finite element solvers"),
    ("C18", "fix: solver option values equal", "a solver option value equal to a solver key started a new solver"),
    ("C19", "fix: generate-data ignored", "end time option of generate-data had no effect"),
    ("C20", "fix: --save-plot of error evolution", "saving the plot of an error evolution series raised an exception"),
    ("C24", "fix: data analysis commands", "analyze-data, analyze-curvature and delete-curvature called functions which do not exist"),
    ("C08", "fix: flux getters could not", "flux getters raised for benchmarks with bathymetry (MCL, antidiffusion)"),
    ("C19", "fix: generate-data replaced seed", "generate-data used the default seed if the seed is 0"),
    ("C14", "fix: setting a solution", "histories of solvers re-initialised at a start time other than zero kept a record of the earlier run, times were off by rounding (also C13)"),
    ("C07", "fix: diffusion of es1 flux was", "es1 solutions did not scale with the gravitational acceleration: its diffusion matrix was too small by a factor depending on it (also C08)"),
    ("C07", "fix: shallow water MCL limited velocities", "reflected states gave other solutions with shallow water MCL; velocities left the bounds of their cell (also C04)"),
    ("C08", "fix: antidiffusion solver replaced", "gamma=0 was replaced by the default gamma (also C18)"),
    ("C13", "fix: rejected values", "a rejected update left a truncated or extended history; returned histories were live arrays"),
    ("C08", "fix: Lax-Wendroff solver ignored", "bathymetry source term missing in the Lax-Wendroff solver"),
    ("C21", "fix: reduced fluxes counted", "reduced fluxes contained the bathymetry source term twice"),
    ("C09", "fix: wall boundary mirrored", "wall ghost cells of radius > 1 repeated the outermost cell instead of mirroring"),
    ("C28", "fix: energy stable flux", "energy stable flux was neither well-balanced (C02) nor energy conservative"),
    ("C08", "fix: dry states led", "dry cells led to NaN in the low-order and MCL scheme"),
    ("C22", "fix: saved shallow water plots", "saved shallow water plots contained the figures of earlier plots"),
    ("C25", "fix: system matrix kept", "inverse application used the factorisation of earlier matrix values"),
    ("C19", "fix: diffusion of es1 flux took", "training data of es1: the diffusion used differences of states at consecutive times instead of the states left and right of the node"),
    ("C19", "fix: generate-data refused", "generate-data --input-radius 3 failed with an AssertionError unless a node index is given as well"),
    ("C25", "fix: assembling a finite element", "assembling a mass or gradient matrix again doubled its entries"),
    ("C22", "fix: saving an animation with fewer", "animations of short runs could not be saved: zero frames per second"),
    ("C22", "fix: animations without solvers", "animate failed without solvers although exact and initial curves can be animated"),
    ("C22", "fix: show the total height", "animations of shallow water over high ground: the limit of the axes ignored the bathymetry, so that the curves lay outside of the picture"),
    ("C05", "fix: optimal finite volume time step failed", "the optimal finite volume time step raised an AssertionError for inflow conditions: the time was not passed on"),
    ("C22", "fix: animations ignored a start time", "an animation of a run from negative to positive times started with its first time although start time 0 was ordered"),
    ("C06", "fix: whole numbers as initial values", "time integration raised a casting error for whole numbers as initial values (finite element solvers with data 0 and 1 at all nodes)"),
    ("C08", "fix: Lax-Wendroff flux failed", "LaxWendroffFlux without gravitational acceleration raised a TypeError (its wave speed got None instead of the default)"),
    ("C20", "fix: convergence orders failed", "EOCCalculator raised a ValueError for two norms and repeated the rows for one: arrays had three rows whatever norms were given"),
    ("C09", "fix: periodic conditions given for each side", "boundary conditions ('periodic', 'periodic') continued values periodically but were not marked as periodic: limiters took other bounds at both ends and scalar mcl-fv lost mass"),
]
FINDINGS = [
    {
        "id": f"K-zero-{name}", "property": "C15", "case": f"zero {name}",
        "what": f"random benchmark honours {name}=0",
        "text": f"RandomOscillationNoTopographyBenchmark(seed, {name}=0) draws a random {name} instead of using 0 (benchmark/shallow_water.py, 'or' instead of a comparison with None; benchmark/ cannot be changed here)",
    }
    for name in (
        "height_amplitude", "height_phase_shift", "height_wave_number", "velocity_average",
        "velocity_amplitude", "velocity_phase_shift", "velocity_wave_number",
    )
] + [
    {
        "id": "K-zero-seed", "property": "C15", "case": "zero seed",
        "what": "random benchmark generator honours seed 0",
        "text": "RandomBenchmarkGenerator()(0) draws a random seed instead of using 0 (benchmark/shallow_water.py)",
    }
] + [
    {
        "id": f"K-newton-{name}-{part}", "property": "C16", "case": f"forming {name} {part}",
        "what": f"burgers/{name}: exact solution is found at {part} of the critical time",
        "text": f"exact_solution of the Burgers benchmark '{name}' raises RuntimeError at some points at {part} of the time of shock formation: Newton's method started at the initial data does not converge (benchmark/burgers.py; benchmark/ cannot be changed here)",
    }
    for name, part in (("shock", "1"), ("smooth", "0.96"), ("smooth", "0.97"), ("smooth", "0.99"), ("smooth", "1"))
]


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
    findings = []
    for number, (prop, subject, what) in enumerate(FIXED, 1):
        (commit,) = [line.split()[0] for line in log if line.split(" ", 1)[1].startswith(subject)]
        findings.append({
            "id": f"F{number:02d}", "property": prop, "status": "fixed",
            "commit": commit, "text": f"fixed: property={prop} {commit} {what}",
        })
    for finding in FINDINGS:
        findings.append({"status": "known", **finding})
    with open(os.path.join(here, "known_findings.json"), "w") as f:
        json.dump({"findings": findings}, f, indent=1)
        f.write("\n")


main()
