"""Things the demonstrations make results out of."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
from pathlib import Path
from unittest import mock

import numpy as np
from h5preserve import open as h5open
from scikits.odes.sundials.cvode import StatusEnum

from disc_solver.file_format import (
    ConfigInput, InitialConditions, InternalData, MCMCVars, Problems, Run, Solution, SolutionInput, registries,
)
from disc_solver.utils import ODEIndex


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="demo")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        yield Path(d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def config(label="label", **kw):
    d = dict(start="0", stop="5", taylor_stop_angle="0.001", max_steps="10000", num_angles="10000", label=label,
             relative_tolerance="1e-6", absolute_tolerance="1e-10", γ="0.001", nwalkers="8", iterations="3", threads="1",
             target_velocity="0.9", split_method="v_θ_deriv", v_rin_on_c_s="1", v_a_on_c_s="1", c_s_on_v_k="0.03", η_O="0.001",
             η_H="0.0001", η_A="0.0005", mcmc_vars="v_r,v_a,v_k")
    d.update(kw)
    return ConfigInput(**d)


def soln_input(**kw):
    d = dict(start=0.0, stop=5.0, taylor_stop_angle=0.001, max_steps=10000, num_angles=10000, relative_tolerance=1e-6,
             absolute_tolerance=1e-10, γ=0.001, nwalkers=8, iterations=3, threads=1, target_velocity=0.9, split_method="v_θ_deriv",
             v_rin_on_c_s=1.0, v_a_on_c_s=1.0, c_s_on_v_k=0.03, η_O=0.001, η_H=0.0001, η_A=0.0005)
    d.update(kw)
    return SolutionInput(**d)


def solution(t=1., v_θ=None, inp=None, flag=StatusEnum.SUCCESS, internal=None, **kw):
    """A solution with t everywhere but (if given) in its polar velocity."""
    n = 5 if v_θ is None else len(v_θ)
    values = np.full((n, 11), float(t))
    if v_θ is not None:
        values[:, ODEIndex.v_θ] = v_θ
    d = dict(solution_input=inp or soln_input(γ=float(t)), angles=np.linspace(0, 1, n), solution=values, flag=flag,
             coordinate_system="c", internal_data=internal,
             initial_conditions=InitialConditions(norm_kepler_sq=1., a_0=1., γ=float(t), init_con=np.full(11, float(t)),
                                                  angles=np.linspace(0, 1, n)),
             t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None)
    d.update(kw)
    return Solution(**d)


def new_run(**kw):
    d = dict(config_input=config(), config_filename="c", disc_solver_version="0", float_type="float64", sonic_method="single")
    d.update(kw)
    return Run(**d)


def store(path, solutions, final=None, **kw):
    run = new_run(**kw)
    with h5open(path, registries, mode="x") as f:
        f["run"] = run
        for s in solutions:
            run.solutions.add_solution(s)
        if final is not None:
            run.final_solution = run.solutions[str(final)]
        run.finalise()
    return run


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield
