"""Solutions that carry a recognisable token in every place, and their projection back to the token."""
import numpy as np
from disc_solver.file_format import (
    Solution, SolutionInput, ConfigInput, InitialConditions, InternalData, Problems, MCMCVars,
)

BAD = -999


def config(label="L", **kw):
    d = dict(start="0", stop="5", taylor_stop_angle="0.001", max_steps="10000", num_angles="10000",
             label=label, relative_tolerance="1e-6", absolute_tolerance="1e-10", γ="0.001", nwalkers="8",
             iterations="3", threads="1", target_velocity="0.9", split_method="v_θ_deriv", v_rin_on_c_s="1",
             v_a_on_c_s="1", c_s_on_v_k="0.03", η_O="0.001", η_H="0.0001", η_A="0.0005", mcmc_vars="v_r,v_a,v_k")
    d.update(kw)
    return ConfigInput(**d)


def soln_input(**kw):
    d = dict(start=0.0, stop=5.0, taylor_stop_angle=0.001, max_steps=10000, num_angles=10000,
             relative_tolerance=1e-6, absolute_tolerance=1e-10, γ=0.001, nwalkers=8, iterations=3, threads=1,
             target_velocity=0.9, split_method="v_θ_deriv", v_rin_on_c_s=1.0, v_a_on_c_s=1.0, c_s_on_v_k=0.03,
             η_O=0.001, η_H=0.0001, η_A=0.0005)
    d.update(kw)
    return SolutionInput(**d)


def solution(tok, n=None, internal=False):
    n = 2 + tok % 4 if n is None else n
    t = float(tok)
    sol = np.full((n, 11), t)
    return Solution(
        solution_input=soln_input(γ=t, v_rin_on_c_s=t), angles=np.linspace(0, 1, n) + t, solution=sol, flag=tok,
        coordinate_system="spherical midplane 0",
        internal_data=InternalData(angles=[t], params=[[t] * 11], derivs=[[t] * 11],
                                   problems=Problems(**{str(tok): [f"problem {tok}"]})) if internal else None,
        initial_conditions=InitialConditions(norm_kepler_sq=t, a_0=t, γ=t, init_con=np.full(11, t),
                                             angles=np.linspace(0, 1, n) + t),
        t_roots=np.array([t]) if tok % 2 else None, y_roots=np.full((1, 11), t) if tok % 2 else None,
        sonic_point=np.array([t]) if tok % 3 else None, sonic_point_values=np.full(11, t) if tok % 3 else None,
    )


def project(s):
    """The token a solution carries, or BAD if it is not consistently one of ours."""
    if s is None:
        return 0
    try:
        tok = int(s.flag)
        n = 2 + tok % 4
        t = float(tok)
        ok = (s.solution_input.γ == t and s.solution_input.v_rin_on_c_s == t
              and np.array_equal(np.asarray(s.angles), np.linspace(0, 1, n) + t)
              and np.array_equal(np.asarray(s.solution), np.full((n, 11), t))
              and s.initial_conditions.γ == t and np.array_equal(s.initial_conditions.init_con, np.full(11, t))
              and ((s.t_roots is None) == (tok % 2 == 0))
              and (s.t_roots is None or np.array_equal(np.asarray(s.t_roots), [t]))
              and ((s.sonic_point is None) == (tok % 3 == 0))
              and (s.sonic_point is None or np.array_equal(np.asarray(s.sonic_point), [t])))
        return tok if ok else BAD
    except Exception:
        return BAD
