"""What the statistics of a solution say (Extremes): the real command on stored solutions, and the row it writes."""
import csv
import io
import random
import tempfile

import numpy as np
from h5preserve import open as h5open

import disc_solver.analyse.validate_plot as validate
from disc_solver.analyse.stats import stats_main
from disc_solver.critical_points import get_all_sonic_points
from disc_solver.file_format import InitialConditions, InternalData, Run, registries
from disc_solver.utils import ODEIndex, convert_spherical_to_cylindrical

import tokens
from curves import ANGLES, wave_speeds
from selecting import printed
from vlib import TRACE_CFG, Hang, pmap, swallow_output, time_limit

MISFITS = {"continuity": validate.validate_continuity, "solenoid": validate.validate_solenoid, "radial_momentum": validate.validate_radial_momentum,
           "azimuthal_momentum": validate.validate_azimuthal_mometum, "polar_momentum": validate.validate_polar_momentum,
           "polar_induction": validate.validate_polar_induction, "E_φ": validate.validate_E_φ}
WAVES = ["slow", "alfven", "fast"]
BAD = -999999


def near(a, b):
    return abs(a - b) <= 1e-10 * max(1, abs(a), abs(b))


def ranks(values):
    """What cannot be told apart has the same rank."""
    order, k, last, out = sorted((v, i) for i, v in enumerate(values) if v == v), 0, None, [0] * len(values)
    for v, i in order:
        if last is None or not near(last, v):
            k += 1
        last, out[i] = v, k
    return out


def rank_of(x, values):
    """The rank of a reported value: 0 if it says that nothing is known."""
    x = float(x)
    if x != x:
        return 0
    for v, r in zip(values, ranks(values)):
        if v == v and near(v, x):
            return r
    return BAD


def build(plan, rng):
    """A solution of the shape planned."""
    grid, vt, n = list(plan["grid"]), list(plan["vt"]), len(plan["grid"])
    while rng.random() < .6 and len(grid) < 12:        # and further on
        more = [a for a in ANGLES if grid[-1] < a <= 640]
        if not more:
            break
        grid.append(rng.choice(more))
        vt.append(rng.choice([vt[-1], vt[-1] + rng.randint(0, 4), rng.randint(-5, 14)]))
        n += 1
    unknown = n if not any(plan["known"]) else next(i for i, k in enumerate(plan["known"]) if k)
    rows = np.zeros((n, len(ODEIndex)))
    for i in range(n):
        if i and rng.random() < .3:
            rows[i] = rows[i - 1]
        else:
            rows[i] = [rng.choice([-1, 1]) * rng.randint(1, 9) for _ in ODEIndex]
        rows[i, ODEIndex.ρ] = abs(rows[i, ODEIndex.ρ])
        rows[i, ODEIndex.v_θ] = vt[i]
    angles = np.radians(np.array(grid) / 8)
    internal = None
    if unknown or rng.random() < .5:
        m = rng.randint(1, 5)
        params = [[float(rng.choice([-1, 1]) * rng.randint(1, 9)) for _ in ODEIndex] for _ in range(m)]
        for r in params:
            r[ODEIndex.ρ] = abs(r[ODEIndex.ρ])
        internal = InternalData(angles=[rng.uniform(0, 1) for _ in range(m)], params=[np.array(r) for r in params],
                                derivs=[np.array([float(rng.randint(-9, 9)) for _ in ODEIndex]) for _ in range(m)])
    rows[:unknown, ODEIndex.B_φ] = np.nan
    s = tokens.solution(1, n=n)
    s.angles, s.solution, s.internal_data = angles, rows, internal
    c = rng.choice([.03, .05, .125])
    s.solution_input = tokens.soln_input(γ=.1, c_s_on_v_k=c)
    s.initial_conditions = InitialConditions(norm_kepler_sq=9., a_0=float(rng.randint(1, 5)), γ=.1, init_con=np.ones(11), angles=angles)
    s.t_roots = s.y_roots = s.sonic_point = s.sonic_point_values = None
    return grid, s


def play(job):
    plan, seed = job
    rng = random.Random(seed)
    log = []
    try:
        with time_limit(60), swallow_output(), np.errstate(all="ignore"), tempfile.TemporaryDirectory() as d:
            grid, s = build(plan, rng)
            run = Run(config_input=tokens.config(label="a label"), config_filename="c", disc_solver_version="0", float_type="float64", sonic_method="single")
            path = f"{d}/f.hdf5"
            with h5open(path, registries, mode="x") as f:
                f["run"] = run
                run.solutions.add_solution(s)
                run.finalise()
            rows = s.solution
            mach = {w: [float(abs(r[ODEIndex.v_θ]) / wave_speeds(r)[i]) if np.isfinite(r).all() else np.nan for r in rows] for i, w in enumerate(WAVES)}
            heights, up = convert_spherical_to_cylindrical(s.angles, rows, γ=.1, c_s_on_v_k=s.solution_input.c_s_on_v_k, use_E_r=False)
            vz = [float(x) for x in up[:, ODEIndex.v_θ]]
            if any(near(a, b) for k, a in enumerate(vz) for b in vz[:k]):      # which is first cannot be told
                return None
            with h5open(path, registries, mode="r") as f:
                stored = f["run"].solutions["0"]
                values = validate.get_values(stored)
                misfit = [[abs(float(x)) for x in fn(values.initial_conditions, values)] for fn in MISFITS.values()]
                points = [None if x is None else float(x) for x in get_all_sonic_points(stored)]
            log.append(dict(ev="Config", soln=dict(
                grid=grid, vt=[int(x) for x in rows[:, ODEIndex.v_θ]], rho=[int(x) for x in rows[:, ODEIndex.ρ]], vz=ranks(vz),
                misfit=[ranks(m) for m in misfit], **{w: ranks(v) for w, v in mach.items()})))
            text = printed(stats_main, [path])
            row = [r for r in csv.DictReader(io.StringIO(text)) if r["solution_name"] == "0"]
            if len(row) != 1:
                log.append(dict(ev="Rows", n=len(row)))
                return log
            g = row[0]
            angle = lambda x: -1 if float(x) != float(x) else round(float(x) * 8) if float(x) * 8 == round(float(x) * 8) else BAD
            r = {}
            for w in WAVES:
                r[w], r[w + "At"] = rank_of(g[f"max_{w}_mach"], mach[w]), angle(g[f"max_{w}_mach_angle_degrees"])
            r["sonic"], r["sonicAt"] = int(float(g["max_sonic_mach"])), angle(g["max_sonic_mach_angle_degrees"])
            r["vz"] = rank_of(g["max_jet_v_z"], vz)
            r["vzAt"] = next((i for i, h in enumerate(heights, 1) if abs(h - float(g["max_jet_v_z_height"])) <= 1e-12 * max(1, abs(h))), BAD)
            r["sum"], r["last"] = int(float(g["Σ"])), angle(g["max_angle_reached_degrees"])
            r["rising"], r["low"] = g["v_θ_starts_monotonic"] == "True", g["v_θ_ends_low"] == "True"
            r["misfit"] = [rank_of(g["max_diff_" + k], m) for k, m in zip(MISFITS, misfit)]
            r["points"] = points == [None if g[f"{w}_sonic_point"] in ("", "None") else float(g[f"{w}_sonic_point"]) for w in ("slow", "sonic", "alfven", "fast")]
            log.append(dict(ev="Say", r=r))
    except (Exception, SystemExit, Hang) as e:
        log = log or [dict(ev="Config", soln=dict(grid=[0], vt=[0], rho=[0], slow=[0], alfven=[0], fast=[0], vz=[1], misfit=[[1]] * 7))]
        log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    return log


MC = """SPECIFICATION MCSpec
CONSTANTS N = {n}
INVARIANTS OnTheGrid NothingLarger ReachedFirst
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    rng = random.Random(ctx.seed)
    plans = ctx.generate("ExtremesMC", MC.format(n=3), name="profiles")
    jobs = [(p, rng.random()) for p in rng.sample(plans, min(len(plans), 600 if ctx.quick else 7290))]
    traces = [t for t in pmap(play, jobs) if t]
    for t in traces[:2]:
        ctx.sample(t)
    ctx.reject(ctx.validate("ExtremesTrace", TRACE_CFG.format("INVARIANTS OnTheGrid NothingLarger ReachedFirst\n"), traces), "statistics")
