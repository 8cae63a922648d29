"""Critical points (Critical) and coordinate changes (Coord) of the real analysis code."""
import io
import math
import random
from fractions import Fraction

import numpy as np
from h5preserve import open as h5open

from disc_solver.analyse.info import info
from disc_solver.critical_points import get_all_sonic_points, get_critical_point_indices
from disc_solver.file_format import InitialConditions, Run, Solution, registries
from disc_solver.utils import (
    CylindricalODEIndex, ODEIndex, convert_solution_to_vertical, convert_spherical_to_cylindrical, scale_solution_to_radii,
)

import tokens
from shock import frac
from vlib import TRACE_CFG, Hang, Machinery, pmap, swallow_output, time_limit

BAD = -999
WAVES = ["slow", "sonic", "alfven", "fast"]


# --- critical points -----------------------------------------------------------
def row(p, rng):
    """A state whose speeds and velocity come out exactly as the point says."""
    x = np.zeros(11)
    x[ODEIndex.ρ] = 1 / (4 * math.pi)
    if p["nan"]:
        x[:] = np.nan
        return x
    s, f = Fraction(*p["slow"]) ** 2, Fraction(*p["fast"]) ** 2
    y = (1 - s) * (f - 1)
    x[ODEIndex.v_θ] = p["v"][0] / p["v"][1]
    x[ODEIndex.B_θ] = rng.choice([1, -1]) * math.sqrt(s * f)
    x[rng.choice([ODEIndex.B_r, ODEIndex.B_φ])] = math.sqrt(y) * rng.choice([1, -1])
    if Fraction(math.sqrt(y)) ** 2 != y or Fraction(math.sqrt(s * f)) ** 2 != s * f:
        raise Machinery("speeds are not exact")
    return x


def place(x, n):
    if x is None:
        return -1
    try:
        x = float(x)
        k = round(x)
        if x == k and 1 <= k <= n:
            return 2 * k
        if not 1 < x < n or min(x - math.floor(x), math.ceil(x) - x) < 1e-9:
            return BAD
        return 2 * math.floor(x) + 1
    except Exception:
        return BAD


def flow_play(job):
    flow, seed, tmp = job
    rng = random.Random(seed)
    n = len(flow)
    log = [dict(ev="Config", flow=flow)]
    try:
        with time_limit(30), swallow_output(), np.errstate(all="ignore"):
            angles = np.arange(1., n + 1)
            values = np.array([row(p, rng) for p in flow])
            soln = Solution(solution_input=tokens.soln_input(use_E_r=False), angles=angles, solution=values, flag=0, coordinate_system="c",
                            internal_data=None, t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None,
                            initial_conditions=InitialConditions(norm_kepler_sq=1., a_0=1., γ=.5, init_con=np.arange(11.), angles=angles))
            got = get_all_sonic_points(soln)
            log.append(dict(ev="Angles", at={w: place(a, n) for w, a in zip(WAVES, got)}))
            idx = get_critical_point_indices(soln)
            log.append(dict(ev="Indices", at={w: -1 if i is None else int(i) + 1 for w, i in zip(WAVES, idx)}))
            if tmp:
                run = Run(config_input=tokens.config(label="a label"), config_filename="c", disc_solver_version="0", float_type="float64",
                          sonic_method="single")
                with h5open(tmp, registries, mode="x") as f:
                    f["run"] = run
                    run.solutions.add_solution(soln)
                    run.finalise()
                out = io.StringIO()
                info(tmp, group="crosses-points", soln_range="0", output_file=out)
                label, _, name = out.getvalue().strip().rpartition(": ")
                log.append(dict(ev="Class", name=name if label == "a label" else "?"))
                out = io.StringIO()
                info(tmp, group="sonic-points", soln_range="0", output_file=out)
                # the same angles as text
                at = {}
                for w, line in zip(["slow sonic point", "sonic point", "alfven sonic point", "fast sonic point"],
                                   out.getvalue().splitlines()):
                    k, _, v = line.partition(":")
                    at[w.split()[0]] = (-1 if v.strip() == "None" else place(v, n)) if k.strip() == w else BAD
                log.append(dict(ev="Angles", at=at))
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    return log


FLOW_CFG = """SPECIFICATION MCSpec
CONSTANTS MaxN = {n}
INVARIANTS OrderedSpeeds SlowFirst NotBefore
{extra}
CHECK_DEADLOCK FALSE
"""


def random_flow(rng):
    vs = [[1, 4], [1, 2], [1, 1], [2, 1], [4, 1], [8, 1], [-2, 1], [0, 1], [1, 8], [16, 1], [3, 4], [5, 4]]
    sp = [([1, 1], [1, 1]), ([1, 1], [2, 1]), ([1, 1], [4, 1]), ([1, 2], [1, 1]), ([1, 4], [1, 1]), ([1, 2], [2, 1]), ([1, 4], [4, 1])]
    out = []
    pick = rng.sample(vs, rng.randint(2, 5))
    lead = rng.choice([0, 0, 0, 1, 2])
    for i in range(rng.randint(2, 9)):
        s, f = rng.choice(sp)
        nan = i < lead
        out.append(dict(v=[0, 1] if nan else rng.choice(pick), slow=[1, 1] if nan else s, fast=[1, 1] if nan else f, nan=nan))
    return out


def run_flows(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    flows = ctx.generate("CriticalMC", FLOW_CFG.format(n=3 if q else 4, extra="CONSTRAINT Emit"), name="exhaustive")
    flows += [random_flow(rng) for _ in range(3000 if q else 30000)]
    d = ctx.fresh("flows")
    with_file = set(rng.sample(range(len(flows)), 60 if q else 800))
    jobs = [(f, rng.random(), str(d / f"{i}.hdf5") if i in with_file else None) for i, f in enumerate(flows)]
    traces = pmap(flow_play, jobs)
    ctx.sample(traces[-1])
    ctx.reject(ctx.validate("CriticalTrace", TRACE_CFG.format("INVARIANT OrderedSpeeds\n"), traces), "critical points")


# --- coordinates ---------------------------------------------------------------
NAMES = {"v_r": "v_r", "v_phi": "v_φ", "v_th": "v_θ", "B_r": "B_r", "B_phi": "B_φ", "B_th": "B_θ", "B_prime": "B_φ_prime",
         "eta_O": "η_O", "eta_A": "η_A", "eta_H": "η_H", "rho": "ρ"}
SPH = {k: getattr(ODEIndex, v) for k, v in NAMES.items()}
CYL = {k: getattr(CylindricalODEIndex, {"v_th": "v_z", "B_th": "B_z"}.get(k, v)) for k, v in NAMES.items()}


def small(x):
    """A float as a small fraction; cancellations leave rounding errors."""
    if abs(x) < 1e-12:
        return [0, 1]
    f = Fraction(float(x)).limit_denominator(20000)
    return [f.numerator, f.denominator] if abs(float(f) - float(x)) < 1e-10 * max(1, abs(float(x))) else [BAD, 1]


def coord_play(job):
    group, seed = job
    rng = random.Random(seed)
    logs = [[dict(ev="Config", **{"in": i})] for i in group]
    try:
        with time_limit(30), swallow_output():
            γ = group[0]["g4"] / 4
            angle = np.array([math.atan2(Fraction(*i["s"]), Fraction(*i["c"])) for i in group])
            heights = [math.sqrt(Fraction(*i["q"]) ** 4 - 1) for i in group]
            cs = [math.tan(a) / h if h else .05 for a, h in zip(angle, heights)]
            values = np.array([[0.] * 11 for _ in group])
            for r, i in zip(values, group):
                for k, v in i["x"].items():
                    r[SPH[k]] = v[0] / v[1]
            single = len(group) == 1 and bool(rng.getrandbits(1))
            if single:
                angle, values, cs = angle[0], values[0], cs[0]
            else:
                cs = np.array(cs) if len(set(cs)) > 1 else cs[0]
            before = (np.array(angle).tobytes(), values.tobytes())
            kw = dict(γ=γ, c_s_on_v_k=cs, use_E_r=False)
            h1, vert = convert_solution_to_vertical(angle, values, **kw)
            kept = before == (np.array(angle).tobytes(), values.tobytes()) and np.allclose(np.atleast_1d(h1), heights, rtol=1e-12, atol=1e-12)
            direct = scale_solution_to_radii(values, np.array([float(Fraction(*i["q"])) ** 2 for i in group]) if not single
                                             else float(Fraction(*group[0]["q"])) ** 2, γ=γ, use_E_r=False)
            kept = kept and np.allclose(direct, vert, rtol=1e-12, atol=0) and vert is not values
            h2, cyl = convert_spherical_to_cylindrical(angle, values, **kw)
            kept2 = before == (np.array(angle).tobytes(), values.tobytes()) and np.allclose(np.atleast_1d(h2), heights, rtol=1e-12, atol=1e-12)
            shape = vert.shape == values.shape and cyl.shape == values.shape
            for log, v, c in zip(logs, np.atleast_2d(vert), np.atleast_2d(cyl)):
                log.append(dict(ev="Vertical", state={k: small(v[i]) for k, i in SPH.items()}, kept=bool(kept and shape)))
                log.append(dict(ev="Cylindrical", state={k: small(c[i]) for k, i in CYL.items()}, kept=bool(kept2 and shape)))
    except (Exception, SystemExit, Hang) as e:
        logs[0].append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    return logs


COORD_CFG = """SPECIFICATION MCSpec
INVARIANTS VelocityKept FieldKept FrozenAngle MidplaneKept OthersOnlyScale
{extra}
CHECK_DEADLOCK FALSE
"""


def run_coords(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    ctx.model("CoordMC", COORD_CFG.format(extra=""), name="exhaustive")
    ins = ctx.generate("CoordMC", COORD_CFG.format(extra="CONSTRAINT Emit"), name="cases")
    vals = [[-3, 1], [-1, 2], [0, 1], [1, 3], [1, 1], [5, 2], [4, 1], [-7, 4]]
    for i in rng.sample(ins, 400 if q else len(ins)):
        ins.append(dict(i, x={k: rng.choice(vals) for k in i["x"]}))
    if not q:
        ins += [dict(i, x={k: rng.choice(vals) for k in i["x"]}) for i in ins for _ in range(5)]
    rng.shuffle(ins)
    jobs, left = [], {}
    for i in ins:
        left.setdefault(i["g4"], []).append(i)
    for v in left.values():
        while v:
            k = rng.choice([1, 1, 2, 3, 5])
            jobs.append((v[:k], rng.random()))
            del v[:k]
    traces = [t for ts in pmap(coord_play, jobs) for t in ts]
    ctx.sample(traces[0])
    ctx.reject(ctx.validate("CoordTrace", TRACE_CFG.format("INVARIANT OthersOnlyScale\n"), traces), "coordinates")
