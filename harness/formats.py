"""Result files of any record version: built from abstract descriptions (Format.tla), read by the real code,
and projected back onto the same tokens."""
import functools
import os
import random
import shutil
from fractions import Fraction

import numpy as np
from h5preserve import GroupContainer, open as h5open

from disc_solver import file_format as ff
from disc_solver.file_format import (
    ConfigInput, InitialConditions, InternalData, MCMCVars, Problems, Run, Solution, SolutionInput, registries,
)
from disc_solver.file_format._containers import JacobianData, Solutions
from vlib import TRACE_CFG, Hang, pmap, time_limit

BAD = -999
DEF = 9
ZERO = 3
UNI = dict(gamma="γ", eta_O="η_O", eta_H="η_H", eta_A="η_A", eta_derivs="η_derivs", v_t_sonic_crit="v_θ_sonic_crit",
           v_p_normal="v_φ_normal", rho_normal="ρ_normal", v_p_taylor="v_φ_taylor", rho_taylor="ρ_taylor")
INP = ["start", "stop", "taylor_stop_angle", "max_steps", "num_angles", "relative_tolerance", "absolute_tolerance",
       "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "eta_O", "eta_H", "eta_A", "gamma", "jump_before_sonic", "eta_derivs",
       "nwalkers", "iterations", "threads", "target_velocity", "split_method", "use_taylor_jump", "mcmc_vars",
       "v_t_sonic_crit", "after_sonic", "sonic_interp_size", "interp_range", "interp_slice", "use_E_r"]
INTS = {"max_steps", "num_angles", "nwalkers", "iterations", "threads", "interp_range"}
FLAGS = {"eta_derivs", "use_taylor_jump", "use_E_r"}
MAY_BE_ZERO = {"stop", "taylor_stop_angle", "relative_tolerance", "absolute_tolerance", "v_rin_on_c_s", "v_a_on_c_s", "eta_O",
               "eta_H", "eta_A", "jump_before_sonic", "target_velocity", "v_t_sonic_crit", "after_sonic", "sonic_interp_size",
               "interp_range"}
TEXT_NONE = {"jump_before_sonic", "mcmc_vars", "v_t_sonic_crit", "after_sonic", "sonic_interp_size", "interp_range", "interp_slice"}
GROUPED = {"jump_before_sonic", "mcmc_vars", "v_t_sonic_crit", "after_sonic", "sonic_interp_size", "interp_slice"}
DEFTEXT = dict(start="0", stop="5", taylor_stop_angle="0.001", max_steps="10000", num_angles="10000",
               relative_tolerance="1e-6", absolute_tolerance="1e-10", v_rin_on_c_s="1", v_a_on_c_s="1", c_s_on_v_k="0.03",
               eta_O="0.001", eta_H="0.0001", eta_A="0.0005", nwalkers="8", iterations="3", threads="1",
               target_velocity="0.9", split_method="v_θ_deriv", interp_range="10", interp_slice="-1000,-100",
               label="default")
SLICES = {1: slice(5, 17), 2: slice(-20, None), 3: slice(None, 9, 2), 4: slice(0, 0), DEF: slice(-1000, -100)}
SLICETEXT = {1: "5,17", 2: "slice(-20, None, None)", 3: "slice(None, 9, 2)", 4: "0,0", DEF: "-1000,-100"}
TOKENS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9)


def u(f):
    return UNI.get(f, f)


def mcmc_bits(t):
    return 7 if t == 8 else t


@functools.cache
def text(f, t):
    """How token t of field f is written in a configuration."""
    if t == 0:
        return None
    if f == "gamma":
        return str(t / 1000) if t % 2 else f"{t}/1000"
    if f in FLAGS:
        return {1: "True", 2: "False"}.get(t)
    if t == 7:
        return "None"
    if f == "mcmc_vars":
        b = mcmc_bits(t)
        return ",".join(n for i, n in enumerate(("v_r", "v_a", "v_k")) if b >> i & 1) if 0 < b <= 7 else None
    if f == "interp_slice":
        return SLICETEXT.get(t)
    if t == DEF:
        return DEFTEXT.get(f)
    if t == ZERO and f in MAY_BE_ZERO:
        return "0"
    if t not in (1, 2):
        return None
    if f == "split_method":
        return f"méthode {t}"
    if f == "label":
        return f"läbel {t} % x"
    i = INP.index(f)
    if f in INTS:
        return str((100, 2000)[t - 1] + i)
    return (f"{i + 1}/128", f"{i + 1}.5e-3")[t - 1]


@functools.cache
def number(f, t):
    """The solver value token t of field f denotes."""
    if t == 0:
        return None
    if f == "gamma":
        return np.float64(t / 1000)
    if f in FLAGS:
        return {1: True, 2: False}[t]
    if f == "mcmc_vars":
        b = mcmc_bits(t)
        return MCMCVars(with_v_r=bool(b & 1), with_v_a=bool(b & 2), with_v_k=bool(b & 4))
    if f == "interp_slice":
        return SLICES[t]
    s = text(f, t)
    if s is None or f == "split_method":
        return s
    return int(s) if f in INTS else np.float64(float(Fraction(s)))


def close(a, b):
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b))


def tok_text(f, v):
    """Token of a configuration's text."""
    if f == "gamma":
        try:
            x = Fraction(v) * 1000
            return int(x) if x.denominator == 1 else BAD
        except Exception:
            return BAD
    if v is None:
        return 0
    if not isinstance(v, str):
        return BAD
    if v == "" and f in TEXT_NONE:
        return 7                # another way to write nothing
    for t in TOKENS:
        if text(f, t) == v:
            return t
    return BAD


def tok_number(f, v):
    """Token of a solver value."""
    try:
        if f == "gamma":
            x = round(float(v) * 1000)
            return x if abs(float(v) * 1000 - x) < 1e-9 else BAD
        if v is None:
            return 0
        if f in FLAGS:
            return {True: 1, False: 2}[bool(v)] if isinstance(v, (bool, np.bool_)) else BAD
        if f == "mcmc_vars":
            b = bool(v.with_v_r) + 2 * bool(v.with_v_a) + 4 * bool(v.with_v_k)
            return 8 if b == 7 else b if b else BAD
        for t in TOKENS[1:]:
            if f == "interp_slice":
                if t in SLICES and v == SLICES[t]:
                    return t
                continue
            s = text(f, t)
            if s is None or (t == 7):
                continue
            n = number(f, t)
            if f == "split_method":
                if v == n:
                    return t
            elif f in INTS:
                if v == n and not isinstance(v, (float, np.floating)):
                    return t
            elif isinstance(v, (float, np.floating)) and close(float(v), float(n)):
                return t
    except Exception:
        pass
    return BAD


def look_conf(c):
    return dict({f: tok_text(f, getattr(c, u(f))) for f in INP}, label=tok_text("label", c.label))


def look_inp(i):
    return {f: tok_number(f, getattr(i, u(f))) for f in INP}


# --- initial conditions, arrays --------------------------------------------------------------------------------
def arr(seed, n, tail=(), nan=False):
    a = np.arange(n * int(np.prod(tail, dtype=int)), dtype=float).reshape((n, *tail)) / 64 + seed
    if nan and a.size:
        a.flat[0], a.flat[-1] = np.nan, np.inf
    return a


def same(v, a):
    v = np.asarray(v)
    return v.dtype.kind == "f" and v.shape == a.shape and np.array_equal(v, a, equal_nan=True)


ICF = ["norm_kepler_sq", "a_0", "gamma", "eta_O", "eta_A", "eta_H", "init_con", "angles"]
SIZES = {1: 3, 2: 5, 3: 0, 4: 4}


@functools.cache
def ic_value(f, t):
    if f == "gamma":
        return np.float64(t / 1000)
    if f == "angles":
        return arr(7, SIZES[t])
    if f == "init_con":
        return arr(300 + t, 8)
    if f == "a_0" and t == 0:
        return np.float64(np.nan)
    return np.float64(ICF.index(f) + t / 8)


def look_ic(ic):
    out = {}
    for f in ICF:
        v, t = getattr(ic, u(f)), BAD
        if f == "gamma":
            t = tok_number("gamma", v)
        else:
            for k in (0, 1, 2, 3):
                try:
                    if f == "init_con":
                        ok = len(v) == 11 and same(np.asarray(v)[:8], ic_value(f, k)) and \
                            [float(x) for x in v[8:]] == [float(ic.η_O), float(ic.η_A), float(ic.η_H)]
                    elif f == "angles":
                        ok = k and same(v, ic_value(f, k))
                    elif k == 0:
                        ok = f == "a_0" and np.isnan(v)
                    else:
                        ok = float(v) == float(ic_value(f, k))
                    if ok:
                        t = k
                        break
                except Exception:
                    pass
        out[f] = t
    return out


SEQS = ["derivs", "params", "angles", "v_r_normal", "v_p_normal", "rho_normal", "v_r_taylor", "v_p_taylor", "rho_taylor"]
JACS = ["derivs", "params", "angles", "jacobians"]
PROBLEMS = {0: {}, 1: {"0.5": ["negative"]}, 2: {"0.5": ["a", "bé ∂"], "1.25": ["c"]}, 3: {"0.75": []}}


@functools.cache
def id_value(f, t):
    return arr(400 + SEQS.index(f), t, (11,) if f in ("derivs", "params") else ())


@functools.cache
def jac_value(f, t):
    return arr(500 + JACS.index(f), t, dict(derivs=(11,), params=(11,), angles=(), jacobians=(11, 11))[f])


def look_id(d):
    if d is None:
        return []
    out = {}
    for f in SEQS:
        v = getattr(d, u(f))
        out[f] = next((t for t in range(4) if same(v, id_value(f, t))), BAD)
    try:
        p = {k: list(x) for k, x in d.problems.items()}
        out["problems"] = next((t for t, v in PROBLEMS.items() if v == p), BAD)
    except Exception:
        out["problems"] = BAD
    try:
        d.jacobian_data._finalise()
        out["jacobians"] = next((t for t in range(4) if all(same(getattr(d.jacobian_data, f), jac_value(f, t)) for f in JACS)), BAD)
    except Exception:
        out["jacobians"] = BAD
    return [out]


FLAGVAL = {0: 0, 1: 2, 2: 1, 3: -1}
OWN = ["flag", "coordinate_system", "angles", "solution", "t_roots", "y_roots", "derivatives", "sonic_point",
       "sonic_point_values", "is_post_shock_only"]


@functools.cache
def own_value(f, t):
    if f == "flag":
        return FLAGVAL[t]
    if f == "coordinate_system":
        return f"sphérical {t}"
    if f == "is_post_shock_only":
        return {1: True, 2: False}[t]
    if f in ("angles", "solution"):
        return arr(600 + OWN.index(f), SIZES[t], (11,) if f == "solution" else (), nan=t == 4)
    if t == 0:
        return None
    if f == "sonic_point" and t == 1:
        return np.float64(606.5)
    return arr(600 + OWN.index(f), t if t < 3 else 0, () if f in ("t_roots", "sonic_point") else (11,))


def look_own(s):
    out = {}
    for f in OWN:
        v, t = getattr(s, f), BAD
        for k in range(5):
            try:
                w = own_value(f, k)
            except KeyError:
                continue
            if f == "coordinate_system":
                ok = isinstance(v, str) and v == w
            elif f == "is_post_shock_only":
                ok = isinstance(v, (bool, np.bool_)) and bool(v) == w
            elif f == "flag":
                ok = isinstance(v, (int, np.integer)) and v == w
            elif w is None or v is None:
                ok = v is w
            else:
                ok = same(v, np.asarray(w))
            if ok:
                t = k
                break
        out[f] = t
    return out


RUNF = dict(time="time", config_filename="config_filename", disc_solver_version="disc_solver_version",
            float_type="float_type", sonic_method="sonic_method", use_E_r="use_E_r",
            is_post_shock_only="is_post_shock_only", based_on_file="based_on_solution_filename",
            based_on_solution="based_on_solution_solution_name")


def run_value(f, t):
    if f in ("use_E_r", "is_post_shock_only"):
        return {1: True, 2: False}[t]
    if t == DEF:
        return "unknown"
    return None if t == 0 else f"{f} é {t}"


def look_run(r):
    out = {}
    for f, name in RUNF.items():
        v, t = getattr(r, name), BAD
        if f in ("use_E_r", "is_post_shock_only"):
            t = {True: 1, False: 2}[bool(v)] if isinstance(v, (bool, np.bool_)) else BAD
        else:
            for k in (0, 1, 2, DEF):
                if v == run_value(f, k) and (k or v is None):
                    t = k
        out[f] = t
    return out


def look_sol(s):
    return dict(own=look_own(s), inp=look_inp(s.solution_input), ic=look_ic(s.initial_conditions),
                idata=look_id(s.internal_data))


def look(run):
    keys = list(run.solutions)
    if sorted(keys, key=str) != sorted(map(str, range(len(keys)))):
        return dict(run={}, conf={}, sols=[keys], final=[])
    for _ in range(2):
        sols = [look_sol(run.solutions[str(i)]) for i in range(len(keys))]
    return dict(run=look_run(run), conf=look_conf(run.config_input), sols=sols,
                final=[] if run.final_solution is None else [look_sol(run.final_solution)])


# --- synthesising records of any version -------------------------------------------------------------------------
def container(label, ver, attrs, **members):
    c = GroupContainer(attrs=attrs, **members)
    c._namespace, c._label, c._version = "disc_solver", label, ver
    return c


def syn_input(r, conf):
    val, ver = r["val"], r["ver"]
    attrs, members = {}, {}
    for f, t in val.items():
        if f == "gamma" and ver < 4:
            attrs["β"] = text(f, t) if conf else np.float64(t / 1000)
            continue
        v = text(f, t) if conf else number(f, t)
        if f in GROUPED or (f == "interp_range" and ver > 12):
            if f == "mcmc_vars" and not conf and v is not None:
                v = container("MCMCVars", 1, {}, with_v_r=v.with_v_r, with_v_a=v.with_v_a, with_v_k=v.with_v_k)
            elif f == "interp_slice" and not conf and v is not None:
                v = container("slice", 1, {}, start=v.start, stop=v.stop, step=v.step)
            members[u(f)] = v
        else:
            attrs[u(f)] = v
    return container("ConfigInput" if conf else "SolutionInput", ver, attrs, **members)


def syn_ic(r):
    val, ver = r["val"], r["ver"]
    attrs, angles = {}, None
    for f, t in val.items():
        v = ic_value(f, t)
        if f == "angles":
            angles = v
        elif f == "init_con":
            attrs[f] = v if t == 2 else np.concatenate([v, [ic_value(g, val[g]) for g in ("eta_O", "eta_A", "eta_H")]])
        elif f == "gamma" and ver < 3:
            attrs["β"] = v
        else:
            attrs[u(f)] = v
    return container("InitialConditions", ver, attrs, angles=angles)


def syn_id(r):
    val, ver = r["val"], r["ver"]
    m = {u(f): id_value(f, val[f]) for f in SEQS}
    if "problems" in val:
        m["problems"] = container("Problems", 1, {}, **{
            k: np.asarray([x.encode("utf8") for x in v]) for k, v in PROBLEMS[val["problems"]].items()})
    if "jacobians" in val:
        m["jacobian_data"] = container("JacobianData", 1, {}, **{f: jac_value(f, val["jacobians"]) for f in JACS})
    return container("InternalData", ver, {}, **m)


def syn_sol(s):
    attrs, members = {}, {}
    for f, t in s["val"].items():
        (attrs if f in ("flag", "coordinate_system", "is_post_shock_only") else members)[f] = own_value(f, t)
    return container("Solution", s["ver"], attrs, solution_input=syn_input(s["inp"], False),
                     initial_conditions=syn_ic(s["ic"]), internal_data=syn_id(s["idata"][0]) if s["idata"] else None, **members)


def synthesise(f, path, rng):
    """A file as an earlier version of the program would have left it."""
    attrs, members = {}, {}
    for k, t in f["run"]["val"].items():
        (attrs if k == "is_post_shock_only" else members)[RUNF[k]] = run_value(k, t)
    sols = GroupContainer(**{str(i): syn_sol(s) for i, s in enumerate(f["sols"])})
    style = rng.randrange(3) if f["run"]["ver"] < 5 else rng.randrange(2)
    sols._namespace, sols._label, sols._version = "disc_solver", "Solutions", 1
    if style == 1:
        sols._on_demand = True
    elif style == 2:                          # before there was a record for them
        sols._namespace, sols._label, sols._version = "Python: dict as group", "dict", None
    run = container("Run", f["run"]["ver"], attrs, config_input=syn_input(f["conf"], True), solutions=sols,
                    final_solution=syn_sol(f["final"][0]) if f["final"] else None, **members)
    with h5open(path, registries, mode="x") as h:
        h["run"] = run


# --- writing with the real classes -------------------------------------------------------------------------------
def real_sol(s):
    ic, own = s["ic"]["val"], {f: own_value(f, t) for f, t in s["val"].items()}
    etas = [ic_value(g, ic[g]) for g in ("eta_O", "eta_A", "eta_H")]
    idata = None
    if s["idata"]:
        v = s["idata"][0]["val"]
        idata = InternalData(problems=Problems(**PROBLEMS[v["problems"]]),
                             jacobian_data=JacobianData(**{f: list(jac_value(f, v["jacobians"])) for f in JACS}),
                             **{u(f): list(id_value(f, v[f])) for f in SEQS})
    return Solution(
        solution_input=SolutionInput(**{u(f): number(f, t) for f, t in s["inp"]["val"].items()}),
        initial_conditions=InitialConditions(
            norm_kepler_sq=ic_value("norm_kepler_sq", ic["norm_kepler_sq"]), a_0=ic_value("a_0", ic["a_0"]),
            γ=ic_value("gamma", ic["gamma"]), angles=ic_value("angles", ic["angles"]),
            init_con=np.concatenate([ic_value("init_con", ic["init_con"]), etas])),
        internal_data=idata, **own)


def write_real(f, path, rng):
    conf = ConfigInput(**{u(k): text(k, t) for k, t in f["conf"]["val"].items()})
    run = Run(config_input=conf, **{RUNF[k]: run_value(k, t) for k, t in f["run"]["val"].items()})
    early = rng.randrange(3) == 0             # some solutions before the run is attached to its file
    k = rng.randrange(len(f["sols"]) + 1) if early else 0
    for s in f["sols"][:k]:
        run.solutions.add_solution(real_sol(s))
    with h5open(path, registries, mode="x") as h:
        h["run"] = run
        for s in f["sols"][k:]:
            run.solutions.add_solution(real_sol(s))
        run.final_solution = real_sol(f["final"][0]) if f["final"] else None


def rewrite(run, path):
    new = Run(config_input=run.config_input, **{n: getattr(run, n) for n in RUNF.values()})
    with h5open(path, registries, mode="x") as h:
        h["run"] = new
        for i in range(len(run.solutions)):
            new.solutions.add_solution(run.solutions[str(i)])
        new.final_solution = run.final_solution


def play(beh, d, rng, writer):
    log, path, cached = [], None, True
    d.mkdir()
    try:
        for k, st in enumerate(beh):
            op = st["op"]
            with time_limit(20):
                if op == "write":
                    path = d / f"f{k}.hdf5"
                    log.append(dict(ev="write", f=st["f"]))
                    writer(st["f"], path, rng)
                    continue
                if op == "read":
                    cached = st["c"]
                os.environ.pop("NO_CACHE", None)
                if not cached:
                    os.environ["NO_CACHE"] = "1"
                try:
                    with h5open(path, registries, mode="r") as h:
                        run = h["run"]
                        if op == "read":
                            log.append(dict(ev="read", c=cached, m=look(run)))
                        elif op == "use":
                            log.append(dict(ev="use", m=look_inp(run.config_input.to_soln_input())))
                        elif op == "rewrite":
                            path = d / f"f{k}.hdf5"
                            rewrite(run, path)
                            log.append(dict(ev="rewrite"))
                finally:
                    os.environ.pop("NO_CACHE", None)
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", op=op, what=repr(e)[:300]))
    shutil.rmtree(d)
    return log


CFG = """SPECIFICATION MCSpec
CONSTANTS OnlyLatest = {latest} MaxOps = {ops} Script = {script}
INVARIANTS Usable Stable
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx, latest, writer):
    lt = "TRUE" if latest else "FALSE"
    rng = random.Random(ctx.seed)
    focus = ctx.generate("FormatMC", CFG.format(latest=lt, ops=5, script="TRUE"), name="one value at a time", timeout=900)
    wide = ctx.generate("FormatMC", CFG.format(latest=lt, ops=6, script="FALSE"), simulate=150 if ctx.quick else 3000, depth=7,
                        name="everything varies")
    rng.shuffle(focus)
    rng.shuffle(wide)
    ctx.extra["focus_behaviours"] = len(focus)
    if ctx.quick:                             # each file once, a quarter of them written again
        once = {}
        for b in focus:
            once.setdefault(repr(b[0]), b if rng.randrange(4) == 0 else b[:3])
        focus, wide = list(once.values())[:1200], wide[:60]
    wide = wide[:3000]
    for name, group in (("one value at a time", focus), ("everything varies", wide)):
        d = ctx.fresh("files")
        for i in range(0, len(group), 1000):
            traces = pmap(lambda x: play(x[1], d / str(x[0]), random.Random(f"{ctx.seed} {x[0]}"), writer),
                          list(enumerate(group))[i:i + 1000])
            if not i:
                ctx.sample([dict(e, **({"f": "..."} if "f" in e else {})) for e in traces[0]][:1])
            ctx.reject(ctx.validate("FormatTrace", TRACE_CFG.format(""), traces, name=name, timeout=900), "result file contents")
