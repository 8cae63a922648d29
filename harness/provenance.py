"""Records, for every search method, which input each solution was solved with and which input its record holds."""
import hashlib
import random
import warnings

import numpy as np
from h5preserve import open as h5open
from scikits.odes.sundials.cvode import StatusEnum

import disc_solver.solve as dsolve
import disc_solver.solve.hydrostatic as hydrostatic
import disc_solver.solve.mod_hydro as mod_hydro
from disc_solver.file_format import registries, Run, Solution, InternalData
from disc_solver.solve.config import define_conditions
from disc_solver.solve.solution import solution as real_solution
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import stepping
import tokens
from stepping import cfgtext
from vlib import Hang, Machinery, replaced, swallow_output, time_limit


class Intern(dict):
    def of(self, x):
        return self.setdefault(x, len(self) + 1)


def text(v):
    if isinstance(v, float):
        return repr(float(v))
    if hasattr(v, "with_v_r"):
        return str(v)
    return str(v)


def inp_key(inp):
    return tuple(sorted((k, text(v)) for k, v in inp.asdict().items()))


def ic_key(ic):
    return ("ic",) + tuple(np.asarray(getattr(ic, k), dtype=float).tobytes()
                           for k in ("norm_kepler_sq", "a_0", "γ", "init_con", "angles", "η_O", "η_A", "η_H"))


def arrays_key(s):
    h = hashlib.sha256()
    for a in (s.angles, s.solution):
        a = np.ascontiguousarray(a, dtype=float)
        h.update(repr(a.shape).encode() + a.tobytes())
    return h.hexdigest() + str(int(s.flag))


class Spy:
    """Wraps an equation solver: notes what it was asked, and which result belongs to which call."""

    def __init__(self, solver, intern, log, defs=define_conditions, limit=10 ** 9):
        self.solver, self.intern, self.log, self.defs = solver, intern, log, defs
        self.n, self.by_arrays, self.limit, self.calls = 0, {}, limit, 0
        self.trial = False

    def __call__(self, soln_input, initial_conditions, **kw):
        inp, ic = soln_input, initial_conditions
        self.calls += 1
        if self.calls > self.limit:
            raise SolverError("out of scripted outcomes")
        e = dict(ev="Solve", inp=self.intern.of(inp_key(inp)), ic=self.intern.of(ic_key(ic)),
                 derived=self.intern.of(ic_key(self.defs(inp))))
        s = self.solver(inp, ic, **kw)
        self.n += 1
        self.log.append(e)
        self.by_arrays.setdefault(arrays_key(s), self.n)
        return s


def finish(sols, spy, intern, log):
    for k in sorted(sols, key=int):
        s = sols[k]
        log.append(dict(ev="Record", of=spy.by_arrays.get(arrays_key(s), 0), inp=intern.of(inp_key(s.solution_input)),
                        ic=intern.of(ic_key(s.initial_conditions))))


def scripted(outcomes, rng, method):
    todo = list(outcomes)
    count = [0]

    def solver(soln_input, initial_conditions, **kw):
        inp, ic = soln_input, initial_conditions
        count[0] += 1
        o = todo.pop(0) if todo else rng.choice(outcomes)
        if method == "fast_crosser" and inp.num_angles == 900000:
            o = "best"
        if o == "fail":
            raise SolverError("scripted failure")
        flag, v, problems = rng.choice(stepping.PROFILES[o])
        sol = np.ones((len(v), 11)) * count[0]
        sol[:, ODEIndex.v_θ] = v
        internal = None
        if problems:
            internal = InternalData(derivs=[[0.0] * 11] * 7, params=[[0.0] * 11] * 7, angles=[0.0] * 7)
            internal.problems["0"] = problems
        return Solution(solution_input=inp, initial_conditions=ic, flag=flag, coordinate_system="c",
                        internal_data=internal, angles=np.linspace(0, rng.randrange(1, 20), len(v)), solution=sol,
                        t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None)
    return solver


def newrun(method, si):
    return Run(config_input=tokens.config(), config_filename=None, disc_solver_version="1", float_type="f",
               sonic_method=method)


def simulate(ctx, method, outcomes, rng, via):
    intern, log = Intern(), []
    kw = dict(γ=np.float64(rng.choice([0.001, 0.002])), split_method="v_θ_deriv", num_angles=11, stop=3.0)
    if method == "mcmc":
        kw.update(nwalkers=8, iterations=max(1, len(outcomes) // 8 - 1))
    si = tokens.soln_input(**kw)
    skw = {}
    if method == "step":
        skw = dict(num_attempts=len(outcomes))
    if method == "fast_crosser":
        skw = dict(num_attempts=max(3, len(outcomes) // 3))
    np.random.seed(rng.randrange(2 ** 31))
    spy = Spy(scripted(outcomes, rng, method), intern, log)
    with swallow_output(), warnings.catch_warnings(), replaced(real_solution, spy), time_limit(60):
        warnings.simplefilter("ignore")
        run = newrun(method, si)
        try:
            if via == "file":
                name = ctx.fresh("p") / "r.hdf5"
                with h5open(name, registries, mode="x") as f:
                    f["run"] = run
                    try:
                        dsolve.SONIC_METHOD_MAP[method](si, run, **skw)
                        run.finalise()
                    except SolverError:
                        pass
                with h5open(name, registries, mode="r") as f:
                    finish(f["run/solutions"], spy, intern, log)
                return log
            dsolve.SONIC_METHOD_MAP[method](si, run, **skw)
        except SolverError:
            pass
        except (Exception, SystemExit, Hang) as e:
            log.append(dict(ev="UnexpectedError", why=repr(e)[:300]))
            return log
        finish(run.solutions, spy, intern, log)
    return log


def real(ctx, method, rng, via, **over):
    """A search with the real equation solver; every plainly solved record is then solved again."""
    intern, log = Intern(), []
    skw = over.pop("skw", {})
    kw = dict(γ=np.float64(0.001), split_method="v_θ_deriv", num_angles=50, stop=5.0, η_derivs=True,
              use_taylor_jump=True, max_steps=10000)
    kw.update(over)
    si = tokens.soln_input(**kw)
    np.random.seed(rng.randrange(2 ** 31))
    hydro = {"hydrostatic": (hydrostatic.solution, hydrostatic.hydrostatic_define_conditions),
             "mod_hydro": (mod_hydro.solution, mod_hydro.mod_hydro_define_conditions)}
    orig, defs = hydro.get(method, (real_solution, define_conditions))
    spy = Spy(orig, intern, log, defs, limit=skw.pop("limit", 10 ** 9))
    with swallow_output(), warnings.catch_warnings(), time_limit(300):
        warnings.simplefilter("ignore")
        run = newrun(method, si)
        with replaced(orig, spy):
            try:
                if via == "file":
                    name = ctx.fresh("p") / "r.hdf5"
                    with h5open(name, registries, mode="x") as f:
                        f["run"] = run
                        dsolve.SONIC_METHOD_MAP[method](si, run, **skw)
                        run.finalise()
                    f = h5open(name, registries, mode="r")
                    run = f["run"]
                else:
                    dsolve.SONIC_METHOD_MAP[method](si, run, **skw)
            except SolverError:
                pass
            except (Exception, SystemExit, Hang) as e:
                log.append(dict(ev="UnexpectedError", why=repr(e)[:300]))
                return log
        finish(run.solutions, spy, intern, log)
        for e in [x for x in log if x["ev"] == "Record"][:4]:
            k = [x for x in log if x["ev"] == "Record"].index(e)
            s = run.solutions[str(k)]
            if method in hydro:
                a = orig(s.solution_input, defs(s.solution_input), store_internal=True,
                         **({"use_E_r": s.solution_input.use_E_r} if method == "mod_hydro" else {}))
            else:
                r2 = newrun("single", s.solution_input)
                dsolve.SONIC_METHOD_MAP["single"](s.solution_input, r2, store_internal=rng.random() < .5)
                a = r2.solutions["0"]
            log.append(dict(ev="Rerun", of=e["of"], arrays=intern.of(arrays_key(s)), again=intern.of(arrays_key(a))))
    return log


def run(ctx):
    q = ctx.quick
    ctx.model("ProvenanceMC", "SPECIFICATION ExSpec\n" + cfgtext(Inputs=2 if q else 3, MaxSolved=3, Outcomes=["x"], MaxLen=0, MinLen=0) +
              "INVARIANTS Kept\nPROPERTIES Frozen\nCHECK_DEADLOCK FALSE\n", name="exhaustive")
    rng = random.Random(ctx.seed)
    gen = lambda n, lo, hi: ctx.generate(
        "ProvenanceMC", "SPECIFICATION GenSpec\n" + cfgtext(
            Inputs=1, MaxSolved=1, Outcomes=["best", "flip", "diverge", "fail"], MinLen=lo, MaxLen=hi) +
        "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n", name=f"outcomes {lo}-{hi}", simulate=n, depth=hi + 2)
    short = gen(60 if q else 1000, 4, 9)
    rng.shuffle(short)
    traces, metas = [], []
    for i, b in enumerate(short[:150 if q else 4000]):
        o = b["outcomes"]
        method = ["step", "fast_crosser", "mcmc", "single"][i % 4]
        if method == "mcmc":
            o = o * 6
        traces.append(simulate(ctx, method, o, rng, "file" if i % 16 < 4 else "mem"))
        metas.append(dict(method=method, outcomes=o))
    jobs = [("single", dict()), ("single", dict(jump_before_sonic=0.01, stop=10.0)), ("step", dict(skw=dict(num_attempts=3))),
            ("hydrostatic", dict()), ("mod_hydro", dict()), ("single", dict(use_taylor_jump=False, num_angles=80))]
    if not q:
        jobs += [("mcmc", dict(nwalkers=8, iterations=1, num_angles=30)), ("single", dict(use_E_r=True)),
                 ("single", dict(η_derivs=False)), ("step", dict(skw=dict(num_attempts=8), num_angles=100)),
                 ("fast_crosser", dict(skw=dict(num_attempts=4, final_stop=30, final_steps=300)))]
    for i, (m, over) in enumerate(jobs):
        traces.append(real(ctx, m, rng, "file" if i % 2 == 0 or not q else "mem", **over))
        metas.append(dict(method=m, real=True, over=str(over)))
    recs = sum(e["ev"] == "Record" for t in traces for e in t)
    reruns = sum(e["ev"] == "Rerun" for t in traces for e in t)
    ctx.extra.update(records=recs, reruns=reruns)
    if recs < 200 or reruns < 4:
        if not any(e["ev"] == "UnexpectedError" for t in traces for e in t):
            raise Machinery(f"too little recorded: {recs} {reruns}")
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.reject(ctx.validate("ProvenanceTrace", "SPECIFICATION TraceSpec\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n", traces,
                            meta=metas), "input of recorded solutions")
    ctx.reject(stepping.run(ctx, ["inputs"]), "stepping search")
