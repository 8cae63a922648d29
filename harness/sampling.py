"""Replays behaviours of Sampling into the real sampling search with a scripted sampler and equation solver."""
import random
import warnings

import emcee
import numpy as np
import h5preserve
from scikits.odes.sundials.cvode import StatusEnum

import disc_solver.solve as dsolve
from disc_solver.file_format import Run, Solution, MCMCVars
from disc_solver.solve.solution import solution as real_solution
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import tokens
from stepping import cfgtext
from vlib import Hang, replaced, swallow_output, time_limit

NAMES = {"v_r": "v_rin_on_c_s", "v_a": "v_a_on_c_s", "v_k": "c_s_on_v_k"}


def same(a, b):
    return a is b or str(a) == str(b)


class Script:
    def __init__(self, props, si, which, rng, log, run, crowd):
        self.props, self.si, self.which, self.rng, self.log, self.run = props, si, which, rng, log, run
        self.names = ["γ"] + [NAMES[w] for w in which]
        self.current = None
        self.points = []
        self.crowd = crowd

    # the scripted sampler ----------------------------------------------------
    def sampler(self, nwalkers, ndim, func, *args, **kw):
        self.func = func
        self.begin = dict(ev="Begin", walkers=nwalkers == self.si.nwalkers, dims=ndim == len(self.names))
        return self

    def run_mcmc(self, initial, iterations, *args, **kw):
        pos = np.asarray(initial)
        centre = np.array([float(getattr(self.si, n)) for n in self.names])
        self.begin.update(iterations=iterations == self.si.iterations,
                          near=pos.shape == (self.si.nwalkers, len(self.names)) and
                          bool(np.all(np.abs(pos / centre - 1) < 1)))
        self.log.append(self.begin)
        for i, p in enumerate(self.props):
            point = self.point(p, i)
            self.points.append(point)
            self.current = dict(ev="Propose", kind=p["kind"], score=p["score"], solved=False, asked=False, others=False)
            self.here = (p, point)
            r = self.func(np.array(point))
            if np.isnan(r):     # emcee refuses these
                raise ValueError("Probability function returned NaN")
            self.current["reply"] = "rejected" if r == -np.inf else "score" if np.isfinite(r) else "odd"
            self.current["nrecs"] = len(self.run.solutions)
            self.log.append(self.current)

    def point(self, p, i):
        c = {"γ": 0.001, "v_rin_on_c_s": 1.0, "v_a_on_c_s": 1.0, "c_s_on_v_k": 0.03}
        x = {n: v * (1 + (i + 1) / 4096) for n, v in c.items()}
        if p["kind"] == "nonpositive":
            x[self.rng.choice(self.names)] = self.rng.choice([0.0, -1e-9, -2.0])
        if p["kind"] == "unphysical":
            if "c_s_on_v_k" in self.names:
                x["c_s_on_v_k"] = 2.0 + i
            elif "v_rin_on_c_s" in self.names:
                x["v_rin_on_c_s"] = 1e3 + i
            else:
                x["γ"] = -1.0       # without either no choice of parameters is unphysical
        return [x[n] for n in self.names]

    # the scripted equation solver ----------------------------------------------
    def solve(self, soln_input, initial_conditions, **kw):
        inp, ic = soln_input, initial_conditions
        p, point = self.here
        self.current["solved"] = True
        self.current["asked"] = [float(getattr(inp, n)) for n in self.names] == point
        self.current["others"] = all(same(v, getattr(self.si, k)) for k, v in inp.asdict().items() if k not in self.names)
        if p["kind"] == "fails":
            raise SolverError("scripted failure")
        a = {"good": p["score"] / 4}.get(p["kind"], self.rng.choice([np.nan, -np.inf, np.inf]))
        n = 3
        sol = np.ones((n, 11))
        sol[:, ODEIndex.v_θ] = np.linspace(0, a, n) if np.isfinite(a) else [0, a, a]
        sol[:, ODEIndex.B_r] = len(self.points)
        return Solution(solution_input=inp, initial_conditions=ic, flag=self.rng.choice([StatusEnum.SUCCESS, StatusEnum.TOO_MUCH_WORK]),
                        coordinate_system="c", internal_data=None, angles=np.linspace(0, 1, n), solution=sol,
                        t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None)


def replay(b, rng):
    which = rng.choice([["v_r", "v_a", "v_k"], ["v_r", "v_a", "v_k"], ["v_r"], ["v_a"], ["v_k"], ["v_r", "v_k"], ["v_r", "v_a"],
                        ["v_a", "v_k"]])
    props = [dict(p) for p in b["props"]]
    for p in props:
        if p["kind"] == "unphysical" and "v_k" not in which and "v_r" not in which:
            p["kind"] = "nonpositive"
    mv = None if len(which) == 3 and rng.getrandbits(1) else MCMCVars(with_v_r="v_r" in which, with_v_a="v_a" in which,
                                                                       with_v_k="v_k" in which)
    si = tokens.soln_input(nwalkers=rng.choice([8, 10, 32]), iterations=rng.choice([3, 5, 17]), mcmc_vars=mv,
                           split_method="v_θ_deriv", num_angles=17, η_derivs=False)
    run = Run(config_input=tokens.config(), config_filename=None, disc_solver_version="1", float_type="f", sonic_method="mcmc")
    log = []
    sc = Script(props, type(si)(**si.asdict()), which, rng, log, run, None)
    with swallow_output(), replaced(real_solution, sc.solve), replaced(emcee.EnsembleSampler, sc.sampler, emcee), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with time_limit(30):
                dsolve.SONIC_METHOD_MAP["mcmc"](si, run)
        except (Exception, SystemExit, Hang) as e:
            log.append(dict(ev="UnexpectedError", why=repr(e)[:300]))
            return log
    sols = [run.solutions[k] for k in sorted(run.solutions, key=int)]
    toks = [int(s.solution[0, ODEIndex.B_r]) for s in sols]
    fin = run.final_solution
    inputs = all([float(getattr(s.solution_input, n)) for n in sc.names] == sc.points[t - 1]
                 for s, t in zip(sols, toks))
    log.append(dict(ev="End", sols=toks, inputs=inputs,
                    fin=-1 if isinstance(fin, h5preserve.DelayedContainer) else 0 if fin is None
                    else int(fin.solution[0, ODEIndex.B_r])))
    return log


def run(ctx):
    q = ctx.quick
    ctx.model("SamplingMC", "SPECIFICATION MCSpec\nVIEW vars\n" + cfgtext(MaxN=6 if q else 8, MinN=0, MaxScore=3) +
              "INVARIANTS FinalIsBest NoneIffEmpty Increasing\nPROPERTIES Kept\nCHECK_DEADLOCK FALSE\n",
              name="exhaustive")
    rng = random.Random(ctx.seed)

    def gen(name, **k):
        c = {x: k.pop(x) for x in ("MaxN", "MinN", "MaxScore")}
        return ctx.generate("SamplingMC", "SPECIFICATION MCSpec\n" + cfgtext(**c) + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                            name=name, **k)
    behs = gen("all short searches", MaxN=4, MinN=0, MaxScore=3)
    rng.shuffle(behs)
    behs = [dict(props=[])] + behs[:600 if q else len(behs)]
    behs += gen("longer searches", MaxN=30, MinN=12, MaxScore=5, simulate=150 if q else 3000, depth=40)
    traces = [replay(b, rng) for b in behs]
    ctx.sample(traces[1])
    ctx.sample(traces[-1][-3:])
    ctx.reject(ctx.validate("SamplingTrace", "SPECIFICATION TraceSpec\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n", traces,
                            meta=behs), "sampling search")
