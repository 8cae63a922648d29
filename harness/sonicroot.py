"""Replays behaviours of SonicRoot into the real sonic-root search with a scripted root finder and equation solver."""
import random
import types
import warnings

import numpy as np
import h5preserve
import scipy.optimize
from h5preserve import open as h5open
from scikits.odes.sundials.cvode import StatusEnum

import disc_solver.solve as dsolve
from disc_solver.file_format import registries, Run, Solution, InternalData, Problems
from disc_solver.solve.config import define_conditions
from disc_solver.solve.solution import solution as real_solution
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import tokens
from stepping import cfgtext
from vlib import Hang, replaced, swallow_output, time_limit

FLAGS = {-1: [StatusEnum.TOO_MUCH_WORK, StatusEnum.CONV_FAILURE], 0: [StatusEnum.SUCCESS],
         2: [StatusEnum.ROOT_RETURN, StatusEnum.TSTOP_RETURN]}
GUESS = ["θ_sonic", "v_φ", "v_r", "B_θ", "B_r", "B_φ", "log_ρ", "B_φ_prime"]


class Script:
    def __init__(self, steps, si, rng, log, run):
        self.steps, self.si, self.rng, self.log, self.run = steps, si, rng, log, run
        self.built = []     # the rows of each solution with their angles
        self.guess = None
        self.cons = define_conditions(type(si)(**si.asdict()))

    def build(self, s, inp, ic, rows, angles):
        self.built.append(pairs(angles, rows))
        internal = None
        if s["int"]:
            t = np.array(s["irows"], dtype=float)
            internal = InternalData(angles=t, params=np.repeat(t[:, None], 11, 1), derivs=np.repeat(t[:, None], 11, 1),
                                    problems=Problems(**{str(s["irows"][0]): ["p"]}),
                                    **{k: t.copy() for k in ("v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor",
                                                             "v_φ_taylor", "ρ_taylor")})
        return Solution(solution_input=inp, initial_conditions=ic, flag=self.rng.choice(FLAGS[s["flag"]]),
                        coordinate_system="spherical midplane 0", internal_data=internal, angles=angles, solution=rows,
                        t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None)

    # v_θ of the rows tells rows apart; η_O carries the token
    def rows(self, toks):
        a = np.array([[0.01 * t + 0.1 * j + 1 for j in range(11)] for t in toks])
        a[:, ODEIndex.η_O] = toks
        return a

    def conditions(self, ic):
        return all(np.array_equal(getattr(ic, k), getattr(self.cons, k))
                   for k in ("init_con", "angles", "a_0", "γ", "norm_kepler_sq", "η_O", "η_A", "η_H"))

    def solve(self, soln_input, initial_conditions, *, modified_initial_conditions=None, with_taylor=True, root_func=None, root_func_args=None,
              store_internal=True, **kw):
        inp, ic = soln_input, initial_conditions
        plain = inp.asdict() == self.si.asdict() and self.conditions(ic)
        if modified_initial_conditions is None:
            s = self.steps[0]["s"]
            out = np.zeros(1)
            target = root_func is not None and root_func_args == 1
            if target:
                p = np.zeros(11)
                p[ODEIndex.v_θ] = self.si.target_velocity
                root_func(0.0, p, out)
                target = out[0] == 0
                p[ODEIndex.v_θ] += 0.5
                root_func(0.0, p, out)
                target = target and out[0] != 0
            self.log.append(dict(ev="Mid", s=s, input=bool(plain and target and with_taylor)))
            rows = self.rows(s["rows"])
            rows[:, ODEIndex.v_θ] = np.linspace(0.1, self.si.target_velocity, len(rows))
            self.mid = self.build(s, inp, ic, rows, np.linspace(0, 0.05, len(rows)))
            self.midend = rows[-1].copy()
            return self.mid
        step = self.step
        if step["k"] == "nosolution":
            self.solved = "failed"
            raise SolverError("scripted failure")
        m = modified_initial_conditions
        want = self.cons.init_con.copy()
        want[ODEIndex.v_θ] = 1
        for i, name in enumerate(GUESS):
            if name == "log_ρ":
                want[ODEIndex.ρ] = np.exp(self.guess[i])
            elif name != "θ_sonic":
                want[ODEIndex[name]] = self.guess[i]
        self.start = bool(plain and not with_taylor and np.allclose(m.init_con, want, rtol=1e-13, atol=0) and
                          m.angles[0] == self.guess[0] and m.angles[-1] == 0.05 and np.all(np.diff(m.angles) < 0))
        s = step["s"]
        rows = self.rows(s["rows"])
        angles = np.linspace(self.guess[0], 0.05, len(rows))
        if step["m"]:
            tok = rows[-1, ODEIndex.η_O]
            rows[-1] = self.midend
            rows[-1, ODEIndex.η_O] = tok
        elif self.rng.getrandbits(1):
            angles = np.linspace(self.guess[0], 0.052, len(rows))
        self.solved = "yes"
        return self.build(s, inp, ic, rows, angles)

    def root(self, fun, x0, *args, **kw):
        x0 = np.array(x0, dtype=float)
        if x0.shape != (8,):
            self.log.append(dict(ev="WrongGuess", shape=list(x0.shape)))
        for step in self.steps[1:]:
            self.step = step
            if step["k"] == "end":
                self.converged = step["m"]
                return types.SimpleNamespace(success=step["m"], message="scripted", x=x0)
            self.guess = np.array([0.06, 30.5, -1.25, 0.875, 0.5, -0.25, -0.125, 2.0]) + self.rng.randrange(8) / 64
            if step["k"] == "badguess":
                self.guess[self.rng.choice([1, 2, 3, 6])] = np.nan
            self.solved = self.start = False
            r = np.asarray(fun(self.guess.copy()))
            kind = "odd"
            if r.shape == (8,):
                kind = "error" if np.all(np.abs(r) > 1e100) else "zero" if np.all(r == 0) else \
                    "residual" if np.all(np.abs(r) < 1e6) else "odd"
            e = dict(ev="Trial" if step["k"] == "trial" else "BadTrial", reply=kind, nrecs=len(self.run.solutions))
            if step["k"] == "trial":
                e.update(s=step["s"], m=step["m"], start=bool(self.start))
            elif step["k"] == "badguess" and self.solved:
                e["ev"] = "SolvedBadGuess"
            self.log.append(e)
        raise AssertionError


def pairs(angles, rows):
    a, r = np.asarray(angles), np.asarray(rows)
    return {(float(x), y.tobytes()) for x, y in zip(a, r)} if len(a) == len(r) else {None}


def describe(s):
    i = s.internal_data
    irows = []
    if i is not None:
        irows = [int(x) for x in i.angles]
        if not all(np.array_equal(np.asarray(getattr(i, k))[:, 0] if k in ("params", "derivs") else getattr(i, k), i.angles)
                   for k in ("params", "derivs", "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor", "v_φ_taylor", "ρ_taylor")):
            irows = [-7]
    flag = int(s.flag)
    return dict(rows=[int(x) for x in s.solution[:, ODEIndex.η_O]], flag=-1 if flag < 0 else 2 if flag > 0 else 0,
                int=i is not None, irows=irows)


def replay(ctx, b, rng, via):
    si = tokens.soln_input(split_method="v_θ_deriv", target_velocity=rng.choice([0.9, 0.5]), num_angles=13, stop=4.0)
    log = []
    with swallow_output(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        run = Run(config_input=tokens.config(), config_filename=None, disc_solver_version="1", float_type="f",
                  sonic_method="sonic_root")
        sc = Script(b["steps"], type(si)(**si.asdict()), rng, log, run)
        ok = None
        with replaced(real_solution, sc.solve), replaced(scipy.optimize.root, sc.root):
            try:
                with time_limit(30):
                    if via == "file":
                        name = ctx.fresh("sr") / "r.hdf5"
                        with h5open(name, registries, mode="x") as f:
                            f["run"] = run
                            ok = dsolve.SONIC_METHOD_MAP["sonic_root"](si, run)
                            run.finalise()
                        with h5open(name, registries, mode="r") as f:
                            return finish(f["run"], sc, log, ok)
                    ok = dsolve.SONIC_METHOD_MAP["sonic_root"](si, run)
            except (Exception, SystemExit, Hang) as e:
                log.append(dict(ev="UnexpectedError", why=repr(e)[:300]))
                return log
        return finish(run, sc, log, ok)


def finish(run, sc, log, ok):
    sols = [run.solutions[k] for k in sorted(run.solutions, key=int)]
    fin = run.final_solution
    if isinstance(fin, h5preserve.DelayedContainer):
        fin = -1
    else:
        d = describe(fin)
        fin = max((i + 1 for i, s in enumerate(sols) if describe(s) == d), default=0)
    same = all(s.solution_input.asdict() == {**sc.si.asdict()} and sc.conditions(s.initial_conditions) for s in sols)
    # no row lost its angle
    same = same and all(pairs(s.angles, s.solution) <= sc.built[0] | sc.built[i] and None not in pairs(s.angles, s.solution)
                        for i, s in enumerate(sols) if i < len(sc.built))
    log.append(dict(ev="End", ok=bool(ok), converged=sc.converged, fin=fin, recs=[describe(s) for s in sols], same=bool(same)))
    return log


def run(ctx):
    q = ctx.quick
    ctx.model("SonicRootMC", "SPECIFICATION MCSpec\nVIEW vars\n" + cfgtext(MaxTrials=2 if q else 3, MinTrials=0, MaxRows=3) +
              "INVARIANTS MidFirst MidKept FinalIsLast\nPROPERTIES RecordsKept\nCHECK_DEADLOCK FALSE\n", name="exhaustive")
    rng = random.Random(ctx.seed)

    def gen(name, **k):
        c = {x: k.pop(x) for x in ("MaxTrials", "MinTrials", "MaxRows")}
        return ctx.generate("SonicRootMC", "SPECIFICATION MCSpec\n" + cfgtext(**c) + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                            name=name, **k)
    behs = gen("up to one trial", MaxTrials=1, MinTrials=0, MaxRows=4)
    rng.shuffle(behs)
    behs = behs[:150 if q else len(behs)]
    behs += gen("many trials", MaxTrials=12, MinTrials=3, MaxRows=5, simulate=150 if q else 3000, depth=30)
    traces = [replay(ctx, b, rng, "file" if i % 12 == 0 else "mem") for i, b in enumerate(behs)]
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.reject(ctx.validate("SonicRootTrace", "SPECIFICATION TraceSpec\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n", traces,
                            meta=behs), "sonic-root search")
