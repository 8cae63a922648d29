"""Replays behaviours of Once into the methods which make one attempt, with a scripted integrator."""
import contextlib
import copy
import random
import tempfile
import types
from pathlib import Path

import h5preserve
import numpy as np
import scikits.odes
from scikits.odes.sundials import CVODESolveFailed, CVODESolveFoundRoot, CVODESolveReachedTSTOP
from scikits.odes.sundials.cvode import StatusEnum

import disc_solver.solve as solve_pkg
import disc_solver.solve.hydrostatic as hydrostatic
import disc_solver.solve.mod_hydro as mod_hydro
import disc_solver.solve.single as single
from disc_solver.file_format import MCMCVars, Run, registries
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import tokens
from stages import FLAGS
from vlib import TRACE_CFG, Hang, replaced, swallow_output, time_limit

BAD, BIG = -999, 1000
CODE = {"hydrostatic": hydrostatic, "mod_hydro": mod_hydro}
MC = "SPECIFICATION MCSpec\nCONSTANTS N = {n} M = {m}\nINVARIANTS AsAsked NothingRefusedIsKept Begun\n{extra}\nCHECK_DEADLOCK FALSE\n"
CONFIG = """[config]
start = {start}
stop = {stop}
taylor_stop_angle = 0.001
max_steps = {max_steps}
num_angles = {num}
label = once
relative_tolerance = {rtol}
absolute_tolerance = {atol}
nwalkers = 8
iterations = 3
use_E_r = {use_E_r}
η_derivs = {eta}
threads = 1
[initial]
γ = 0.001
v_rin_on_c_s = 0.5
v_a_on_c_s = 0.9
c_s_on_v_k = 0.05
η_O = 0.02
η_H = 0.001
η_A = 0.005
"""


def same(a, b):
    a, b = a.asdict(), b.asdict()
    x, y = a.pop("mcmc_vars"), b.pop("mcmc_vars")
    return a == b and all(getattr(x, k) == getattr(y, k) for k in ("with_v_r", "with_v_a", "with_v_k"))


class Env:
    def __init__(self, beh, rng):
        self.beh, self.rng, self.cfg, self.log = beh, rng, beh["cfg"], []
        self.step = beh["step"][0] if beh["step"] else None
        self.rows, self.evals, self.soln = [], {}, None
        c = self.cfg
        self.set = dict(start=rng.choice([0., 1.5]), stop=rng.choice([4., 5.5]), num=c["n"], max_steps=rng.choice([77, 500]),
                        rtol=rng.choice([1e-5, 1e-6]), atol=rng.choice([1e-9, 1e-10]), use_E_r=c["useE"], eta=c["eta"])
        self.si = tokens.soln_input(start=self.set["start"], stop=self.set["stop"], num_angles=c["n"], max_steps=self.set["max_steps"],
                                    relative_tolerance=self.set["rtol"], absolute_tolerance=self.set["atol"], use_E_r=c["useE"], η_derivs=c["eta"],
                                    γ=0.001, v_rin_on_c_s=0.5, v_a_on_c_s=0.9, c_s_on_v_k=0.05, η_O=0.02, η_H=0.001, η_A=0.005,
                                    iterations=3, mcmc_vars=MCMCVars(True, True, True))
        self.angles = np.radians(np.linspace(self.set["start"], self.set["stop"], c["n"]))
        self.root_func = (lambda t, y, out: None) if c["roots"] else None
        self.onroot, self.ontstop = rng.choice([None, lambda *a: 0]), rng.choice([None, lambda *a: 0])
        self.tstop = rng.choice([None, 1.25])
        if c["file"] or not self.direct():
            self.onroot = self.ontstop = self.tstop = None

    def direct(self):
        """Can only be asked for by calling the method's own solution()."""
        return self.cfg["roots"]

    def ang(self, a):
        i = int(np.argmin(np.abs(self.angles - a)))
        return i if abs(self.angles[i] - a) < 1e-12 else BAD

    def tok(self, row):
        """Velocities which are found after the integration are not compared here."""
        drop = [ODEIndex.v_r, ODEIndex.v_φ] if self.cfg["way"] == "mod_hydro" and self.cfg["useE"] else []
        keep = [i for i in range(len(ODEIndex)) if i not in drop]
        for r, t in self.rows:
            if np.array_equal(np.asarray(row, dtype=float)[keep], r[keep]):
                return t
        return BAD

    def newrow(self):
        r = self.rng
        row = np.array(self.init, dtype=float)
        for i in (ODEIndex.B_r, ODEIndex.B_φ):
            row[i] = 1e-3 * r.random()
        for i in (ODEIndex.B_θ, ODEIndex.ρ, ODEIndex.v_r, ODEIndex.v_φ, ODEIndex.η_O, ODEIndex.η_A, ODEIndex.η_H, ODEIndex.B_φ_prime):
            row[i] *= 1 + 1e-6 * r.random()
        return row

    def expected_start(self):
        define = getattr(CODE[self.cfg["way"]], f"{self.cfg['way']}_define_conditions")
        return np.array(define(self.si).init_con, dtype=float)

    def ode(self, integrator, rhs, **options):
        return types.SimpleNamespace(solve=lambda angles, y0: self.integrate(rhs, options, np.asarray(angles, dtype=float), np.array(y0, dtype=float)))

    def integrate(self, rhs, options, angles, y0):
        st, c = self.step or dict(r=1, m=0, bad=[], how="failed"), self.cfg
        self.init = self.expected_start()
        self.rows.append((self.init, 0))
        start = self.tok(y0) if np.array_equal(y0, self.init) else BAD
        r = min(st["r"], len(angles))
        ys = [y0]
        for j in range(2, r + 1):
            ys.append(self.newrow())
            self.rows.append((ys[-1].copy(), j))
        bad, modes, etas, y, d = [], set(), set(), np.empty(len(ODEIndex)), np.empty(len(ODEIndex))      # cvode's arrays are used again and again
        for j, b in enumerate(st["bad"], 1):
            y[:] = self.newrow()
            d[:] = 0
            if b:
                y[ODEIndex.ρ] = -1
            t = float(angles[0]) + j * 1e-6
            code = rhs(t, y, d)
            if code and b:
                bad.append(j)
            elif not code and not b:
                self.evals[BIG + j] = (t, y.copy(), d.copy())
                modes.add(bool(d[ODEIndex.v_r] == 0 and d[ODEIndex.v_φ] == 0))
                etas.add(bool(d[ODEIndex.η_O] != 0 or d[ODEIndex.η_A] != 0 or d[ODEIndex.η_H] != 0))
            else:
                self.log.append(dict(ev="Evaluation", code=int(code), negative=b))
            y[:] = d[:] = 3
        how = st["how"]
        opts = bool(options.get("rtol") == self.si.relative_tolerance and options.get("atol") == self.si.absolute_tolerance
                    and options.get("max_steps") == self.si.max_steps and options.get("validate_flags") is True
                    and not options.get("old_api", True) and options.get("onroot") is self.onroot and options.get("ontstop") is self.ontstop
                    and options.get("tstop") == self.tstop)
        root = options.get("rootfn") is not None
        if root and not (options["rootfn"] is self.root_func and options.get("nr_rootfns") == 2):
            opts = False
        self.log.append(dict(ev="Integrate", want=[self.ang(a) for a in angles], start=start, r=r, m=len(st["bad"]), bad=bad, how=how, opts=opts, root=root, modes=sorted(modes), etas=sorted(etas)))
        none = types.SimpleNamespace(t=None, y=None)
        soln = types.SimpleNamespace(flag=self.rng.choice(FLAGS[how]), message="scripted", values=types.SimpleNamespace(t=angles[:r].copy(), y=np.array(ys)),
                                     errors=types.SimpleNamespace(t=angles[r - 1], y=ys[-1]), roots=none, tstop=none)
        if how == "root":
            soln.roots = types.SimpleNamespace(t=np.array([angles[r - 1] + 1e-5]), y=np.array([ys[-1] + 1e-5]))
        if how == "tstop":
            soln.tstop = types.SimpleNamespace(t=np.array([angles[r - 1]]), y=np.array([ys[-1]]))
        self.soln = soln
        if how == "success":
            return soln
        raise {"root": CVODESolveFoundRoot, "tstop": CVODESolveReachedTSTOP}.get(how, CVODESolveFailed)(soln)

    # --- a single solution, as a whole
    def attempt(self, inp, conditions, store_internal=True, **more):
        how = self.step["how"]
        self.log.append(dict(ev="Attempt", how=how, keep=bool(store_internal), input=bool(same(inp, self.si) and not more and
                             np.array_equal(conditions.init_con, single.define_conditions(self.si).init_con)
                             and np.allclose(conditions.angles, self.angles, atol=1e-13))))
        if how == "tooclose":
            raise SolverError("scripted")
        s = tokens.solution(7)
        s.flag, s.solution_input, s.initial_conditions = self.rng.choice(FLAGS[how]), inp, conditions
        self.soln = s
        return s

    def kind(self, flag):
        return next((k for k, v in FLAGS.items() if flag in v), "?")

    def conditions(self, ic):
        want = single.define_conditions(self.si).init_con if self.cfg["way"] == "single" else self.expected_start()
        return bool(np.array_equal(ic.init_con, want) and np.allclose(ic.angles, self.angles, atol=1e-13)
                    and ic.γ == (self.si.γ if self.cfg["way"] == "single" else 0) and ic.a_0 == self.si.v_a_on_c_s ** 2 and np.isclose(ic.norm_kepler_sq, 1 / self.si.c_s_on_v_k ** 2, rtol=1e-14))

    def kept(self, d):
        out = []
        order = sorted(self.evals)
        try:
            if not len(d.angles) == len(d.params) == len(d.derivs):
                return [BAD]
            for i in range(len(d.angles)):
                e = order[i] if i < len(order) else None
                ok = e is not None and d.angles[i] == self.evals[e][0] and np.array_equal(d.params[i], self.evals[e][1]) and np.array_equal(d.derivs[i], self.evals[e][2])
                out.append(e if ok else BAD)
            faults = sum(map(len, dict(d.problems).values())) if d.problems is not None else 0
            if faults != sum(self.step["bad"]):
                out.append(BAD)
        except Exception:
            return [BAD]
        return out

    def describe(self, s):
        sol = dict(flag=self.kind(int(s.flag)), input=bool(same(s.solution_input, self.si) and s.solution_input.use_E_r == self.cfg["useE"]),
                   conditions=self.conditions(s.initial_conditions), kind=s.coordinate_system == "spherical midplane 0", rows=[], angles=[], hit=False, keep=False, evals=[])
        if int(s.flag) != int(self.soln.flag):
            sol["flag"] = "?"
        if self.cfg["way"] == "single":
            sol["input"] = bool(sol["input"] and np.array_equal(s.solution, self.soln.solution) and np.array_equal(s.angles, self.soln.angles))
            return sol
        ys = np.asarray(s.solution)
        sol.update(rows=[self.tok(y) for y in ys], angles=[self.ang(a) for a in np.asarray(s.angles)],
                   hit=bool(s.t_roots is not None and s.y_roots is not None and np.array_equal(s.t_roots, self.soln.roots.t) and np.array_equal(s.y_roots, self.soln.roots.y)),
                   keep=s.internal_data is not None, evals=self.kept(s.internal_data) if s.internal_data is not None else [])
        if not np.all(np.isfinite(ys)):
            sol["rows"].append(BAD)
        return sol

    def look(self, run, success, error):
        names = sorted(int(k) for k in run.solutions)
        olds, mine = [], None
        for k in names:
            s = run.solutions[str(k)]
            t = tokens.project(s) if self.cfg["before"] else BAD
            if t >= 100:
                olds.append(t)
            else:
                mine = s
        final = 0
        if run.final_solution is not None and not isinstance(run.final_solution, h5preserve.DelayedContainer):
            f = run.final_solution
            final = 1 if mine is not None and np.array_equal(f.solution, mine.solution) and int(f.flag) == int(mine.flag) else BAD
        if error:
            self.log.append(dict(ev="Refused", names=names, olds=olds, final=final))
        elif mine is None:
            self.log.append(dict(ev="Nothing"))
        else:
            self.log.append(dict(ev="Recorded", names=names, olds=olds, final=final, success=bool(success), sol=self.describe(mine)))

    def run(self, scratch):
        c = self.cfg
        self.log.append(dict(ev="Config", cfg=c))
        error = success = False
        before = copy.deepcopy(self.si)
        try:
            with replaced(scikits.odes.ode, self.ode), swallow_output(), time_limit(30), np.errstate(all="ignore"):
                with (replaced(single.solution, self.attempt) if c["way"] == "single" else contextlib.nullcontext()):
                    if c["file"]:
                        f = scratch / f"{len(list(scratch.iterdir()))}.hdf5"
                        conf = scratch / "once.cfg"
                        conf.write_text(CONFIG.format(**self.set))
                        try:
                            _, success = solve_pkg.solve(output_file=f, sonic_method=c["way"], config_file=conf, output_dir=scratch, store_internal=c["keep"])
                        except SolverError:
                            error = True
                        with h5preserve.open(f, registries, mode="r") as h:
                            try:
                                run = h["run"]
                            except KeyError:      # refused: no final solution was ever recorded
                                run = types.SimpleNamespace(solutions=h["run/solutions"], final_solution=None)
                            self.look(run, success, error)
                    else:
                        run = Run(config_input=tokens.config(), config_filename=None, disc_solver_version="1", float_type="f",
                                  sonic_method=c["way"], use_E_r=c["useE"])
                        for i in range(c["before"]):
                            run.solutions.add_solution(tokens.solution(101 + i))
                        try:
                            success = self.call(run)
                        except SolverError:
                            error = True
                        self.look(run, success, error)
                        if not same(self.si, before):
                            self.log.append(dict(ev="InputChanged"))
        except (Exception, SystemExit, Hang) as e:
            self.log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
        return self.log

    def call(self, run):
        c = self.cfg
        if c["way"] == "single":
            return single.solver(self.si, run, store_internal=c["keep"], **({} if c["final"] and self.rng.random() < .5 else dict(no_final_solution=not c["final"])))
        m = CODE[c["way"]]
        if not self.direct():
            return m.solver(self.si, run, store_internal=c["keep"])
        define = getattr(m, f"{c['way']}_define_conditions")
        kw = dict(root_func_args=2) if c["sized"] else {}
        if c["way"] == "mod_hydro":
            kw["use_E_r"] = c["useE"]
        run.solutions["0"] = m.solution(self.si, define(self.si), store_internal=c["keep"], root_func=self.root_func, onroot_func=self.onroot,
                                        ontstop_func=self.ontstop, tstop=self.tstop, **kw)
        run.final_solution = run.solutions["0"]
        return True


def run(ctx):
    ctx.model("OnceMC", MC.format(n=3, m=2, extra="VIEW vars"), name="exhaustive")
    behs = ctx.generate("OnceMC", MC.format(n=4, m=3, extra="CONSTRAINT Emit"), name="behaviours")
    rng = random.Random(ctx.seed)
    rng.shuffle(behs)
    seen, pick = {}, []
    for b in behs:
        c = b["cfg"]
        key = tuple(sorted(c.items())) + tuple((s["how"]) for s in b["step"])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= (2 if ctx.quick else 25):
            pick.append(b)
    ctx.extra["patterns"] = len(seen)
    with tempfile.TemporaryDirectory(dir=ctx.scratch) as d:
        traces = [Env(b, rng).run(Path(d)) for b in pick]
    for t in traces[:2]:
        ctx.sample(t)
    ctx.reject(ctx.validate("OnceTrace", TRACE_CFG.format(""), traces, meta=[b["cfg"] for b in pick]), "one attempt")
