"""Replays behaviours of FastCross into the real fast-crossing solver with a stubbed equation solver."""
import random
from fractions import Fraction

import numpy as np
import h5preserve
from scikits.odes.sundials.cvode import StatusEnum

import disc_solver.solve as dsolve
from disc_solver.file_format import Run, Solution, InternalData
from disc_solver.solve.solution import solution as real_solution
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import tokens
from stepping import cfgtext, PROFILES
from vlib import Hang, replaced, swallow_output, time_limit

UNIT = Fraction(1, 2 ** 46)
B = 2 ** 26


def limbs(x):
    try:
        q = round(Fraction(float(x)) / UNIT)
    except (ValueError, OverflowError):
        return [2 ** 29, 0]
    q = max(-2 ** 55, min(2 ** 55, q))      # far outside any bracket
    return [q // B, q % B]


def other(inp, *drop):
    return {k: str(v) for k, v in inp.asdict().items() if k not in drop}


class Enough(BaseException):
    """The scripted behaviour has ended although the search goes on."""


class Stub:
    """plan(k, x) gives the quality of attempt k (0: no solution) and the types of its inner attempts."""

    def __init__(self, si, plan, limit, final_stop, final_steps, rng):
        self.si, self.plan, self.limit, self.fs, self.fn, self.rng = si, plan, limit, final_stop, final_steps, rng
        self.events, self.cur, self.tok = [], None, 0
        self.last = si       # input of the last solution found
        self.calls = 0

    def finish(self):
        if self.cur:
            self.events.append(self.cur)
        self.cur = None

    def make(self, inp, t, q=None):
        self.tok += 1
        flag, v, problems = self.rng.choice(PROFILES[t])
        sol = np.ones((len(v), 11))
        sol[:, ODEIndex.v_θ] = v
        sol[:, ODEIndex.B_r] = self.tok
        angles = np.linspace(0, 1e-6, len(v)) if q is None else np.linspace(0, q / 2 ** 20, len(v))
        internal = None
        if problems:
            internal = InternalData(derivs=[[0.0] * 11] * 7, params=[[0.0] * 11] * 7, angles=[0.0] * 7)
            internal.problems["0"] = problems
        self.cur["toks"].append(self.tok)
        self.last = type(inp)(**inp.asdict())
        return Solution(solution_input=inp, initial_conditions=None, flag=flag, coordinate_system="c",
                        internal_data=internal, angles=angles, solution=sol, t_roots=None, y_roots=None,
                        sonic_point=None, sonic_point_values=None)

    def __call__(self, soln_input, initial_conditions, **kw):
        inp = soln_input
        self.calls += 1
        if self.calls > 20000:
            raise Enough()
        final = inp.stop == self.fs and inp.num_angles == self.fn
        if self.cur is None:
            if len(self.events) >= self.limit:
                self.events.append(dict(ev="ExtraAttempt"))
                raise Enough()
            q, self.inner = self.plan(len(self.events), float(inp.v_rin_on_c_s))
            self.inner = list(self.inner)
            self.outer = type(inp)(**inp.asdict())
            want = other(self.last, "v_rin_on_c_s")
            want.update(stop=str(self.si.stop), num_angles=str(self.si.num_angles))
            self.cur = dict(ev="Attempt", x=limbs(inp.v_rin_on_c_s), q=q, toks=[], final=True,
                            cont=other(inp, "v_rin_on_c_s") == want)
        if final:
            want = other(self.last)
            want.update(stop=str(self.fs), num_angles=str(self.fn))
            self.cur["final"] = not self.inner and other(inp) == want
            s = self.make(inp, "best", self.cur["q"])
            self.finish()
            return s
        if not self.inner:
            self.cur["final"] = False
            self.finish()
            raise SolverError("unexpected attempt")
        t = self.inner.pop(0)
        if t == "error":
            self.last = self.outer      # the next attempt starts from this attempt's settings again
            self.finish()
            raise SolverError("scripted failure")
        return self.make(inp, t)


def replay(attempts, plan, rng, defaults=True):
    kw, fs, fn = {}, 90, 900000
    if not defaults:
        fs, fn = rng.choice([(60, 5000), (45, 1234)])
        kw.update(final_stop=fs, final_steps=fn)
    if attempts != 1000:
        kw["num_attempts"] = attempts
    run = Run(config_input=tokens.config(), config_filename=None, disc_solver_version="1", float_type="f",
              sonic_method="fast_crosser")
    si = tokens.soln_input(γ=np.float64(1), v_rin_on_c_s=np.float64(100), split_method="v_θ_deriv",
                           c_s_on_v_k=np.float64(0.001))
    stub = Stub(type(si)(**si.asdict()), plan, attempts, fs, fn, rng)
    log, ok = [dict(ev="Begin", attempts=attempts)], None
    with swallow_output(), replaced(real_solution, stub):
        try:
            with time_limit(60):
                ok = dsolve.SONIC_METHOD_MAP["fast_crosser"](si, run, store_internal=True, **kw)
        except Enough:
            pass
        except (Exception, SystemExit, Hang) as e:
            stub.events.append(dict(ev="UnexpectedError", why=repr(e)[:300]))
    stub.finish()
    evs = stub.events
    for a, b in zip(evs, evs[1:]):
        a["next"] = b.get("x", a.get("x"))
    if evs and evs[-1]["ev"] == "Attempt":
        evs[-1]["next"] = evs[-1]["x"]
    log += evs
    toks = [int(run.solutions[k].solution[0, ODEIndex.B_r]) for k in sorted(run.solutions, key=int)]
    toks = [t for i, t in enumerate(toks) if i == 0 or t != toks[i - 1]]    # a solution may be recorded again right away
    fin = run.final_solution
    fin = -1 if isinstance(fin, h5preserve.DelayedContainer) else 0 if fin is None else int(fin.solution[0, ODEIndex.B_r])
    log.append(dict(ev="End", ok=ok is True, fin=fin, sols=toks))
    return log


def inner(rng, q):
    if q == 0:
        return rng.choice([["error"], ["error"], ["flip", "error"], ["diverge", "flip", "error"]])
    return rng.choice([["best"], ["best"], ["flip", "best"], ["diverge", "diverge", "flip", "best"]])


def run(ctx):
    q = ctx.quick
    ctx.model("FastCrossMC", "SPECIFICATION MCSpec\nVIEW vars\n" + cfgtext(
        AttemptChoices=[1, 3, 20], MaxQ=2, StartUnits=6, StepUnits=2, Tiny=2) +
        " Start <- StartC\n Step <- StepC\nINVARIANTS Ordered MidInside Anchored Bounded\n"
        "PROPERTIES Shrinks KeepsBest FoundGrows\n" + "CHECK_DEADLOCK FALSE\n" if q else
        "SPECIFICATION MCSpec\nVIEW vars\n" + cfgtext(
        AttemptChoices=[1, 3, 12], MaxQ=3, StartUnits=9, StepUnits=3, Tiny=2) +
        " Start <- StartC\n Step <- StepC\nINVARIANTS Ordered MidInside Anchored Bounded\n"
        "PROPERTIES Shrinks KeepsBest FoundGrows Terminates\nCHECK_DEADLOCK FALSE\n", name="exhaustive, small line")
    rng = random.Random(ctx.seed)
    behs = ctx.generate("FastCrossMC", "SPECIFICATION GenSpec\n" + cfgtext(
        AttemptChoices=[1, 2, 5, 8], MaxQ=2, StartUnits=2 ** 24, StepUnits=2 ** 20, Tiny=2) +
        " Start <- StartC\n Step <- StepC\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", name="all short searches")
    behs += ctx.generate("FastCrossMC", "SPECIFICATION GenSpec\n" + cfgtext(
        AttemptChoices=[14, 20, 30], MaxQ=4, StartUnits=2 ** 24, StepUnits=2 ** 20, Tiny=2) +
        " Start <- StartC\n Step <- StepC\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", name="longer searches",
        simulate=200 if q else 2000, depth=40)
    rng.shuffle(behs)
    traces, metas = [], []
    for b in behs[:500 if q else 8000]:
        qs = b["qs"]
        # after a scripted end the search must be over; anything else shows up as an extra attempt
        plan = (lambda qs: lambda k, x: (qs[k], inner(rng, qs[k])) if k < len(qs) else (1, ["best"]))(qs)
        traces.append(replay(b["attempts"], plan, rng, defaults=rng.random() < .5))
        metas.append(b)
    # default limit: refine a smooth optimum down to rounding
    for i in range(8 if q else 150):
        xs = 100 + rng.uniform(-8, 8) if i else 100.3
        w = rng.choice([3, 10, 30])
        cut = rng.choice([0, 0, 2])     # nothing found far from the optimum
        def f(x, xs=xs, w=w, cut=cut):
            if cut and abs(x - xs) > cut * w:
                return 0
            return max(1, int(2 ** 20 * (1 - ((x - xs) / (4 * w)) ** 2))) if w != 3 else max(1, int(2 ** 20 - 2 ** 14 * abs(x - xs)))
        plan = (lambda f: lambda k, x: (f(x), inner(rng, f(x))))(f)
        traces.append(replay(1000, plan, rng))
        metas.append(dict(optimum=xs, width=w, cut=cut))
    ctx.extra["attempts"] = sum(len(t) - 2 for t in traces)
    ctx.extra["longest"] = max(len(t) for t in traces)
    outs = {}
    for b in behs:
        outs[b["out"]] = outs.get(b["out"], 0) + 1
    ctx.extra["outcomes"] = outs
    ctx.sample(traces[0])
    ctx.sample(traces[-1][-3:])
    ctx.reject(ctx.validate("FastCrossTrace", "SPECIFICATION TraceSpec\n" + cfgtext(Tiny=64) +
                            " Start <- StartC\n Step <- StepC\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n", traces, meta=metas),
               "fast-point search")
