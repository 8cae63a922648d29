"""Replays behaviours of Stepper into the real stepping solver with a stubbed equation solver."""
import random
from fractions import Fraction
from unittest import mock

import numpy as np
import h5preserve
from h5preserve import open as h5open
from scikits.odes.sundials.cvode import StatusEnum

import disc_solver.analyse.diverge_plot as diverge_plot_mod
import disc_solver.solve as dsolve
from disc_solver.file_format import registries, Run, Solution, InternalData, Problems
from disc_solver.solve.solution import solution as real_solution
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import tokens
from vlib import Hang, Machinery, replaced, swallow_output, time_limit

E0 = 49
G0 = 640.0
UNIT = Fraction(1, 2 ** 43)      # 640 = 10 * 2^49 units
B = 2 ** 25


def limbs(x, unit=UNIT):
    try:
        q = Fraction(float(x)) / unit
    except (ValueError, OverflowError, TypeError):
        return [0, -1]
    if q.denominator != 1 or abs(q.numerator) >= 2 ** 55:
        return [0, -1]
    return [int(q.numerator) // B, int(q.numerator) % B]


FAILED = StatusEnum.TOO_MUCH_WORK
# (flag, polar velocities, problems) per type of solution
PROFILES = {
    "best": [(StatusEnum.SUCCESS, [0, .5, .92, .94, .95], []),
             (StatusEnum.SUCCESS, [0, .2, .91], [])],
    "diverge": [(FAILED, [0, .5, .92, .95, 1.2], []),
                (StatusEnum.SUCCESS, [0, .5, .91, .92, .95, .99, 1.5], []),
                (FAILED, [0, .5, .92, .95], [])],
    "flip": [(FAILED, [0, .5, .7, .6], []),
             (StatusEnum.SUCCESS, [0, .5, .95, .92], []),
             (FAILED, [0, .5, .95, 1.1], ["negative velocity"])],
}


def fields_other(inp):
    d = dict(inp.asdict())
    d.pop("γ")
    return {k: str(v) for k, v in d.items()}


class Stub:
    def __init__(self, types, rng, log, human, unit):
        self.types, self.rng, self.log, self.human, self.unit = list(types), rng, log, human, unit
        self.n = 0
        self.pending = None
        self.baseline = None

    def __call__(self, soln_input, initial_conditions, *, store_internal=True, **kw):
        if self.n >= len(self.types):
            self.log.append(dict(ev="ExtraAttempt"))
            raise SolverError("no more scripted attempts")
        t = self.types[self.n]
        self.n += 1
        if self.baseline is None:
            self.baseline = fields_other(soln_input)
        self.log.append(dict(ev="Attempt", t=t, g=limbs(soln_input.γ, self.unit), same=fields_other(soln_input) == self.baseline))
        if t == "fail":
            raise SolverError("scripted failure")
        flag, v, problems = self.rng.choice(PROFILES["flip" if t == "stop" else t])
        if self.human and t != "best":
            flag, v, problems = self.rng.choice(PROFILES["flip"] + PROFILES["diverge"])
        self.pending = t
        sol = np.ones((len(v), 11))
        sol[:, ODEIndex.v_θ] = v
        sol[:, ODEIndex.B_r] = self.n
        internal = None
        if problems or self.rng.getrandbits(1):
            internal = InternalData(derivs=[[0.0] * 11] * 7, params=[[0.0] * 11] * 7, angles=[0.0] * 7,
                                    problems=Problems(**{"0": problems} if problems else {}))
        return Solution(solution_input=soln_input, initial_conditions=initial_conditions, flag=flag,
                        coordinate_system="c", internal_data=internal, angles=np.linspace(0, 1, len(v)),
                        solution=sol, t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None)

    def ask(self, *_):
        return {"flip": "sign flip", "diverge": "diverge", "stop": "STOP"}[self.pending]


def token(s):
    try:
        return int(s.solution[0, ODEIndex.B_r])
    except Exception:
        return -9


def replay(ctx, beh, rng, *, via, gamma=640, unit=UNIT):
    """via: "file" (solve to a result file) or "mem" (unattached run)."""
    log = [dict(ev="Begin", attempts=beh["attempts"], search=beh["search"])]
    human = "stop" in beh["types"] or rng.random() < 0.3
    stub = Stub(beh["types"], rng, log, human, unit)
    kw = {}
    if beh["attempts"] != 100:
        kw["num_attempts"] = beh["attempts"]
    if beh["search"] != 20:
        kw["max_search_steps"] = beh["search"]
    d = ctx.fresh("step")
    split = "human" if human else "v_θ_deriv"
    solver = dsolve.SONIC_METHOD_MAP["step"]
    run = None
    raised, ok, exc = False, False, None

    def grab(soln_input, run_, **k):
        nonlocal run
        run = run_
        return solver(soln_input, run_, **k)
    with swallow_output(), replaced(real_solution, stub), \
            mock.patch.object(diverge_plot_mod, "diverge_plot", lambda *a, **k: None), \
            mock.patch("builtins.input", stub.ask), mock.patch.dict(dsolve.SONIC_METHOD_MAP, step=grab):
        try:
            with time_limit(20):
                if via == "file":
                    conf = d / "c.cfg"
                    conf.write_text(f"[config]\nsplit_method = {split}\n[initial]\nγ = {gamma}\nc_s_on_v_k = 0.01\n")
                    _, ok = dsolve.solve(output_file="r.hdf5", sonic_method="step", config_file=conf, output_dir=d,
                                         store_internal=True, **kw)
                else:
                    run = Run(config_input=tokens.config(), config_filename=None, disc_solver_version="1",
                              float_type="f", sonic_method="step")
                    si = tokens.soln_input(γ=np.float64(gamma), split_method=split, c_s_on_v_k=np.float64(0.01))
                    ok = solver(si, run, store_internal=True, **kw)
        except SolverError as e:
            raised = True
        except (Exception, KeyboardInterrupt, Hang) as e:
            log.append(dict(ev="UnexpectedError", why=repr(e)[:300]))
            return log
    def describe(sols, final, ordered):
        fin = -1 if isinstance(final, h5preserve.DelayedContainer) else 0 if final is None else token(final)
        same = all(fields_other(s.solution_input) == stub.baseline for s in ordered)
        if fin > 0 and fin <= len(ordered):
            same = same and fields_other(final.solution_input) == stub.baseline and \
                limbs(final.solution_input.γ, unit) == limbs(ordered[fin - 1].solution_input.γ, unit)
        return fin, [token(s) for s in ordered], [limbs(s.solution_input.γ, unit) for s in ordered], same

    if via == "file":
        with h5open(d / "r.hdf5", registries, mode="r") as f:
            if raised:      # aborted: no final solution in the file
                sols, final = f["run/solutions"], h5preserve.DelayedContainer()
            else:
                r = f["run"]
                sols, final = r.solutions, r.final_solution
            fin, toks, ins, same = describe(sols, final, [sols[k] for k in sorted(sols, key=int)])
    else:
        fin, toks, ins, same = describe(run.solutions, run.final_solution,
                                        [run.solutions[k] for k in sorted(run.solutions, key=int)])
    log.append(dict(ev="End", raised=raised, ok=ok is True, fin=fin, sols=toks, inputs=ins, samein=same))
    return log


def cfgtext(**c):
    def f(v):
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, (set, list, tuple)):
            return "{" + ", ".join(f(x) for x in v) + "}"
        if isinstance(v, str):
            return f'"{v}"'
        return str(v)
    return "CONSTANTS\n" + "".join(f" {k} = {f(v)}\n" for k, v in c.items())


SMALL = dict(AttemptChoices=[1, 2, 3, 5, 6], SearchChoices=[1, 2, 4], AllowFail=True, AllowStop=True, AllowBest=True,
             MinLen=0, InBinade=False)


def run(ctx, focus):
    q = ctx.quick
    ctx.model("StepperMC", "SPECIFICATION MCSpec\nVIEW vars\n" + cfgtext(
        E0=3, **dict(SMALL, AttemptChoices=[1, 4, 9 if q else 11], SearchChoices=[1, 3, 20], InBinade=True)) +
        "INVARIANTS Bracketed Walking AttemptsBounded FinalIsLast FailureHasNone\n"
        "PROPERTIES RecordsKept HalvedGrows Terminates\nCHECK_DEADLOCK FALSE\n", name="exhaustive, 3-bit steps")
    rng = random.Random(ctx.seed)

    def gen(name, n=None, depth=None, **c):
        return ctx.generate("StepperMC", "SPECIFICATION MCSpec\n" + cfgtext(E0=E0, **dict(SMALL, **c)) +
                            "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n", name=name, simulate=n, depth=depth)
    short = gen("all short searches")
    walk = gen("default limits, long walks", 300 if q else 2000, 40, AttemptChoices=[100], SearchChoices=[20],
               MinLen=18)
    walk = [b for b in walk if len(b["types"]) >= 4]
    long = gen("down to rounding", 150 if q else 1500, 110, AttemptChoices=[100, 60], SearchChoices=[20], MinLen=45,
               InBinade=True, AllowFail=False, AllowBest=False, AllowStop=False)
    long = [b for b in long if len(b["types"]) > 50]
    same = [dict(attempts=100, search=20, types=[t] * 21, out="gaveup") for t in ("flip", "diverge")] + \
           [dict(attempts=a, search=20, types=[t] * a, out="exhausted") for t in ("flip", "diverge") for a in (5, 9)] + \
           [dict(attempts=100, search=20, types=t, out="exhausted") for t in
            (["diverge"] + ["flip"] * 99, ["flip", "flip", "diverge"] + ["flip"] * 97)]
    if len(long) < 20:
        raise Machinery("too few long searches")
    pick = []
    for bs, k in ((short, 500 if q else len(short)), (walk, 60 if q else 1000), (long, 50 if q else 1000)):
        bs = list(bs)
        rng.shuffle(bs)
        pick += bs[:k]
    pick += same
    traces = [replay(ctx, b, rng, via="file" if i % 10 == 0 or (not q and i % 3 == 0) else "mem") for i, b in enumerate(pick)]
    rej = ctx.validate("StepperTrace", "SPECIFICATION TraceSpec\n" + cfgtext(E0=E0, Focus=focus) +
                       "INVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n", traces, meta=pick)
    # a search that starts at zero
    zero = [dict(attempts=a, search=20, types=list(t)) for a, t in
            ((5, ["flip"] * 5), (4, ["flip", "flip", "best"]), (6, ["diverge"]), (9, ["flip", "flip", "diverge"]),
             (9, ["flip", "flip", "flip", "fail"]), (100, ["flip"] * 21))]
    ztraces = [replay(ctx, b, rng, via="mem", gamma=0, unit=Fraction(1, 2 ** 1074)) for b in zero]
    rej = rej or ctx.validate("StepperTrace", "SPECIFICATION TraceSpec\n" + cfgtext(E0=0, Focus=focus) +
                              "INVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n", ztraces, meta=zero)
    ctx.sample(dict(behaviour=pick[0], recorded=traces[0]))
    ctx.sample(dict(behaviour=pick[-10], recorded=traces[-10][-3:]))
    outs = {}
    for b in pick:
        outs[b["out"]] = outs.get(b["out"], 0) + 1
    ctx.extra["outcomes"] = outs
    return rej
