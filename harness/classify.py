"""Replays every profile of Classify into the real stepping solver and records what the search did with it."""
import random

import numpy as np
from scikits.odes.sundials.cvode import StatusEnum

import disc_solver.solve as dsolve
from disc_solver.file_format import Run, Solution, InternalData, Problems
from disc_solver.solve.solution import solution as real_solution
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import tokens
from stepping import cfgtext
from vlib import Hang, replaced, swallow_output, time_limit

FLAGS = {"success": [StatusEnum.SUCCESS], "root": [StatusEnum.ROOT_RETURN, StatusEnum.TSTOP_RETURN],
         "failed": [StatusEnum.TOO_MUCH_WORK, StatusEnum.ERR_FAILURE, StatusEnum.CONV_FAILURE]}
OTHERS = ["density unphysical", "velocity", "negative", "v_r became negative"]


def make(case, rng, inp, ic):
    n = len(case["v"])
    sol = np.array([[rng.choice([-2., .5, 1., 3.]) for _ in range(11)] for _ in range(n)]).reshape(n, 11)
    sol[:, ODEIndex.v_θ] = np.array(case["v"], dtype=float) / 64
    sol[:, ODEIndex.ρ] = [rng.choice([0., .5, 2.]) for _ in range(n)]
    if case["neg"]:
        sol[rng.randrange(n), ODEIndex.ρ] = -rng.choice([1e-9, .5])
    internal = None
    if case["internal"]:
        m = len(case["dv"])
        derivs = [np.array([rng.choice([-2., 0., 1., 5.]) for _ in range(11)]) for _ in range(m)]
        for row, x in zip(derivs, case["dv"]):
            row[ODEIndex.v_θ] = x / 4
        if rng.getrandbits(1):
            derivs = np.array(derivs)
        problems = Problems()
        msgs = []
        if "negative" in case["problem"]:
            msgs.append("negative velocity")
        if "other" in case["problem"]:
            msgs.append(rng.choice(OTHERS[:2]))
        rng.shuffle(msgs)
        if rng.getrandbits(1):
            for msg in msgs:
                problems[0.5].append(msg)
        else:
            for i, msg in enumerate(msgs):
                problems[i + 0.25].append(msg)
        internal = InternalData(derivs=derivs, params=[[0.0] * 11] * m, angles=[0.0] * m, problems=problems)
    return Solution(solution_input=inp, initial_conditions=ic, flag=rng.choice(FLAGS[case["flag"]]),
                    coordinate_system="c", internal_data=internal, angles=np.linspace(0, 1, n), solution=sol,
                    t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None)


def judge(case, rng, step, method="v_θ_deriv"):
    """One stepping search whose first attempt has this profile; the second shows the direction."""
    seen = []

    def stub(soln_input, initial_conditions, **kw):
        inp, ic = soln_input, initial_conditions
        seen.append(float(inp.γ))
        if len(seen) > 1:
            raise SolverError("enough")
        return make(case, rng, inp, ic)
    run = Run(config_input=tokens.config(), config_filename=None, disc_solver_version="1", float_type="f",
              sonic_method="step")
    si = tokens.soln_input(γ=np.float64(2), split_method=method, c_s_on_v_k=np.float64(0.01))
    with replaced(real_solution, stub):
        try:
            with time_limit(20):
                ok = step(si, run)
        except SolverError:
            ok = None
        except (Exception, SystemExit, Hang) as e:
            return f"UnexpectedError: {e!r}"
    if ok is True and len(seen) == 1:
        return "best"
    if ok is None and len(seen) == 2:
        return "flip" if seen[1] > seen[0] else "diverge" if seen[1] < seen[0] else "still"
    return f"odd {ok} {seen}"


V = [1, 30, 57, 58, 60, 61, 63, 64, 66]


def run(ctx):
    q = ctx.quick
    base = dict(Sonic=64, Cutoff=57)
    rng = random.Random(ctx.seed)
    inv = "INVARIANTS BestIsSound NegativeIsFlip SlowIsFlip FastDiverges\nPROPERTIES JudgedOnce\nCHECK_DEADLOCK FALSE\n"

    def consts(**c):
        d = dict(base, Values=[30, 58, 61, 63, 66], DValues=[2], MaxV=3, MaxD=0, MinV=1, MinD=0, Flags=["success"],
                 Negs=[False], Internals=[False], ProblemSets=["none"])
        d.update(c)
        return "SPECIFICATION MCSpec\n" + cfgtext(**d)
    fams = dict(
        shapes=dict(Values=V if not q else [1, 30, 57, 58, 61, 63, 64, 66], MaxV=4, MinV=1),
        unusable=dict(Values=[0, 30, 58, 60, 61], Flags=["success", "root", "failed"], Negs=[False, True], MaxV=3),
        internal=dict(Values=[30, 61, 66], MaxV=2, DValues=[0, 1, 2, 3, 5], MaxD=4, MinD=1, Internals=[True],
                      Flags=["success", "failed"], ProblemSets=["none"] if q else ["none", "negative", "other", "both"]),
        problems=dict(Values=[30, 58, 61, 66], MaxV=2, DValues=[1, 2, 4], MaxD=3, MinD=1, Internals=[True],
                      Flags=["failed"], ProblemSets=["none", "negative", "other", "both"]))
    ctx.model("ClassifyMC", consts(MaxV=3, Flags=["success", "failed"], Negs=[False, True], Internals=[False, True],
                                   DValues=[0, 2, 3], MaxD=3, ProblemSets=["none", "negative", "both"]) + inv,
              name="exhaustive, three points, three derivatives")
    cases = []
    for name, c in fams.items():
        got = ctx.generate("ClassifyMC", consts(**c) + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n", name=name)
        rng.shuffle(got)
        cases += got[:2500 if q else 40000]
    for name, c, n in (("long", dict(Values=V, MaxV=9, MinV=6), 400), ("long internal", dict(
            Values=V, MaxV=8, MinV=4, DValues=[0, 1, 2, 3, 4, 6], MaxD=9, MinD=5, Internals=[True, False],
            ProblemSets=["none", "other", "negative"]), 400)):
        cases += ctx.generate("ClassifyMC", consts(**c) + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n", name=name,
                              simulate=n if q else 20 * n, depth=40)
    # negative velocities (TLC's configuration files hold no negative numbers) and smooth long approaches
    for _ in range(150 if q else 3000):
        n = rng.randint(3, 12)
        kind = rng.randrange(3)
        if kind == 0:
            v = [rng.choice([-1, 0, 30, 58, 60, 62]) for _ in range(n)]
            if rng.getrandbits(1):
                v.sort()
        elif kind == 1:      # straight or concave up to the sonic speed
            v, s = [rng.choice([20, 40, 58])], rng.choice([1, 2, 6])
            while len(v) < n and v[-1] < 63:
                v.append(v[-1] + s)
                s = max(0, s - rng.choice([0, 0, 1]))
        else:
            v = sorted(rng.choice(range(40, 66)) for _ in range(n))
        internal = rng.random() < .3
        cases.append(dict(flag=rng.choice(["success", "success", "failed"]), neg=False, internal=internal, problem=[], v=v,
                          dv=[rng.choice([0, 1, 1, 2]) for _ in range(rng.randint(1, 4))] if internal else []))
    step = dsolve.SONIC_METHOD_MAP["step"]
    traces, counts = [], {}
    with swallow_output():
        for c in cases:
            method = "v_θ_deriv" if rng.random() < .9 else "nonsense"
            as_ = judge(c, rng, step, method)
            counts[as_] = counts.get(as_, 0) + 1
            traces.append([dict(ev="Profile", **{k: c[k] for k in ("flag", "v", "neg", "internal", "problem", "dv")}),
                           {"ev": "Judged", "as": as_}])
    ctx.extra["verdicts"] = counts
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.reject(ctx.validate("ClassifyTrace", "SPECIFICATION TraceSpec\n" + cfgtext(**base) +
                            "INVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n", traces, meta=cases), "classification of attempts")
