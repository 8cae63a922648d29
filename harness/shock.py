"""Replays Shock (the jump) and ShockRun (candidates, workers and result files) into the real shock code."""
import multiprocessing
import os
import pickle
import random
import subprocess
import sys
import json
from fractions import Fraction
from pathlib import Path
from types import SimpleNamespace
from unittest import mock

import arrow
import matplotlib.figure
import numpy as np
from h5preserve import open as h5open

from disc_solver.file_format import Run, Solution, InitialConditions, registries
from disc_solver.solve.config import define_conditions
from disc_solver.solve.shock import (
    compute_shock, find_shock_test_values, get_shock_modified_initial_conditions, shock_from_file,
)
from disc_solver.solve.solution import solution
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import tokens
from runfile import digest
from vlib import TRACE_CFG, Hang, VERIF, replaced, swallow_output, time_limit

BAD = -999
V, RHO = ODEIndex.v_θ, ODEIndex.ρ
OTHER = [i for i in range(11) if i not in (V, RHO)]


def frac(x):
    """The small fraction a float stands for, as [n, d]."""
    try:
        f = Fraction(float(x)).limit_denominator(100000)
        if abs(float(f) - float(x)) > 1e-12 * abs(float(x)):
            return [BAD, 1]
        return [f.numerator, f.denominator]
    except Exception:
        return [BAD, 1]


class Jump:
    """One pre-shock state in a column of states, and everything needed to see what the code makes of it."""
    def __init__(self, pre, rng, real=None):
        self.pre, self.rng = pre, rng
        n, j = pre["n"], pre["j"]
        self.si = tokens.soln_input(num_angles=n, use_E_r=False, η_derivs=bool(rng.getrandbits(1)), use_taylor_jump=False)
        self.angles = np.radians(np.linspace(50, 50 + n / 4, n) + rng.random())
        if real is None:
            row = np.array([rng.uniform(-3, 3) for _ in range(11)])
            self.ic = InitialConditions(norm_kepler_sq=12.5, a_0=.75, γ=.0625, init_con=np.array([rng.random() for _ in range(11)]),
                                        angles=self.angles)
        else:
            self.ic, row = real
            row = np.array(row)
            self.ic = InitialConditions(norm_kepler_sq=self.ic.norm_kepler_sq, a_0=self.ic.a_0, γ=self.ic.γ,
                                        init_con=np.array(self.ic.init_con), angles=self.angles)
        row[V] = pre["v"][0] / pre["v"][1]
        row[RHO] = pre["rho"][0] / pre["rho"][1]
        self.values = np.array([row if i == j - 1 else row + 1 + i for i in range(n)])
        self.row0 = row.copy()
        self.before = self.snapshot()
        self.log = [dict(ev="Config", pre=dict(v=frac(row[V]), rho=frac(row[RHO]), rest=1, j=j, n=n))]

    def snapshot(self):
        return (self.angles.tobytes(), self.values.tobytes(), self.ic.angles.tobytes(), self.ic.init_con.tobytes(),
                self.ic.norm_kepler_sq, self.ic.a_0, self.ic.γ)

    def state(self, x):
        x = np.asarray(x)
        ok = x.shape == (11,) and all(x[i] == self.row0[i] for i in OTHER)
        return dict(v=frac(x[V]), rho=frac(x[RHO]), rest=1 if ok else BAD) if x.shape == (11,) else dict(v=[BAD, 1], rho=[BAD, 1], rest=BAD)

    def which(self, angles):
        out = []
        for a in np.asarray(angles).ravel():
            k = int(np.argmin(abs(self.angles - a)))
            out.append(k + 1 if abs(self.angles[k] - a) <= 1e-12 else BAD)
        return out

    def others(self, ic):
        return bool(ic.norm_kepler_sq == self.ic.norm_kepler_sq and ic.a_0 == self.ic.a_0 and ic.γ == self.ic.γ
                    and self.snapshot() == self.before)

    def jump(self, steps):
        """Straight from the function that makes the conditions after the shock."""
        vals = self.values[self.pre["j"] - 1]
        for _ in range(steps):
            new = get_shock_modified_initial_conditions(initial_conditions=self.ic, angles=self.angles,
                                                        jump_θ=self.angles[self.pre["j"] - 1], pre_jump_values=vals)
            self.log.append(dict(ev="Jump", **self.state(new.init_con), angles=self.which(new.angles), kept=self.others(new)))
            vals = new.init_con
        return new

    def integrate(self, solve):
        """Through the whole search, with what the solver is given looked at (and, if asked for, solved for real)."""
        n, j = self.pre["n"], self.pre["j"]
        vals = self.values.copy()
        vals[:, V] = 0.5
        vals[j - 2, V] = 20         # the maximum, beyond the limits
        vals[j - 1, V] = self.row0[V]
        self.values[:] = vals
        self.before = self.snapshot()
        given = []

        def stub(soln_input, initial_conditions, **kw):
            given.append((soln_input, initial_conditions, kw))
            if solve:
                s = solution(soln_input, initial_conditions, **kw)
                given.append(s)
            raise SolverError("scripted")
        soln = Solution(solution_input=self.si, initial_conditions=self.ic, flag=0, coordinate_system="c", internal_data=None,
                        angles=self.angles, solution=self.values, t_roots=None, y_roots=None, sonic_point=None,
                        sonic_point_values=None)
        run = Run(config_input=tokens.config(), config_filename="x", disc_solver_version="0", float_type="float64",
                  sonic_method="single").create_shock_run(filename="f", solution_name="0")
        with replaced(solution, stub), replaced(multiprocessing.Pool, lambda *a, **k: Serial()):
            compute_shock(soln, run=run, nworkers=1)
        if not given:
            self.log.append(dict(ev="NotTried"))
            return
        si, ic, kw = given[0]
        m = kw.pop("modified_initial_conditions", None)
        internal = kw.pop("store_internal", None)
        ok = (ic is self.ic and kw == dict(with_taylor=False, is_post_shock_only=True) and internal is not None
              and all(getattr(si, k) == getattr(self.si, k) for k in ("η_derivs", "max_steps", "relative_tolerance", "absolute_tolerance"))
              and si.jump_before_sonic is None and not si.use_taylor_jump)
        self.log.append(dict(ev="Integrate", **self.state(m.init_con), angles=self.which(m.angles), kept=bool(ok and self.others(m))))
        if solve:
            s = given[1] if len(given) > 1 else None
            if s is None:
                self.log.append(dict(ev="NotSolved"))
                return
            self.log.append(dict(ev="Solved", **self.state(s.solution[0]), angles=self.which(s.angles),
                                 kept=bool(s.is_post_shock_only and s.initial_conditions is self.ic and self.snapshot() == self.before)))


class Serial:
    """A pool that runs its tasks in order."""
    def close(self):
        pass
    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def imap(self, func, iterable, chunksize=1):
        return [func(x) for x in iterable]
    imap_unordered = map = imap


def jump_play(job):
    beh, seed, kind, real = job
    rng = random.Random(seed)
    p = Jump(beh["pre"], rng, real)
    try:
        with time_limit(60), swallow_output():
            if kind == "direct":
                p.jump(beh["steps"].count("Jump"))
            else:
                p.jump(1)
                p.integrate(kind == "solve")
    except (Exception, SystemExit, Hang) as e:
        p.log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    return p.log


JUMP_CFG = """SPECIFICATION MCSpec
CONSTANTS MaxV = {v} MaxRho = {r} MaxN = {n}
INVARIANTS MassFlux MomentumFlux Slower Compressed TwiceRestores RestUnchanged FromTheShockOn
{extra}
CHECK_DEADLOCK FALSE
"""


def run_jump(ctx):
    q = ctx.quick
    ctx.model("ShockMC", JUMP_CFG.format(v=9, r=6, n=4 if q else 6, extra="VIEW vars"), name="exhaustive")
    behs = ctx.generate("ShockMC", JUMP_CFG.format(v=9 if q else 12, r=4, n=3 if q else 5, extra="CONSTRAINT Emit"), name="cases")
    rng = random.Random(ctx.seed)
    rng.shuffle(behs)
    # a real state of the system to put velocities and densities into
    si = tokens.soln_input(use_E_r=False)
    ic = define_conditions(si)
    with swallow_output():
        s = solution(si, ic, store_internal=False)
    real = (ic, s.solution[len(s.solution) // 2])
    jobs = [(b, rng.random(), "direct", None) for b in behs[:1500 if q else 20000]]
    fast = [b for b in behs if b["steps"] == ["Jump", "Integrate"] and b["pre"]["j"] > 1
            and 1 < b["pre"]["v"][0] / b["pre"]["v"][1] < 10]
    jobs += [(b, rng.random(), "args", None) for b in fast[:200 if q else 3000]]
    jobs += [(b, rng.random(), "solve", real) for b in [b for b in fast if b["pre"]["n"] - b["pre"]["j"] >= 1][:12 if q else 120]]
    traces = [jump_play(j) for j in jobs]
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.reject(ctx.validate("ShockTrace", TRACE_CFG.format(
        "INVARIANTS MassFlux MomentumFlux Slower Compressed TwiceRestores RestUnchanged\n"), traces), "shock jump")


# --- candidates and result files ----------------------------------------------
LEVEL = {0: float("nan"), 1: .5, 2: 1., 3: 2., 4: 5., 5: 9.5, 6: 10., 7: 12.}


def column(prof, side, rng, lo=1., hi=10., angle=40.):
    """Angles and states with the velocities and angles a profile stands for."""
    n = len(prof)
    level = dict(LEVEL)
    level.update({1: lo / 2, 2: lo, 3: lo + (hi - lo) / 8, 4: lo + (hi - lo) / 4, 5: hi - (hi - lo) / 16, 6: hi, 7: hi * 1.25})
    deg, below, above = [], iter(np.sort([rng.uniform(1, angle - 1e-6) for _ in range(n)])), \
        iter(np.sort([rng.uniform(angle + 1e-6, 89) for _ in range(n)]))
    for s in side:
        deg.append({1: lambda: next(below), 2: lambda: angle, 3: lambda: next(above)}[s]())
    values = np.array([[rng.uniform(-3, 3) for _ in range(11)] for _ in range(n)])
    values[:, V] = [level[x] for x in prof]
    values[:, RHO] = abs(values[:, RHO]) + .5
    return np.radians(deg), values


def choose(b, rng):
    """Which points of a profile the real code would try."""
    lims = rng.choice([{}, dict(min_v_θ_pre=2., max_v_θ_pre=6.), dict(min_angle=55), dict(min_v_θ_pre=.25, max_v_θ_pre=1., min_angle=10)])
    kw = dict(lims)
    if not b["postmax"] or rng.getrandbits(1):
        kw["post_max"] = b["postmax"]
    angles, values = column(b["prof"], b["side"], rng, lims.get("min_v_θ_pre", 1.), lims.get("max_v_θ_pre", 10.), lims.get("min_angle", 40.))
    before = angles.tobytes(), values.tobytes()
    a, v = find_shock_test_values(SimpleNamespace(angles=angles, solution=values), **kw)
    tried = [int(np.argmin(abs(angles - x))) + 1 for x in a]
    ok = (len(a) == len(v) and all(angles[i - 1] == x for i, x in zip(tried, a))
          and all(np.array_equal(values[i - 1], row) for i, row in zip(tried, v)) and before == (angles.tobytes(), values.tobytes()))
    return dict(ev="Chosen", tried=tried, values=bool(ok))


def scripted(play):
    """solution() as the plan has it, told which candidate it is for by the angle it starts at."""
    def stub(soln_input, initial_conditions, *, modified_initial_conditions=None, is_post_shock_only=False, **kw):
        start = modified_initial_conditions.angles[0]
        i = int(np.argmin(abs(play.angles - start))) + 1
        how = play.outcome[i - 1]
        if how == "error":
            raise SolverError("scripted")
        s = tokens.solution(4 * i + (2 if how == "short" else 3))
        s.is_post_shock_only = is_post_shock_only
        if how == "unsaveable":
            s.flag = object()
        play.current = i
        return s
    return stub


def read_shock(path, play):
    try:
        with h5open(path, registries, mode="r") as f:
            run = f["run"]
            fin = run.final_solution
            tok = tokens.project(fin)
            keys = list(run.solutions)
            c = {k: getattr(run.config_input, k) for k in vars(tokens.config()) if not k.startswith("_")}
            want = {k: getattr(play.config, k) for k in c}
            return dict(readable=True, of=tok // 4, post=bool(run.is_post_shock_only), solpost=bool(fin.is_post_shock_only),
                        based=bool(run.based_on_solution_filename == str(play.src) and run.based_on_solution_solution_name == play.name),
                        sols=len(keys), final=bool(tok % 4 == 3 and tokens.project(run.solutions[keys[0]]) == tok),
                        settings=bool(c == want and run.sonic_method == "single" and run.config_filename == "the.cfg"))
    except Exception as e:
        return dict(readable=False, of=BAD, post=False, solpost=False, based=False, sols=0, final=False, settings=False, why=repr(e)[:200])


class Pool(Serial):
    """Runs the tasks as the schedule says, each on its own pickled copy (as worker processes would, chunk by chunk)."""
    def __init__(self, play):
        self.play = play

    def imap(self, func, iterable, chunksize=1):
        return self.play.results(func, list(iterable), True, chunksize)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self.play.results(func, list(iterable), False, chunksize)

    def map(self, func, iterable, chunksize=None):
        return list(self.play.results(func, list(iterable), True, chunksize or 1))


class Play:
    def __init__(self, ctx, b, rng):
        self.b, self.rng = b, rng
        self.dir = ctx.fresh("shock")
        (self.dir / "shock_tests").mkdir()
        self.outcome = b["outcome"]
        self.angles, values = column(b["prof"], b["side"], rng)
        self.name = rng.choice(["0", "final", "latest"])
        self.src = self.dir / "source.hdf5"
        self.config = tokens.config(label="a label")
        si = tokens.soln_input(use_E_r=False)
        ic = InitialConditions(norm_kepler_sq=1., a_0=1., γ=.5, init_con=np.arange(11.), angles=self.angles)
        soln = Solution(solution_input=si, initial_conditions=ic, flag=0, coordinate_system="c", internal_data=None,
                        angles=self.angles, solution=values, t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None)
        run = Run(config_input=self.config, config_filename="the.cfg", disc_solver_version="0", float_type="float64", sonic_method="single")
        with h5open(self.src, registries, mode="x") as f:
            f["run"] = run
            run.solutions.add_solution(soln)
            if self.name == "0":
                other = tokens.solution(3)
                run.solutions.add_solution(other)
                run.final_solution = other
            else:
                run.final_solution = soln
        self.digest = digest(self.src)
        self.known = {}
        self.log = [dict(ev="Config", prof=b["prof"], side=b["side"], postmax=True, outcome=b["outcome"], w=b["w"])]

    def files(self):
        return {p.name: digest(p) for p in self.dir.rglob("*") if p.is_file() and p.suffix not in (".png", ".log") and p != self.src}

    def path(self, name):
        return next(p for p in self.dir.rglob(name))

    def do(self, copies, f, items, k, chunksize):
        c = k // chunksize
        if c not in copies:
            copies[c] = pickle.loads(pickle.dumps(f))
        self.current = None
        start = len(self.log)
        ev = dict(ev="Try", i=int(np.argmin(abs(self.angles - items[k][0]))) + 1, new=[], unchanged=True)
        self.log.insert(start, ev)
        try:
            res, err = pickle.loads(pickle.dumps(copies[c](pickle.loads(pickle.dumps(items[k]))))), None
        except Exception as e:
            res, err = None, e
            ev["raised"] = repr(e)[:200]
        now = self.files()
        ev["unchanged"] = all(now.get(n) == v for n, v in self.known.items()) and digest(self.src) == self.digest
        ev["new"] = [read_shock(self.path(n), self) for n in now if n not in self.known]
        self.known = now
        return res, err

    def results(self, f, items, ordered, chunksize):
        """Tasks run in the order of the schedule, by named workers whose clocks are as coarse as can be."""
        copies, res, order = {}, {}, []
        idx = {int(np.argmin(abs(self.angles - x[0]))) + 1: k for k, x in enumerate(items)}
        steps = [idx[i] for i in self.b["steps"] if i in idx]
        steps += [k for k in range(len(items)) if k not in steps]
        w = self.b["w"]
        slot_of, nxt, times = {}, 0, {}
        for s in range(min(w, len(items))):
            slot_of[nxt] = s
            nxt += 1
        me = multiprocessing.current_process()
        old = me.name
        for k in steps:
            s = slot_of.get(k, 0)
            times[s] = times.get(s, 0) + 1
            me.name = f"ForkPoolWorker-{s + 1}"
            try:
                with mock.patch.object(arrow, "now", lambda *a, t=times[s], **kw: arrow.Arrow(2020, 1, 1, 0, 0, t)):
                    res[k] = self.do(copies, f, items, k, chunksize)
            finally:
                me.name = old
            order.append(k)
            if nxt < len(items):
                slot_of[nxt] = s
                nxt += 1
        for k in (range(len(items)) if ordered else order):
            r, err = res[k]
            if err is not None:
                raise err
            yield r

    def savefig(self, *a, **k):
        i = self.current
        if i is not None and self.outcome[i - 1] == "noplot":
            raise OSError("no space left (scripted)")

    def run(self, chdir):
        os.chdir(self.dir)
        try:
            with time_limit(120), swallow_output(), replaced(solution, scripted(self)), \
                    replaced(multiprocessing.Pool, lambda *a, **k: Pool(self)), \
                    mock.patch.object(matplotlib.figure.Figure, "savefig", lambda fig, *a, **k: self.savefig(*a, **k)):
                shock_from_file(self.rng.choice([str, Path])(self.src), soln_range=self.name, nworkers=self.b["w"])
        except (Exception, SystemExit, Hang) as e:
            self.log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
            return self.log
        finally:
            os.chdir(chdir)
        self.log.append(dict(ev="End", **self.end()))
        return self.log

    def end(self):
        recs = [read_shock(self.path(n), self) for n in sorted(self.files())]
        return dict(files=[r for r in recs if r["readable"]], unchanged=bool(digest(self.src) == self.digest))

    def real(self):
        """The same with real worker processes; only the end is seen."""
        a = dict(src=str(self.src), name=self.name, w=self.b["w"], outcome=self.outcome, angles=[float(x) for x in self.angles])
        env = dict(os.environ, PYTHONIOENCODING="utf-8", PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run([sys.executable, "-c", REAL.format(h=str(VERIF / "harness")), json.dumps(a)], capture_output=True,
                               text=True, timeout=180, cwd=self.dir, env=env, encoding="utf-8")
        except subprocess.TimeoutExpired:
            self.log.append(dict(ev="UnexpectedError", what="no result after 180 s"))
            return self.log
        if r.returncode:
            self.log.append(dict(ev="UnexpectedError", what=r.stderr[-400:]))
            return self.log
        self.log.append(dict(ev="Whole", **self.end()))
        return self.log


REAL = """
import sys, json
sys.path[:0] = [{h!r}]
import warnings; warnings.simplefilter("ignore")
from types import SimpleNamespace
from unittest import mock
import numpy as np, matplotlib.figure
import shock
from vlib import replaced
a = json.loads(sys.argv[1])
play = SimpleNamespace(angles=np.array(a["angles"]), outcome=a["outcome"], current=None)
def savefig(*x, **k):
    if play.current is not None and play.outcome[play.current - 1] == "noplot":
        raise OSError("scripted")
with replaced(shock.solution, shock.scripted(play), shock), mock.patch.object(matplotlib.figure.Figure, "savefig", savefig):
    shock.shock_from_file(a["src"], soln_range=a["name"], nworkers=a["w"])
"""

RUN_CFG = """SPECIFICATION MCSpec
CONSTANTS MaxN = {n} MaxW = {w} Runs = {r}
INVARIANTS FilesAreUsable AllTried OnlyCandidates Strict AfterPeak
{extra}
CHECK_DEADLOCK FALSE
"""


def random_run(rng):
    n = rng.randint(3, 8)
    prof = [rng.choice([1, 3, 4, 5]) for _ in range(n)]
    prof[rng.randint(0, n // 2 - 1)] = rng.choice([6, 7])
    side = sorted(rng.choice([1, 3, 3, 3]) for _ in range(n))
    top = max(prof)
    peak = max(i for i in range(n) if prof[i] == top)
    prof = [x if x < top or i == peak else 1 for i, x in enumerate(prof)]
    cands = [i + 1 for i in range(n) if prof[i] in (3, 4, 5) and side[i] == 3 and i > peak]
    outcome = [rng.choice(["ok", "ok", "short", "error", "unsaveable", "noplot"]) for _ in range(n)]
    w, steps, done = rng.randint(1, 4), [], set()
    while len(steps) < len(cands):
        can = [i for i in cands if i not in done and len([j for j in cands if j < i and j not in done]) < w]
        i = rng.choice(can)
        done.add(i)
        steps.append(i)
    return dict(prof=prof, side=side, postmax=True, outcome=outcome, w=w, steps=steps)


def run_search(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    ctx.model("ShockRunMC", RUN_CFG.format(n=4, w=3, r="TRUE", extra="PROPERTY FilesOnlyGrow\nVIEW vars"), name="exhaustive")
    profs = ctx.generate("ShockRunMC", RUN_CFG.format(n=3 if q else 4, w=1, r="FALSE", extra="CONSTRAINT EmitProfile"), name="profiles")
    traces = []
    for b in profs:
        log = [dict(ev="Config", prof=b["prof"], side=b["side"], postmax=b["postmax"], outcome=["ok"] * len(b["prof"]), w=1)]
        try:
            with time_limit(10), swallow_output():
                log.append(choose(b, rng))
        except (Exception, SystemExit, Hang) as e:
            log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
        traces.append(log)
    ctx.reject(ctx.validate("ShockRunTrace", TRACE_CFG.format(""), traces, name="candidates"), "shock candidates")
    behs = ctx.generate("ShockRunMC", RUN_CFG.format(n=3, w=2, r="TRUE", extra="CONSTRAINT Emit"), name="runs")
    rng.shuffle(behs)
    behs = behs[:20 if q else 300] + [random_run(rng) for _ in range(20 if q else 300)]
    here = os.getcwd()
    traces = [Play(ctx, b, rng).run(here) for b in behs]
    for b in [random_run(rng) for _ in range(2 if q else 20)]:
        traces.append(Play(ctx, b, rng).real())
        behs.append(b)
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.reject(ctx.validate("ShockRunTrace", TRACE_CFG.format("INVARIANTS FilesAreUsable AllTried OnlyCandidates\n"), traces,
                            meta=behs, name="runs"), "shock search")
