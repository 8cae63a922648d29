"""Replays schedules of Batch into the real batch runners: a scripted solver, and a pool whose workers the schedule drives."""
import csv
import json
import multiprocessing
import os
import pickle
import random
import subprocess
import sys
import time
from pathlib import Path
from unittest import mock

import arrow
import numpy as np
from h5preserve import open as h5open

import disc_solver.solve as dsolve
from disc_solver.file_format import registries, SOLUTION_INPUT_FIELDS
from disc_solver.solve.csvrunner import csvrunner, main as csv_main
from disc_solver.solve.hdf5runner import hdf5runner, main as hdf5_main
from disc_solver.solve.utils import SolverError

import tokens
from runfile import digest
from vlib import TRACE_CFG, Hang, VERIF, replaced, swallow_output, time_limit

BAD = -999
LABEL = "batch label"
METHOD = "single"


def tok(i, s):
    return 10 * i + s


class Solver:
    """Does what the plan says for the input it is given (a method of the solver map; usable in worker processes)."""
    def __init__(self, plan, delays=None, label=LABEL, extra=True):
        self.plan, self.delays, self.label, self.extra = plan, delays, label, {"extra": 5} if extra else {}

    def __call__(self, soln_input, run, *, store_internal, **kwargs):
        i = int(float(soln_input.γ) * 16)
        p = self.plan[i - 1]
        if self.delays:
            time.sleep(self.delays[i - 1])
        # γ, the label, an override and the provenance columns arrive; nothing else is lost
        c = run.config_input
        self.seen = dict(i=i, ok=bool(
            c.label == self.label and float(c.γ) * 16 == i and soln_input.max_steps == 123 and str(c.max_steps) == "123"
            and soln_input.v_rin_on_c_s == 1 + i / 8 and store_internal is True and run.sonic_method == METHOD
            and run.based_on_solution_filename == f"file{i}" and run.based_on_solution_solution_name == f"name{i}"
            and kwargs == self.extra and len(run.solutions) == 0 and not hasattr(run.final_solution, "flag")))
        for s in range(1, p["sols"] + 1):
            run.solutions.add_solution(tokens.solution(tok(i, s)))
        if p["how"] == "error":
            raise SolverError("scripted")
        if p["how"] != "failedleft":
            run.final_solution = run.solutions[str(p["fin"] - 1)] if p["fin"] else None
        return p["how"] in ("found", "nothing")


def write_inputs(path, n, rng):
    fields = [f for f in SOLUTION_INPUT_FIELDS] + ["filename", "solution_name"]
    rng.shuffle(fields)
    with open(path, "w", newline="") as f:
        w = csv.DictWriter(f, fieldnames=fields, dialect="unix")
        w.writeheader()
        for i in range(1, n + 1):
            d = tokens.soln_input(γ=i / 16, v_rin_on_c_s=1 + i / 8).asdict()
            d.update(filename=f"file{i}", solution_name=f"name{i}")
            w.writerow(d)


def expected_row(i, s):
    d = tokens.solution(tok(i, s)).solution_input.asdict()
    return {k: "" if v is None else str(v) for k, v in d.items()}


def read_rows(text, plan, args):
    """Row ids in the text so far, and whether what precedes them is the metadata and one header."""
    lines = text.split("\n")
    whole = text == "" or text.endswith("\n")
    comments = [x for x in lines if x.startswith("#")]
    rest = [x for x in lines if x and not x.startswith("#")]
    head = (bool(rest) and next(csv.reader([rest[0]], dialect="unix")) == list(SOLUTION_INPUT_FIELDS)
            and lines[:len(comments)] == comments
            and {c.lstrip("#").strip() for c in comments} == {f"{k}={v}" for k, v in args.items()})
    rows = []
    for r in csv.DictReader(rest[1:], fieldnames=list(SOLUTION_INPUT_FIELDS), dialect="unix"):
        try:
            t = int(float(r["γ"]))
            i, s = divmod(t, 10)
            ok = dict(r) == expected_row(i, s) and plan[i - 1]["fin"] == s
        except Exception:
            ok = False
        rows.append(i if ok else BAD)
    if not whole:
        rows.append(BAD)
    return rows, bool(head)


def read_file(path, plan):
    bad = dict(id=BAD, sols=0, closed=False, fin=0, meta=False)
    try:
        with h5open(path, registries, mode="r") as f:
            try:
                run = f["run"]
                cfg, sols, final, closed = run.config_input, run.solutions, run.final_solution, True
                meta = (run.sonic_method == METHOD and not run.is_post_shock_only
                        and str(run.based_on_solution_filename).startswith("file")
                        and str(run.based_on_solution_solution_name).startswith("name"))
            except KeyError:
                cfg, sols, final, closed, meta, run = f["run/config_input"], f["run/solutions"], None, False, True, None
            i = int(float(cfg.γ) * 16)
            meta = bool(meta and cfg.label == LABEL and str(cfg.max_steps) == "123" and float(cfg.v_rin_on_c_s) == 1 + i / 8
                        and (run is None or (run.based_on_solution_filename == f"file{i}"
                                             and run.based_on_solution_solution_name == f"name{i}")))
            keys = sorted(int(k) for k in sols)
            toks = [tokens.project(sols[str(k)]) for k in keys]
            if keys != list(range(len(keys))) or toks != [tok(i, s) for s in range(1, len(keys) + 1)]:
                return bad
            fin = tokens.project(final)
            return dict(id=i, sols=len(keys), closed=closed, fin=fin - 10 * i if fin else 0, meta=meta)
    except Exception as e:
        return dict(bad, why=repr(e)[:200])


class Pool:
    """Runs each task (on pickled copies) when the schedule says so."""
    def __init__(self, play, args, kw):
        self.play = play
        play.poolargs = (args, kw)

    def close(self):
        pass
    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def imap(self, func, iterable, chunksize=1):
        return self.play.results(func, list(iterable), ordered=True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self.play.results(func, list(iterable), ordered=False)

    def map(self, func, iterable, chunksize=None):
        return list(self.imap(func, iterable))


class Play:
    def __init__(self, ctx, beh, kind, rng):
        self.dir = ctx.fresh("batch")
        self.beh, self.kind, self.rng = beh, kind, rng
        self.plan = beh["plan"]
        self.out = self.dir / "rows.csv"
        self.files = self.dir / "files"
        self.files.mkdir()
        self.log = [dict(ev="Config", plan=self.plan, w=beh["w"], kind=kind)]
        self.known, self.results_by, self.printed, self.mark = {}, {}, None, 0
        self.order = []

    def look(self):
        if self.kind == "csv":
            rows, head = read_rows(self.out.read_text() if self.out.exists() else "", self.plan,
                                   dict(nworkers=self.beh["w"], store_internal=True, sonic_method=METHOD))
            head = head and self.poolargs == ((self.beh["w"],), {})
            return dict(rows=rows, head=head)
        said = False
        if self.printed is not None:
            new = self.printed.getvalue()[self.mark:]
            self.mark = len(self.printed.getvalue())
            said = bool(new.strip())
        return dict(said=said)

    def do(self, f, items, i):
        pf, px = pickle.dumps(f), pickle.dumps(items[i - 1])
        ev = dict(ev="Do", i=i, input=False, new=[], unchanged=True)
        self.log.append(ev)
        self.solver.seen = None
        try:
            # each worker has its name; the clocks are as coarse as they can be while a worker's own results still differ
            s, me = self.slot(i), multiprocessing.current_process()
            self.times[s] = self.times.get(s, 0) + 1
            old, me.name = me.name, f"ForkPoolWorker-{s}"
            try:
                with swallow_output(), mock.patch.object(arrow, "now", lambda *a, t=self.times[s], **k: arrow.Arrow(2020, 1, 1, 0, 0, t)):
                    res = pickle.loads(pickle.dumps(pickle.loads(pf)(pickle.loads(px))))
            finally:
                me.name = old
            err = None
        except Exception as e:
            res, err = None, e
            ev["raised"] = repr(e)[:200]
        ev["input"] = bool(self.solver.seen and self.solver.seen == dict(i=i, ok=True))
        if self.kind == "files":
            now = {p.name: digest(p) for p in self.files.iterdir()}
            ev["unchanged"] = all(now.get(k) == v for k, v in self.known.items())
            ev["new"] = [read_file(self.files / k, self.plan) for k in now if k not in self.known]
            self.known = now
        self.results_by[i] = (res, err)
        self.order.append(i)

    def slot(self, i):
        """The worker task i runs on: tasks are started in order, each on the first worker that is free."""
        while self.started < i or len(self.slots) < min(self.beh["w"], len(self.plan)):
            self.started += 1
            self.slots[self.started] = self.free.pop(0)
        self.free.append(self.slots[i])
        return self.slots[i]

    def results(self, f, items, ordered):
        n, given = len(items), 0
        self.slots, self.started, self.free, self.times = {}, 0, list(range(1, self.beh["w"] + 1)), {}
        steps = list(self.beh["steps"]) + [x for i in range(1, n + 1) for x in (i, 0)]
        while given < n:
            if given or self.kind == "csv":
                self.log.append(dict(ev="Look", **self.look()))
            else:
                self.look()
            while True:
                st = steps.pop(0)
                if st and st not in self.results_by and st <= n:
                    self.do(f, items, st)
                if not st:
                    nxt = given + 1 if ordered else (self.order[given] if len(self.order) > given else None)
                    if nxt in self.results_by:
                        break
            given += 1
            self.log.append(dict(ev="Take"))
            res, err = self.results_by[nxt]
            if err is not None:
                raise err
            yield res
        self.log.append(dict(ev="Look", **self.look()))

    def run(self):
        inp = self.dir / "inputs.csv"
        write_inputs(inp, len(self.plan), self.rng)
        # from the command line there is no label for rows, and nothing extra
        command = self.rng.random() < .4
        self.solver = Solver(self.plan, label="" if command and self.kind == "csv" else LABEL, extra=not command)
        self.poolargs = None
        argv = ["--sonic-method", METHOD, self.rng.choice(["-n", "--nworkers"]), str(self.beh["w"]), "--override", "max_steps", "123",
                "--store-internal", str(inp)]
        argv += ["--output-file", str(self.out)] if self.kind == "csv" else ["--output-dir", str(self.files), self.rng.choice(["-l", "--label"]), LABEL]
        kw = dict(input_file=inp, nworkers=self.beh["w"], store_internal=True, sonic_method=METHOD,
                  overrides={"max_steps": "123"}, label=LABEL, extra=5)
        with mock.patch.dict(dsolve.SONIC_METHOD_MAP, {METHOD: self.solver}), swallow_output() as (so, _), \
                replaced(multiprocessing.Pool, lambda *a, **k: Pool(self, a, k)):
            self.printed = so
            try:
                with time_limit(60):
                    if command:
                        (csv_main if self.kind == "csv" else hdf5_main)(argv)
                    elif self.kind == "csv":
                        csvrunner(output_file=self.out, **kw)
                    else:
                        hdf5runner(output_dir=self.files, **kw)
            except (Exception, SystemExit, Hang) as e:
                self.log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
                return self.log
        end = dict(ev="End", **self.look())
        end["ids"] = [read_file(p, self.plan)["id"] for p in sorted(self.files.iterdir())]
        self.log.append(end)
        return self.log


REAL = """
import sys, json
sys.path[:0] = [{h!r}]
import warnings; warnings.simplefilter("ignore")
from unittest import mock
import disc_solver.solve as dsolve
from disc_solver.solve.csvrunner import csvrunner
from disc_solver.solve.hdf5runner import hdf5runner
from pathlib import Path
import batch
a = json.loads(sys.argv[1])
kw = dict(input_file=Path(a["inp"]), nworkers=a["w"], store_internal=True, sonic_method=batch.METHOD,
          overrides={{"max_steps": "123"}}, label=batch.LABEL, extra=5)
with mock.patch.dict(dsolve.SONIC_METHOD_MAP, {{batch.METHOD: batch.Solver(a["plan"], a["delays"])}}):
    if a["kind"] == "csv":
        csvrunner(output_file="-", **kw)
    else:
        hdf5runner(output_dir=Path(a["files"]), **kw)
"""


def real_pool(ctx, beh, kind, rng):
    """The same with a real pool of worker processes, rows on standard output; only the end is observed."""
    d = ctx.fresh("real")
    (d / "files").mkdir()
    write_inputs(d / "inputs.csv", len(beh["plan"]), rng)
    delays = [rng.choice([0, .05, .2]) for _ in beh["plan"]]
    arg = dict(inp=str(d / "inputs.csv"), files=str(d / "files"), kind=kind, plan=beh["plan"], w=beh["w"], delays=delays)
    env = dict(os.environ, PYTHONIOENCODING="utf-8", PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run([sys.executable, "-c", REAL.format(h=str(VERIF / "harness")), json.dumps(arg)], capture_output=True,
                           text=True, timeout=180, cwd=d, env=env, encoding="utf-8")
    except subprocess.TimeoutExpired:
        return [dict(ev="Config", plan=beh["plan"], w=beh["w"], kind=kind), dict(ev="UnexpectedError", what="no result after 180 s")]
    log = [dict(ev="Config", plan=beh["plan"], w=beh["w"], kind=kind)]
    if r.returncode:
        return log + [dict(ev="UnexpectedError", what=r.stderr[-400:])]
    rows, head = read_rows(r.stdout, beh["plan"], dict(nworkers=beh["w"], store_internal=True, sonic_method=METHOD))
    files = sorted((read_file(p, beh["plan"]) for p in (d / "files").iterdir()), key=lambda f: f["id"])
    log.append(dict(ev="Whole", rows=rows, head=head, files=files))
    return log


CFG = """SPECIFICATION MCSpec
CONSTANTS MaxN = {n} MaxW = {w} MaxSols = {s}
INVARIANTS Ordered RowsArePrefix AllAtEnd NeverAhead
{extra}
CHECK_DEADLOCK FALSE
"""


def run(ctx, kind):
    q = ctx.quick
    ctx.model("BatchMC", CFG.format(n=3, w=3, s=1, extra="PROPERTY RowsOnlyGrow\nVIEW vars"), name="exhaustive")
    behs = ctx.generate("BatchMC", CFG.format(n=2, w=2, s=1, extra="CONSTRAINT Emit"), name="small")
    rng = random.Random(ctx.seed)
    rng.shuffle(behs)
    n = (120 if kind == "csv" else 45) if q else 1000
    behs = behs[:n]
    extra = random_schedules(rng, n // 2 if q else 800)
    traces, meta = [], []
    for b in behs + extra:
        traces.append(Play(ctx, b, kind, rng).run())
        meta.append(b)
    for b in random_schedules(rng, 2 if q else 20):
        traces.append(real_pool(ctx, b, kind, rng))
        meta.append(dict(b, real=True))
    ctx.sample(traces[-3][:8])
    ctx.reject(ctx.validate("BatchTrace", TRACE_CFG.format(""), traces, meta=meta), "batch run")


def random_schedules(rng, count):
    """Longer schedules than TLC enumerates; validation by BatchTrace decides whether what happened is allowed."""
    out = []
    for _ in range(count):
        n, w = rng.randint(3, 7), rng.randint(1, 4)
        plan = []
        for _ in range(n):
            how = rng.choice(["found", "found", "found", "nothing", "failed", "failedfinal", "failedleft", "error"])
            sols = rng.randint(1 if how in ("found", "failedfinal", "failedleft") else 0, 4)
            plan.append(dict(sols=sols, how=how, fin=rng.randint(1, sols) if how in ("found", "failedfinal") else 0))
        done, taken, steps = set(), 0, []
        while taken < n:
            can = [i for i in range(1, n + 1) if i not in done and len([j for j in range(1, i) if j not in done]) < w]
            if taken + 1 in done and (not can or rng.getrandbits(1)):
                taken += 1
                steps.append(0)
            else:
                i = rng.choice(can)
                done.add(i)
                steps.append(i)
        out.append(dict(plan=plan, w=w, steps=steps))
    return out
