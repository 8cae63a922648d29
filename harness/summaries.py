"""Summaries of many result files (Summary) made by the real commands."""
import contextlib
import csv
import io
import math
import os
import random
import sys
from pathlib import Path
from unittest import mock

import h5py
from h5preserve import open as h5open

from disc_solver.analyse.stats import dump_csv_inputs_main, stats_main
from disc_solver.file_format import Run, registries

import tokens
from selecting import FINAL, printed, tok, untok
from vlib import TRACE_CFG, Hang, ds_modules, pmap, swallow_output, time_limit

BAD = -999
SLOTS = [1, 2, 3, 4]


def failing(t, how):
    """A solution whose statistics cannot be computed."""
    if how == 0:
        return tokens.solution(t, n=1)
    s = tokens.solution(t)
    if how == 1:
        s.initial_conditions = None
    else:
        s.solution = s.solution[:, :3]
    return s


def build(job):
    path, slot, f, seed, kind = job
    rng = random.Random(seed)
    if f["n"] == -1:
        if kind == "garbage":
            Path(path).write_bytes(bytes(rng.randrange(256) for _ in range(3000)))
        elif kind == "empty":
            Path(path).write_bytes(b"")
        elif kind == "directory":
            os.mkdir(path)
        elif kind == "foreign":
            with h5py.File(path, "x") as h:
                h["something"] = [1, 2, 3]
        elif kind == "truncated":
            build((path, slot, dict(n=1, fin=True, bad=[]), seed, None))
            data = Path(path).read_bytes()
            Path(path).write_bytes(data[:len(data) // 3])
        return
    make = lambda k: failing(tok(slot, k), rng.randrange(3)) if k in f["bad"] else tokens.solution(tok(slot, k))
    run = Run(config_input=tokens.config(label="a label"), config_filename="c", disc_solver_version="0", float_type="float64",
              sonic_method="single")
    with h5open(path, registries, mode="x") as h:
        h["run"] = run
        for k in range(f["n"]):
            run.solutions.add_solution(make(k))
        run.final_solution = make(FINAL) if f["fin"] else None
        run.finalise()


@contextlib.contextmanager
def from_stdin(stream):
    """Standard input, whichever way the code under test refers to it."""
    old = [(m, k) for m in ds_modules() for k, v in list(vars(m).items()) if v is sys.__stdin__]
    for m, k in old:
        setattr(m, k, stream)
    try:
        with mock.patch.object(sys, "stdin", stream):
            yield
    finally:
        for m, k in old:
            setattr(m, k, sys.__stdin__)


def play(job):
    files, paths, slots, seed, tmp = job
    rng = random.Random(seed)
    stats = bool(rng.getrandbits(1))
    log = [dict(ev="Config", files=files if stats else [dict(f, bad=[]) for f in files])]
    try:
        with time_limit(120), swallow_output():
            for p in paths.values():
                if os.path.isfile(p):
                    before = None
            before = {p: Path(p).read_bytes() for p in paths.values() if os.path.isfile(p)}
            names = [paths[f["name"]] for f in files]
            k = rng.choice([len(names), len(names), rng.randint(0, len(names))])
            argv = list(names[:k])
            stdin = io.StringIO("".join(n + rng.choice(["\n", "\n", " \n"]) for n in names[k:]))
            if k < len(names) or rng.getrandbits(1):
                argv.append("--with-stdin")
            out = f"{tmp}.csv"
            to_file = bool(rng.getrandbits(1))
            if to_file:
                argv += ["--file", out]
            with from_stdin(stdin):
                text = printed(stats_main if stats else dump_csv_inputs_main, argv)
            if to_file:
                text = Path(out).read_text()
            rows = list(csv.reader(io.StringIO(text, newline="")))
            header = rows[0] if rows else []
            headers = sum(r == header for r in rows)
            back = {paths[n]: n for n in paths}
            for r in rows[1:]:
                if r == header:
                    continue
                d = dict(zip(header, r))
                slot, num = untok(float(d["γ"]), SLOTS)
                name = next((n for n, s in slots.items() if s == slot), 0)
                ok = len(r) == len(header) and d["v_rin_on_c_s"] == d["γ"]
                if stats:
                    t = float(d["γ"])
                    ok = ok and back.get(d["filename"]) == name and d["solution_name"] == ("final" if num == FINAL else str(num)) \
                        and float(d["max_sonic_mach"]) == t and t - 1e-6 <= math.radians(float(d["max_slow_mach_angle_degrees"])) <= t + 1 + 1e-6
                log.append(dict(ev="Row", name=name, k=num, complete=bool(ok)))
            log.append(dict(ev="End", headers=headers))
            if before != {p: Path(p).read_bytes() for p in before}:
                log.append(dict(ev="FileChanged"))
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    return log


CFG = """SPECIFICATION MCSpec
CONSTANTS MaxFiles = {n}
INVARIANTS NoneTwice InFileOrder NothingMissed
{extra}
CHECK_DEADLOCK FALSE
"""
KINDS = ["garbage", "empty", "directory", "foreign", "truncated", "missing"]


def run_summaries(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    lists = ctx.generate("SummaryMC", CFG.format(n=2, extra="CONSTRAINT Emit"), name="exhaustive")
    shapes = [dict(n=-1, fin=False, bad=[])] * 3
    for n in (0, 1, 2, 3, 11, 12):
        for fin in (True, False):
            ks = list(range(n)) + ([FINAL] if fin else [])
            shapes.append(dict(n=n, fin=fin, bad=[]))
            for _ in range(2):
                shapes.append(dict(n=n, fin=fin, bad=sorted(rng.sample(ks, rng.randint(0, min(3, len(ks)))))))
    lists = rng.sample(lists, min(len(lists), 250 if q else 3000))
    # files by (slot, shape): made once
    d = ctx.fresh("summaries")
    made, builds = {}, []

    def path(slot, f):
        key = repr((slot, f["n"], f["fin"], f["bad"]))
        kind = rng.choice(KINDS) if f["n"] == -1 else None
        if kind:
            key += kind
        if key not in made:
            k = len(made)
            made[key] = str(d / rng.choice([f"file{k}.hdf5", f"a file {k}.hdf5", f"a file {k} é.hdf5", f"{k},{k}.hdf5", f"{k}.5"]))
            builds.append((made[key], slot, f, rng.random(), kind))
        return made[key]
    for _ in range(150 if q else 2000):
        cat = [dict(rng.choice(shapes), name=i + 1) for i in range(rng.randint(1, 4))]
        lists.append([rng.choice(cat) for _ in range(rng.randint(1, 5))])
    jobs = []
    for i, fs in enumerate(lists):
        names = sorted({f["name"] for f in fs})
        slots = dict(zip(names, rng.sample(SLOTS, len(names))))
        paths = {f["name"]: None for f in fs}
        for f in fs:
            if paths[f["name"]] is None:
                paths[f["name"]] = path(slots[f["name"]], f)
        if len(set(paths.values())) < len(paths):
            continue
        jobs.append((fs, paths, slots, rng.random(), str(d / f"o{i}")))
    pmap(build, builds)
    traces = pmap(play, jobs)
    for t in traces[-2:]:
        ctx.sample(t)
    ctx.reject(ctx.validate("SummaryTrace", TRACE_CFG.format("INVARIANTS NoneTwice InFileOrder\n"), traces), "summary rows")
