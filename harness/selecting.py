"""Selecting solutions (Select) in the commands that read result files."""
import csv
import io
import os
import random
import sys
import tempfile
from pathlib import Path

import matplotlib.pyplot as plt
import numpy as np
from h5preserve import open as h5open

from disc_solver.analyse.compare_plot import compare_plot
from disc_solver.analyse.component_plot import plot as component_plot
from disc_solver.analyse.conserve_plot import conserve_plot
from disc_solver.analyse.diverge_plot import diverge_plot, diverge_main
from disc_solver.analyse.conserve_plot import conserve_main
from disc_solver.analyse.dump_config import dump_cfg, dump_main as dump_cfg_main
from disc_solver.analyse.dump_csv import dump_csv, dump_main as dump_csv_main
from disc_solver.analyse.info import info, info_main
from disc_solver.analyse.plot import plot
from disc_solver.analyse.sonic_ratio_plot import plot as sonic_ratio_plot
from disc_solver.analyse.utils import (
    analysis_func_wrapper, analysis_func_wrapper_multisolution, multiple_solution_plotter, single_solution_plotter,
)
from disc_solver.file_format import Run, registries
from disc_solver.solve.resolve import resolve
from disc_solver.utils import get_solutions

import disc_solver.solve as dsolve
import tokens
from unittest import mock
from vlib import TRACE_CFG, Hang, Machinery, pmap, swallow_output, time_limit

FINAL, NOTHING, FAIL, BAD = 100, -1, -2, -999
FAR = 1e9


def tok(slot, k):
    """The token of solution k (or the final one) of the run in this slot."""
    return 40 * slot + (1 + k if k != FINAL else 30)


def untok(t, slots):
    """(slot, number) of a token."""
    s, k = divmod(int(t), 40)
    return [slots.index(s) + 1, FINAL if k == 30 else k - 1] if s in slots else [0, BAD]


def build(path, slot, n, fin):
    run = Run(config_input=tokens.config(label=f"run {slot}"), config_filename="c", disc_solver_version="0", float_type="float64",
              sonic_method="single")
    with h5open(path, registries, mode="x") as f:
        f["run"] = run
        for k in range(n):
            run.solutions.add_solution(tokens.solution(tok(slot, k)))
        run.final_solution = tokens.solution(tok(slot, FINAL)) if fin else None
        run.finalise()


def build_job(job):
    build(*job)


def text(sel, rng):
    """A selector as given to the command."""
    if sel["kind"] == "number":
        return str(sel["k"]) if sel["k"] >= 0 else rng.choice(["77", "007", "00", "-1", "abc", "0.0", "1 ", "first", "last"])
    return None if sel["kind"] == "none" else sel["kind"]


def only(values):
    """The value all these are, or nothing."""
    v = {float(x) for x in np.ravel(values)}
    return v.pop() if len(v) == 1 else BAD


def fieldtext(s, key):
    """The value after 'key:' in printed output."""
    found = [line.partition(":")[2].strip() for line in s.splitlines() if line.partition(":")[0].strip() == key]
    return float(found[0]) if len(found) == 1 else BAD


def printed(main, argv):
    """What a command prints to standard output, however it got hold of it."""
    real = sys.__stdout__
    real.flush()
    keep = os.dup(1)
    with tempfile.TemporaryFile() as f:
        os.dup2(f.fileno(), 1)
        py, sys.stdout = sys.stdout, real
        try:
            r = main(argv)
        finally:
            sys.stdout = py
            real.flush()
            os.dup2(keep, 1)
            os.close(keep)
        if r:
            raise SystemExit(r)
        f.seek(0)
        return f.read().decode()


def lines_of(fig, ax=0):
    """(label, token) of the lines of a figure."""
    return [(ln.get_label(), only(ln.get_ydata())) for ln in fig.axes[ax].lines]


class Reader:
    def __init__(self, runs, slots, paths, seed, tmp):
        self.runs, self.slots, self.paths, self.rng, self.tmp = runs, slots, paths, random.Random(seed), Path(tmp)
        self.count = 0

    def file(self, r):
        return self.paths[r - 1]

    def fresh(self, suffix):
        self.count += 1
        return self.tmp / f"o{self.count}{suffix}"

    # every way to use one solution gives the token of the solution used
    def w_memory(self, r, sel):
        with h5open(self.file(r), registries, mode="r") as f:
            s = get_solutions(f["run"], sel)
        return None if s is None else tokens.project(s)

    def w_status(self, r, sel):
        out = io.StringIO()
        info(self.file(r), group="status", soln_range=sel, output_file=out)
        return fieldtext(out.getvalue(), "ODE return flag")

    def w_input(self, r, sel):
        out = io.StringIO()
        info(self.file(r), group="input", soln_range=sel, output_file=out)
        return fieldtext(out.getvalue(), "v_rin_on_c_s")

    def w_info_main(self, r, sel):
        return fieldtext(printed(info_main, [self.file(r), sel, "initial-conditions"]), "norm_kepler_sq")

    def w_csv(self, r, sel):
        path = self.fresh(".csv")
        try:
            if self.rng.getrandbits(1) and sel is not None and not sel.startswith("-"):
                printed(dump_csv_main, [self.file(r), sel, "--file", str(path), "--with-header"])
            else:
                dump_csv(self.file(r), soln_range=sel, output_file=str(path), with_header=True)
        except BaseException:
            if path.exists() and len(path.read_text().splitlines()) > 1:
                return BAD
            raise
        with open(path, newline="") as f:
            return only([row["v_rin_on_c_s"] for row in csv.DictReader(f)])

    def w_cfg(self, r, sel):
        path = self.fresh(".cfg")
        if self.rng.getrandbits(1) and sel is not None and not sel.startswith("-"):
            printed(dump_cfg_main, [self.file(r), sel, "--file", str(path)])
        else:
            dump_cfg(self.file(r), soln_range=sel, output_file=str(path))
        found = [ln.partition("=")[2] for ln in path.read_text().splitlines() if ln.partition("=")[0].strip() == "v_rin_on_c_s"]
        return float(found[0]) if len(found) == 1 else BAD

    def w_plot(self, r, sel):
        fig = plot(self.file(r), soln_range=sel, close=False, stop=FAR, hide_roots=True, hide_sonic_angle=True)
        return only([v for ax in range(3) for _, v in lines_of(fig, ax)])

    def w_component(self, r, sel):
        fig = component_plot(self.file(r), soln_range=sel, close=False, stop=FAR)
        return round(float(np.radians(fig.axes[0].lines[0].get_xdata()[0])))

    def w_wrapped(self, r, sel):
        seen = []

        @analysis_func_wrapper
        def command(run, *, soln_range, filename):
            @single_solution_plotter
            def draw(fig, soln, *, use_E_r):
                seen.append(None if soln is None else tokens.project(soln))
            draw(run, soln_range, filename=filename)
        command(self.file(r), soln_range=sel)
        return seen[0] if len(seen) == 1 else BAD

    def w_resolve(self, r, sel):
        seen = []

        def solver(soln_input, run, *, store_internal):
            seen.append(soln_input.v_rin_on_c_s)
            run.final_solution = None
            return True
        name = self.fresh(".hdf5")
        with mock.patch.dict(dsolve.SONIC_METHOD_MAP, {"single": solver}):
            resolve(output_file=name.name, sonic_method="single", soln_filename=self.file(r), soln_range=sel, output_dir=self.tmp,
                    store_internal=False)
        with h5open(name, registries, mode="r") as f:
            run = f["run"]
            if run.based_on_solution_solution_name != sel or run.based_on_solution_filename != self.file(r):
                return BAD
        return seen[0] if len(seen) == 1 else BAD

    WAYS = ["memory", "status", "input", "info_main", "csv", "cfg", "plot", "component", "wrapped", "resolve"]

    def one(self, r, sel):
        sel = text(sel, self.rng)
        way = self.rng.choice(self.WAYS)
        if sel is None and way in ("info_main", "resolve"):
            way = "memory"
        if sel is not None and sel.startswith("-") and way == "info_main":
            way = "status"
        try:
            t = getattr(self, "w_" + way)(r, sel)
        except (Exception, SystemExit):
            return way, FAIL
        if t is None:
            return way, NOTHING
        s, k = untok(t, self.slots)
        return way, k if s == r else BAD

    # several solutions
    def many(self, pairs):
        pairs = [(self.file(p["run"]), text(p["sel"], self.rng)) for p in pairs]
        way = self.rng.choice(["loaded", "wrapped", "wrapped", "compare", "ratio"])
        seen = []
        if way == "loaded":
            @analysis_func_wrapper_multisolution
            def command(runs, *, num_solutions):
                for run, name, filename in runs:
                    s = get_solutions(run, name)
                    if s is not None:
                        seen.append(tokens.project(s))
        elif way == "wrapped":
            @analysis_func_wrapper_multisolution
            def command(runs, *, num_solutions):
                @multiple_solution_plotter
                def draw(fig, solutions, *, num_solutions):
                    for name, s in solutions:
                        seen.append(tokens.project(s))
                draw(runs, num_solutions=num_solutions)
        else:
            def command(pairs):
                fig = (compare_plot if way == "compare" else sonic_ratio_plot)(pairs, close=False, stop=FAR)
                if way == "compare":
                    for _, t in lines_of(fig):
                        seen.append(t)
                else:
                    # the shown angles start at the token
                    for ln in fig.axes[0].lines:
                        seen.append(round(float(np.radians(ln.get_xdata()[0]))))
        fail = False
        try:
            command(pairs)
        except (Exception, SystemExit):
            fail = True
        res = [untok(t, self.slots) for t in seen]
        return way, res, fail

    def all(self, r, want):
        way = self.rng.choice(["diverge", "diverge_main", "conserve"] if want is None else ["diverge", "diverge_main"])
        figs, out = [], []
        tmp = self.fresh(".png")
        # the figure as it is saved
        def save(fig, *a, **kw):
            figs.append(lines_of(fig))
        try:
            with mock.patch("matplotlib.figure.Figure.savefig", save):
                if way == "diverge_main" or way == "diverge":
                    argv = [self.file(r), "--filename", str(tmp), "--stop", str(FAR), "--hide-legend"]
                    if want is not None:
                        argv += ["--solutions", self.filter(want)]
                    if way == "diverge" and want is None:
                        argv.append("--with-slow")
                    printed(diverge_main, argv)
                else:
                    printed(conserve_main, [self.file(r), "--filename", str(tmp), "--stop", str(FAR)])
        except (Exception, SystemExit):
            return way, None
        if len(figs) != 1:
            return way, [[0, BAD]]
        for label, t in figs[0]:
            if label in ("slow", "alfven", "fast"):
                continue
            if way == "conserve":
                t = round(t ** .5)
            s, k = untok(t, self.slots)
            out.append([s, k if str(k) == label else BAD])
        return way, out

    def filter(self, want):
        """Wanted numbers as text, runs of numbers as ranges now and then."""
        out, i = [], 0
        while i < len(want):
            j = i
            while j + 1 < len(want) and want[j + 1] == want[j] + 1:
                j += 1
            if j > i and self.rng.getrandbits(1):
                out.append(f"{want[i]}-{want[j]}")
                i = j + 1
            else:
                out.append(str(want[i]))
                i += 1
        return self.rng.choice([",", ", "]).join(out)


def lookup(runs, r, sel):
    n, fin, kind = runs[r - 1]["n"], runs[r - 1]["fin"], sel["kind"]
    if kind in ("final", "latest") and fin:
        return FINAL
    if kind == "final":
        return NOTHING
    k = 0 if kind == "none" else sel["k"] if kind == "number" else n - 1
    return k if 0 <= k < n else FAIL


def play(job):
    runs, ops, slots, paths, seed, tmp = job
    os.makedirs(tmp, exist_ok=True)
    log = [dict(ev="Config", runs=runs)]
    rd = Reader(runs, slots, paths, seed, tmp)
    before = [Path(p).read_bytes() for p in paths]
    try:
        with time_limit(120), swallow_output():
            for op in ops:
                plt.close("all")
                if op["ev"] == "One":
                    way, res = rd.one(op["run"], op["sel"])
                    log.append(dict(op, res=res, way=way))
                elif op["ev"] == "Many":
                    way, res, fail = rd.many(op["pairs"])
                    if fail:
                        # which look-up failed: the first unknown one, if everything before it was seen (or nothing is visible at all)
                        bad = [p["run"] for p in op["pairs"] if lookup(runs, p["run"], p["sel"]) == FAIL]
                        if way in ("compare", "ratio"):
                            res = []
                            for p in op["pairs"]:
                                x = lookup(runs, p["run"], p["sel"])
                                if x == FAIL:
                                    break
                                if x != NOTHING:
                                    res.append([p["run"], x])
                        # a comparison of nothing at all may fail too
                        if bad or res or way != "compare":
                            res = res + [[bad[0] if bad else 0, FAIL]]
                    log.append(dict(op, res=res, way=way))
                else:
                    want = op.get("want")
                    way, res = rd.all(op["run"], want)
                    if res is None:
                        # nothing is shown; only an unknown number is a reason
                        res, n = [], runs[op["run"] - 1]["n"]
                        for k in want or []:
                            res.append([op["run"], k if k < n else FAIL])
                            if k >= n:
                                break
                        else:
                            res.append([op["run"], FAIL])
                    log.append(dict(op, res=res, way=way))
            if before != [Path(p).read_bytes() for p in paths]:
                log.append(dict(ev="FileChanged"))
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    finally:
        plt.close("all")
    return log


def play_large(job):
    """Looking up solutions of runs with many of them (in memory, in any stored order)."""
    n, fin, order, sels, seed = job
    rng = random.Random(seed)
    log = [dict(ev="Config", runs=[dict(n=n, fin=fin)])]
    try:
        with time_limit(60):
            run = Run(config_input=tokens.config(), config_filename="c", disc_solver_version="0", float_type="float64",
                      sonic_method="single")
            numbers = list(range(n))
            if order == "text":
                numbers.sort(key=str)
            elif order == "any":
                rng.shuffle(numbers)
            # any objects will do: they are only looked up
            stand_ins = [(k, (k,)) for k in numbers]
            for k, x in stand_ins:
                run.solutions[str(k)] = x
            run.final_solution = (FINAL,) if fin else None
            for sel in sels:
                name = text(sel, rng)
                if name in ("77", "first", "last") or (name and name.strip().isdigit() and sel["k"] < 0):
                    name = "first"
                try:
                    x = get_solutions(run, name)
                    res = NOTHING if x is None else x[0]
                except Exception:
                    res = FAIL
                log.append(dict(ev="One", run=1, sel=sel, res=res))
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    return log


CFG = """SPECIFICATION MCSpec
CONSTANTS
 Ns = {ns}
 MaxPairs = {mp}
INVARIANTS Exists NothingAfterFailure
{extra}
CHECK_DEADLOCK FALSE
"""
NS = [0, 1, 2, 3, 10, 11, 12]


def random_ops(rng, runs):
    def sel():
        kind = rng.choice(["none", "number", "number", "number", "final", "latest", "latest"])
        return dict(kind=kind, k=rng.choice([-1, 0, 1, 2, 3, 8, 9, 10, 11]) if kind == "number" else 0)
    ops = []
    for _ in range(rng.randint(1, 3)):
        r = rng.randint(1, len(runs))
        x = rng.random()
        if x < .4:
            ops.append(dict(ev="One", run=r, sel=sel()))
        elif x < .7:
            ops.append(dict(ev="Many", pairs=[dict(run=rng.randint(1, len(runs)), sel=sel()) for _ in range(rng.randint(1, 4))]))
        elif x < .85:
            ops.append(dict(ev="All", run=r))
        else:
            a = rng.randint(0, 9)
            ops.append(dict(ev="Some", run=r, want=rng.choice([[rng.randint(0, 11) for _ in range(rng.randint(1, 4))], list(range(a, a + 4))])))
    return ops


def run_select(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    ns = NS
    cases = ctx.generate("SelectMC", CFG.format(ns="{0, 1, 2, 11}" if q else "{0, 1, 2, 3, 10, 11, 12}", mp=2, extra="CONSTRAINT Emit"),
                         name="exhaustive", timeout=900)
    ones = [c for c in cases if c["op"]["ev"] != "Many"]
    seen, keep = set(), []
    for c in ones:              # these look at the first run only
        k = repr((c["runs"][0], c["op"]))
        if k not in seen:
            seen.add(k)
            keep.append(c)
    many = [c for c in cases if c["op"]["ev"] == "Many"]
    keep += rng.sample(many, min(len(many), 150 if q else 3000))
    plans = [(c["runs"], [c["op"]]) for c in keep]
    for _ in range(250 if q else 4000):
        runs = [dict(n=rng.choice(ns), fin=bool(rng.getrandbits(1))) for _ in range(rng.randint(1, 3))]
        plans.append((runs, random_ops(rng, runs)))
    d = ctx.fresh("select")
    files = {(s, n, fin): str(d / f"run-{s}-{n}-{int(fin)}.hdf5") for s in (1, 2, 3) for n in ns for fin in (False, True)}
    pmap(build_job, [(p, s, n, fin) for (s, n, fin), p in files.items()])
    jobs = []
    for i, (runs, ops) in enumerate(plans):
        slots = rng.sample([1, 2, 3], len(runs))
        jobs.append((runs, ops, slots, [files[s, r["n"], r["fin"]] for s, r in zip(slots, runs)], rng.random(), str(d / f"p{i}")))
    traces = pmap(play, jobs)
    large = []
    for _ in range(40 if q else 600):
        n = rng.choice([4, 9, 10, 11, 20, 99, 100, 101, 110, 999, 1000, 1001, rng.randint(100, 1200), rng.randint(100, 12000)])
        sels = [dict(kind="latest", k=0), dict(kind="none", k=0), dict(kind="final", k=0)] + [
            dict(kind="number", k=rng.choice([-1, 0, n - 1, n, rng.randrange(n)])) for _ in range(2)]
        large.append((n, rng.random() < .2, rng.choice(["numbers", "text", "text", "any"]), sels, rng.random()))
    traces += pmap(play_large, large)
    for t in traces[-3:]:
        ctx.sample(t)
    ctx.reject(ctx.validate("SelectTrace", TRACE_CFG.format("INVARIANTS Exists NothingAfterFailure\n"), traces), "selected solutions")
