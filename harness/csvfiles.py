"""Batch input files (CsvFile.tla): written by hand and by the program's own commands, read by the real reader."""
import functools
import random
import re
import shutil
from fractions import Fraction
from unittest.mock import patch

import attr
import numpy as np

import disc_solver.solve as ds_solve
import disc_solver.solve.csvrunner as runner
from disc_solver.analyse.dump_csv import dump_csv
from disc_solver.analyse.stats import FIELD_NAMES, write_inputs, write_stats
from disc_solver.file_format import ConfigInput, MCMCVars, Run, SolutionInput, registries
from disc_solver.solve.utils import get_csv_inputs
from disc_solver.utils import nicer_mp_pool
from formats import BAD, FLAGS, INP, INTS, number, text, tok_number, u
from h5preserve import open as h5open
from settings import synthetic
from vlib import TRACE_CFG, Hang, Machinery, pmap, replaced, swallow_output, time_limit

NAMES = {"Sigma": "Σ", "v_t_ends_low": "v_θ_ends_low", "max_slow_mach": "max_slow_mach", "note": "note"}
WORDS = dict(filename={1: "some dir/é.hdf5", 2: "b, c.hdf5"}, solution_name={1: "0", 2: "final"}, label={1: "x", 2: "start", 9: "y"})


def col(c):
    return NAMES.get(c) or u(c)


def cell(c, t, rng):
    if c in INP:
        return rng.choice(["", "None"]) if t == 0 else text(c, t)
    return WORDS[c][t] if c in WORDS else rng.choice(["1.5", "nan", "", "start", "True"])


def denote(f, s):
    """The token of what a text denotes for setting f (an independent reading)."""
    try:
        if f == "split_method":
            return tok_number(f, s)
        s = s.strip()
        if f in FLAGS:
            return {"true": 1, "false": 2}.get(s.lower(), BAD)
        if s in ("", "None"):
            return 0
        if f == "mcmc_vars":
            names = [x.strip() for x in s.split(",")]
            return tok_number(f, MCMCVars(**{"with_" + n: n in names for n in ("v_r", "v_a", "v_k")}))
        if f == "interp_slice":
            m = re.fullmatch(r"slice\((.*)\)", s)
            return tok_number(f, slice(*[None if x.strip() == "None" else int(x) for x in (m[1] if m else s).split(",")]))
        x = Fraction(s)
        return tok_number(f, int(x) if f in INTS else np.float64(float(x)))
    except Exception:
        return BAD


class File:
    def __init__(self, path, rng):
        self.path, self.rng, self.text = path, rng, ""
        self.eol = rng.choice(["\n", "\n", "\r\n"])
        path.write_text("")

    def add(self, line):
        with open(self.path, "a", encoding="utf8", newline="") as f:
            f.write(line + self.eol)

    def row(self, cells):
        rng = self.rng
        def q(s):
            return '"' + s.replace('"', '""') + '"' if s == "" or s[:1] in "# " or re.search(r'[",]', s) or rng.randrange(2) else s
        self.add(",".join(map(q, cells)))


COMMENTS = ["# a comment", "#", "   # indented", "#start,stop", "\t#tab", '#"quoted', "# nworkers=None"]


@functools.cache
def real_solution():
    """A solution good enough to compute statistics of."""
    from disc_solver.solve.single import solver
    inp = ConfigInput(**{u(f): text(f, 9) or "None" for f in INP if f not in FLAGS and f != "gamma"}, γ="0.001", label="x")
    inp = attr.evolve(inp, num_angles="50", mcmc_vars="v_r")
    run = Run(config_input=inp, config_filename="c", disc_solver_version="1", float_type="f", sonic_method="single", use_E_r=False)
    solver(inp.to_soln_input(), run, store_internal=True)
    if run.final_solution is None:
        raise Machinery("no real solution to work with")
    return run.final_solution


def solver_input(vals):
    return SolutionInput(**{u(f): number(f, t) for f, t in vals.items()})


def produce(f, st, k, d, rng):
    who, rows = st["who"], [dict(zip(st["cols"], r)) for r in st["rows"]]
    inps = [solver_input({c: r[c] for c in INP}) for r in rows]
    out = str(f.path)
    if who == "inputs":
        write_inputs([(f"f{i}", "0", synthetic(x, 0)) for i, x in enumerate(inps)], output_file=out)
    elif who == "stats":
        write_stats([(WORDS["filename"][r["filename"]], WORDS["solution_name"][r["solution_name"]],
                      attr.evolve(real_solution(), solution_input=x)) for r, x in zip(rows, inps)], output_file=out)
    elif who == "dump":
        path = d / f"run{k}.hdf5"
        conf = inps[0].to_config_input("x")
        new = Run(config_input=conf, config_filename="c", disc_solver_version="1", float_type="f", sonic_method="step", use_E_r=False)
        with h5open(path, registries, mode="x") as h:
            h["run"] = new
            new.solutions.add_solution(synthetic(inps[0], 0))
            new.final_solution = new.solutions["0"]
        dump_csv(str(path), soln_range=rng.choice(["0", "final", "latest"]), output_file=out, with_header=st["hdr"])
    else:                                        # the batch runner: its inputs come from another file
        src = d / f"in{k}.csv"
        write_inputs([("f", "0", synthetic(x, 0)) for x in inps], output_file=str(src))

        def search(soln_input, run, **kw):
            run.final_solution = synthetic(soln_input, 0)
            return True

        class Pool:
            def __init__(self, *a, **k):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def imap(self, func, iterable, chunksize=1):
                return map(func, iterable)

            def map(self, func, iterable, chunksize=None):
                return list(map(func, iterable))
        with patch.dict(ds_solve.SONIC_METHOD_MAP, step=search), replaced(nicer_mp_pool, Pool):
            runner.csvrunner(output_file=out, input_file=str(src), store_internal=False, sonic_method="step", overrides={})


def read(f, rng):
    label = rng.choice(["", "läbel", "a b"])
    got = get_csv_inputs(str(f.path), label=label)
    out, labelled = [], 0
    names = {u(c): c for c in (*INP, "filename", "solution_name")}
    for x in got:
        x = dict(x)
        labelled += x.pop("label", None) == label
        m = {names.get(n, n): (next((t for t, w in WORDS[n].items() if w == v), BAD) if n in WORDS else
                               denote(names[n], v) if n in names else BAD) for n, v in x.items()}
        if set(INP) <= set(m):                   # complete: what the solver would be given
            inp = ConfigInput(label=label, **{n: v for n, v in x.items() if n not in WORDS}).to_soln_input()
            m.update({c: tok_number(c, getattr(inp, u(c))) for c in INP})
        out.append(m)
    return dict(ev="read", m=out, labelled=labelled)


def play(beh, d, rng):
    d.mkdir()
    log, f, cols = [], File(d / "in.csv", rng), None
    try:
        for k, st in enumerate([*beh, dict(op="read")]):
            with time_limit(20), swallow_output():
                if st["op"] == "line":
                    x = st["x"]
                    if x["k"] == "comment":
                        f.add(rng.choice(COMMENTS))
                    elif x["k"] == "blank":
                        f.add("")
                    elif x["k"] == "header":
                        cols = cols or x["cols"]
                        f.row([col(c) for c in x["cols"]])
                    else:
                        cols = cols or STANDARD
                        cells = {c: cell(c, t, rng) for c, t in zip(cols, x["vals"])}
                        if "filename" in cols and cols[:len(STANDARD)] == STANDARD:
                            # the statistics have more columns than the specification mentions
                            last = col(cols[len(cells) - 1])
                            order = [n for n in FIELD_NAMES[:FIELD_NAMES.index(last) + 1]]
                            named = {col(c): v for c, v in cells.items()}
                            row = [named.get(n, "0.5") for n in order]
                        else:
                            row = list(cells.values())
                        f.row(row + ["7"] * (len(x["vals"]) - len(cells)))
                    log.append(dict(ev="line", x=x))
                elif st["op"] == "produce":
                    cols = cols or (st["cols"] if st["hdr"] else STANDARD if st["rows"] else None)
                    produce(f, st, k, d, rng)
                    log.append(dict(ev="produce", who=st["who"], cols=st["cols"], hdr=st["hdr"], rows=st["rows"]))
                else:
                    log.append(read(f, rng))
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", op=st["op"], what=repr(e)[:300]))
    shutil.rmtree(d)
    return log


STANDARD = ["start", "stop", "taylor_stop_angle", "max_steps", "num_angles", "relative_tolerance", "absolute_tolerance", "gamma",
            "nwalkers", "iterations", "threads", "target_velocity", "split_method", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k",
            "eta_O", "eta_H", "eta_A", "eta_derivs", "jump_before_sonic", "use_taylor_jump", "mcmc_vars", "v_t_sonic_crit",
            "after_sonic", "sonic_interp_size", "interp_range", "interp_slice", "use_E_r"]
CFG = """SPECIFICATION MCSpec
CONSTANTS Mode = "{mode}" MaxOps = {ops}
INVARIANTS OneEach Ordered Indifferent
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    rng = random.Random(ctx.seed)
    real_solution()
    small = ctx.generate("CsvFileMC", CFG.format(mode="small", ops=4 if ctx.quick else 5), name="every arrangement of lines")
    rng.shuffle(small)
    wide = ctx.generate("CsvFileMC", CFG.format(mode="wide", ops=6), simulate=200 if ctx.quick else 4000, depth=7,
                        name="any columns, own commands")
    rng.shuffle(wide)
    for name, group in (("arrangements", small[:1500 if ctx.quick else 40000]), ("any columns, own commands", wide[:300 if ctx.quick else 4000])):
        d = ctx.fresh("csv")
        ctx.extra[name] = len(group)
        for i in range(0, len(group), 4000):
            traces = pmap(lambda x: play(x[1], d / str(x[0]), random.Random(f"{ctx.seed} {x[0]}")), list(enumerate(group))[i:i + 4000])
            if not i:
                ctx.sample(traces[0])
            ctx.reject(ctx.validate("CsvFileTrace", TRACE_CFG.format(""), traces, name=name, timeout=900), "inputs read")
