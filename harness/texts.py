"""Inputs through all the forms they can take (Texts.tla): text, solver input, config file, batch row, result file."""
import configparser
import csv
import io
import random
import re
import shutil
from fractions import Fraction

import numpy as np
from h5preserve import open as h5open

from disc_solver.analyse.dump_config import dump_cfg
from disc_solver.analyse.dump_csv import dump_csv
from disc_solver.analyse.stats import write_inputs
from disc_solver.file_format import ConfigInput, MCMCVars, Run, SOLUTION_INPUT_FIELDS, registries
from disc_solver.solve.config import get_input_from_conffile
from disc_solver.solve.utils import get_csv_inputs
from formats import BAD, FLAGS, INP, u
from settings import INITIAL, synthetic
from vlib import TRACE_CFG, Hang, pmap, swallow_output, time_limit

REALS = [1.0, 0.0, 0.1, 1 / 3, 0.3, 0.1 + 0.2, 1e-300, 5e-324, 1.7976931348623157e308, -2.5, 123456789.125, 4503599627370497.5,
         1e16, 2 / 7, -1e-7, 0.0001]
INTS = [1, 10000, 7, 0, -3, 10**15, 2**31]
SLICES = [None, slice(5, 17), slice(-20, None), slice(None, 9, 2), slice(0, 0), slice(-1000, -100), slice(None), slice(1, 10, 3),
          slice(None, 4), slice(-5, -1, -2), slice(0, None, 1)]
WORDS = ["v_θ_deriv", "a=b", "x: y", "100%", "%(start)s and %%", "# hash", "; semi", "ünï ∂ φ", "a b  c", "", "[config]", 'say "hi", ok',
         "None", "$HOME ${x}", "'single'", "v_θ_transonic"]
ISREAL = {"start", "stop", "taylor_stop_angle", "relative_tolerance", "absolute_tolerance", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k",
          "eta_O", "eta_H", "eta_A", "gamma", "target_velocity"}
ISINT = {"max_steps", "num_angles", "nwalkers", "iterations", "threads"}


def kind(f):
    return ("real" if f in ISREAL else "int" if f in ISINT else "flag" if f in FLAGS else
            {"mcmc_vars": "vars", "interp_slice": "slice", "interp_range": "optint", "split_method": "word", "label": "word"}.get(f, "optreal"))


def write(f, v, w):
    """Value v of setting f, the w-th way of writing it."""
    k, w = kind(f), w - 1
    if k == "word":
        return WORDS[v - 1]
    if v == 0:
        return ("None", "")[w % 2]
    if k in ("real", "optreal"):
        x = REALS[v - 1]
        forms = [repr(x), str(Fraction(x)), f"{x:.17e}", f" {x!r} ", repr(x).replace("e", "E"), f"{x:.17e}".upper()]
        if x == 1 / 3:
            forms[1] = "1/3"
    elif k in ("int", "optint"):
        x = INTS[v - 1]
        forms = [str(x), f"{x}.0", f"{2 * x}/2", f" {x} ", f"{x}e0", f"{x}0e-1"]
    elif k == "flag":
        forms = (["True", "true", "YES", "on", "1", " True "], ["False", "FALSE", "no", "off", "0", " false "])[v - 1]
    elif k == "vars":
        names = [n for i, n in enumerate(("v_r", "v_a", "v_k")) if v >> i & 1]
        rev = names[::-1]
        forms = [",".join(names), ", ".join(names), ",".join(rev), " , ".join(rev), " " + ",".join(names), ",".join(names + names[:1])]
    else:
        s = SLICES[v]
        forms = [f"slice({s.start}, {s.stop}, {s.step})", f"slice({s.start},{s.stop},{s.step})"]
        if s.step is None and s.start is None and s.stop is not None:
            forms.append(f"{s.stop}")
        elif s.start is not None and s.stop is not None:
            p = [str(x) for x in (s.start, s.stop, s.step) if x is not None]
            forms += [",".join(p), ", ".join(p), " " + ",".join(p) + " "]
    return forms[w % len(forms)]


def index(table, x, start):
    for i, y in enumerate(table):
        if x == y and (x is None) == (y is None):
            return i + start
    return BAD


def of_number(f, x):
    """Which value a solver's number is."""
    k = kind(f)
    if k == "word":
        return index(WORDS, x, 1) if isinstance(x, str) else BAD
    if x is None:
        return 0 if k in ("vars", "slice", "optint", "optreal") else BAD
    if k in ("real", "optreal"):
        return index(REALS, float(x), 1) if isinstance(x, (float, np.floating)) else BAD
    if k in ("int", "optint"):
        return index(INTS, int(x), 1) if isinstance(x, (int, np.integer)) and not isinstance(x, bool) else BAD
    if k == "flag":
        return (1 if x else 2) if isinstance(x, (bool, np.bool_)) else BAD
    if k == "vars":
        return (bool(x.with_v_r) + 2 * bool(x.with_v_a) + 4 * bool(x.with_v_k)) or BAD if isinstance(x, MCMCVars) else BAD
    return index(SLICES, x, 0) if isinstance(x, slice) else BAD


def of_text(f, s):
    """Which value a text denotes (an independent reading of it)."""
    k = kind(f)
    try:
        if k == "word":
            return index(WORDS, s, 1)
        if k in ("vars", "slice", "optint", "optreal") and s in (None, "None", ""):
            return 0
        s = s.strip()
        if k in ("real", "optreal"):
            return index(REALS, float(Fraction(s)), 1)
        if k in ("int", "optint"):
            x = Fraction(s)
            return index(INTS, int(x), 1) if x.denominator == 1 else BAD
        if k == "flag":
            return {**dict.fromkeys(("true", "yes", "on", "1"), 1), **dict.fromkeys(("false", "no", "off", "0"), 2)}.get(s.lower(), BAD)
        if k == "vars":
            names = {x.strip() for x in s.split(",")}
            return sum(1 << i for i, n in enumerate(("v_r", "v_a", "v_k")) if n in names) if names <= {"v_r", "v_a", "v_k"} else BAD
        m = re.fullmatch(r"slice\((.*)\)", s)
        p = [None if x.strip() == "None" else int(x) for x in (m[1] if m else s).split(",")]
        return index(SLICES, slice(*p), 0)
    except Exception:
        return BAD


def look_text(c):
    return {f: of_text(f, getattr(c, u(f))) for f in INP}


def look_solver(i):
    return {f: of_number(f, getattr(i, u(f))) for f in INP}


def look_cfg(path):
    p = configparser.RawConfigParser()
    p.optionxform = str
    p.read(path, encoding="utf8")
    m = {}
    for f in INP:                                # what the file does not say means unset
        section = "initial" if f in INITIAL else "config"
        m[f] = of_text(f, p[section][u(f)]) if u(f) in p[section] else (0 if kind(f) in ("vars", "slice", "optint", "optreal") else BAD)
    return m, of_text("label", p["config"].get("label", "?"))


def look_row(path, header):
    with open(path, newline="", encoding="utf8") as f:
        rows = list(csv.reader(f))
    names = rows.pop(0) if header else list(SOLUTION_INPUT_FIELDS)
    if len(rows) != 1 or len(rows[0]) != len(names) or len(set(names)) != len(names):
        return {}
    d = dict(zip(names, rows[0]))
    return {f: of_text(f, d.get(u(f), "missing")) for f in INP}


def play(beh, d, rng):
    d.mkdir()
    log, n = [], 0
    conf = inp = cfg = row = run = None
    try:
        for st in beh:
            op, n = st["op"], n + 1
            r = dict(ev=op)
            with time_limit(20), swallow_output():
                if op == "given":
                    label, wl = WORDS[st["lb"] - 1], st["lb"]
                    conf = ConfigInput(label=label, **{u(f): write(f, st["v"][f], st["w"][f]) for f in INP})
                    r.update(m=look_text(conf), lb=wl)
                elif op == "tosolver":
                    inp = conf.to_soln_input()
                    r.update(m=look_solver(inp))
                elif op == "totext":
                    conf = inp.to_config_input(label)
                    r.update(m=look_text(conf), lb=of_text("label", conf.label))
                elif op in ("writecfg", "dumpcfg"):
                    cfg = d / f"{n}.cfg"
                    if op == "dumpcfg":
                        dump_cfg(str(run), soln_range=rng.choice(["0", "final", "latest", None]), output_file=str(cfg))
                    else:
                        with open(cfg, "w", encoding="utf8") as out:
                            conf.to_conf_file(out)
                    m, lb = look_cfg(cfg)
                    r.update(m=m, lb=lb)
                elif op == "readcfg":
                    conf = get_input_from_conffile(config_file=cfg)
                    r.update(m=look_text(conf), lb=of_text("label", conf.label))
                elif op in ("writerow", "dumprow"):
                    row = d / f"{n}.csv"
                    header = True
                    if op == "dumprow":
                        header = bool(rng.randrange(2))
                        dump_csv(str(run), soln_range=rng.choice(["0", "final", "latest", None]), output_file=str(row), with_header=header)
                    else:
                        write_inputs([("f", "0", synthetic(inp, 0))], output_file=str(row))
                    r.update(m=look_row(row, header))
                elif op == "readrow":
                    got = get_csv_inputs(str(row), label=label)
                    conf = ConfigInput(**got[0])
                    r.update(m=look_text(conf) if len(got) == 1 else {}, lb=of_text("label", conf.label))
                elif op == "record":
                    run = d / f"{n}.hdf5"
                    new = Run(config_input=conf, config_filename="c", disc_solver_version="1", float_type="f", sonic_method="step",
                              use_E_r=bool(inp.use_E_r))
                    with h5open(run, registries, mode="x") as h:
                        h["run"] = new
                        new.solutions.add_solution(synthetic(inp, 0))
                        new.final_solution = new.solutions["0"]
                elif op in ("loadsolver", "loadtext"):
                    with h5open(run, registries, mode="r") as h:
                        got = h["run"]
                        if op == "loadtext":
                            conf = got.config_input
                            r.update(m=look_text(conf), lb=of_text("label", conf.label))
                        else:
                            inp = (got.final_solution if rng.randrange(2) else got.solutions["0"]).solution_input
                            r.update(m=look_solver(inp))
            log.append(r)
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", op=op, what=repr(e)[:300]))
    shutil.rmtree(d)
    return log


CFG = """SPECIFICATION MCSpec
CONSTANTS Mode = "{mode}" Rounds = {rounds} MaxOps = {ops} NReal = {nr} NInt = {ni} NSlice = {ns} NWord = {nw}
INVARIANTS Meaning
PROPERTIES LabelKept
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    n = dict(nr=len(REALS), ni=len(INTS), ns=len(SLICES) - 1, nw=len(WORDS))
    rounds = 6 * (len(REALS) + 1)
    trace_cfg = TRACE_CFG.format("CONSTANTS NReal = {nr} NInt = {ni} NSlice = {ns} NWord = {nw}\n".format(**n))
    fixed = ctx.generate("TextsMC", CFG.format(mode="fixed", rounds=rounds, ops=13, **n), name="every value and writing of every setting")
    wide = ctx.generate("TextsMC", CFG.format(mode="any", rounds=1, ops=12, **n), simulate=150 if ctx.quick else 4000, depth=13,
                        name="any order of conversions")
    for name, group in (("every value and writing", fixed), ("any order of conversions", wide)):
        d = ctx.fresh("forms")
        ctx.extra[name] = len(group)
        for i in range(0, len(group), 1500):
            traces = pmap(lambda x: play(x[1], d / str(x[0]), random.Random(f"{ctx.seed} {x[0]}")), list(enumerate(group))[i:i + 1500])
            if not i:
                ctx.sample(traces[0][:2])
            ctx.reject(ctx.validate("TextsTrace", trace_cfg, traces, name=name, timeout=900), "forms of the input")
