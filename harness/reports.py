"""What the information command and the dumps say about a run (Report)."""
import csv
import io
import math
import random
import re

import numpy as np
from h5preserve import open as h5open

from disc_solver.analyse.dump_config import dump_cfg, dump_main as dump_cfg_main
from disc_solver.analyse.dump_csv import dump_csv, dump_main as dump_csv_main
from disc_solver.analyse.info import info, info_main
from disc_solver.file_format import (
    ConfigInput, InitialConditions, InternalData, Problems, Run, SOLUTION_INPUT_FIELDS, Solution, registries,
)
from disc_solver.utils import ODEIndex

import formats
import texts
from formats import BAD, ICF, INP, u
from selecting import FINAL, printed, text
from texts import INTS, REALS, SLICES, WORDS, kind, of_text
from vlib import TRACE_CFG, Hang, pmap, swallow_output, time_limit

COORDS = ["spherical midplane 0", "spherical", "sphérical: x", "None"]
VERSIONS = ["0.1", "v1.2+3.gabc", "None"]
METHODS = ["step", "single", "méthode"]
FLAGS = [0, -1, 2, 99, -24]
STATUS = {"Has internal data": "internal", "Has derivatives": "derivs", "Has t_roots": "troots", "Has y_roots": "yroots"}


def setting(f, rng):
    k = kind(f)
    low, high = {"real": (1, len(REALS)), "optreal": (0, len(REALS)), "int": (1, len(INTS)), "optint": (0, len(INTS)), "flag": (1, 2),
                 "vars": (0, 7), "slice": (0, len(SLICES) - 1), "word": (1, len(WORDS))}[k]
    return rng.randint(low, high)


def as_config(m, label, rng):
    return ConfigInput(label=label, **{u(f): texts.write(f, m[f], rng.randint(1, 6)) for f in INP})


def ic_value(f, t):
    """Arrays short enough to be printed in full."""
    if f == "init_con":
        return np.arange(8) / 64 + 300 + t
    if f == "angles":
        return np.arange(4 + t) / 64 + 7 + t
    if f == "a_0" and t == 0:
        return np.float64(np.nan)
    return np.float64(ICF.index(f) + t / 8)


def solution(spec, rng):
    """The solution described, and its sonic point in scale heights (None: none)."""
    inp = as_config(spec["inp"], "x", rng).to_soln_input()
    n = 10
    values = np.zeros((n, 11))
    values[:, ODEIndex.ρ] = 1 / (4 * math.pi)
    values[:, ODEIndex.B_θ] = 1
    unit = rng.choice([.01, .125, 1 / 3])
    angles = np.arange(n) * unit
    top = spec["top"] / 16
    at = None
    if spec["ramp"]:
        values[:, ODEIndex.v_θ] = np.arange(n) * top / (n - 1)
        if top > 1:
            at = (n - 1) / top * unit / float(inp.c_s_on_v_k)
    else:
        values[:, ODEIndex.v_θ] = top
    st = spec["status"]
    ic = {f: ic_value(f, t) for f, t in spec["init"].items()}
    return Solution(
        solution_input=inp, angles=angles, solution=values, flag=st["flag"], coordinate_system=COORDS[st["coord"]],
        internal_data=InternalData(angles=[1.], params=[[1.] * 11], derivs=[[1.] * 11], problems=Problems()) if st["internal"] else None,
        initial_conditions=InitialConditions(**{u(f): v for f, v in ic.items()}),
        t_roots=np.array([.5]) if st["troots"] else None, y_roots=np.ones((1, 11)) if st["yroots"] else None,
        sonic_point=None, sonic_point_values=None, derivatives=np.ones((n, 11)) if st["derivs"] else None), at


def pick(rng, n, fin):
    """A run with n solutions, whatever is in them."""
    specs = []
    tops = rng.sample(range(1, 60), n + 1)
    for i in range(n + fin):
        ramp = bool(rng.getrandbits(1))
        inp = {f: setting(f, rng) for f in INP}
        inp["c_s_on_v_k"] = rng.choice([3, 4, 5, 14, 16])
        specs.append(dict(inp=inp, top=tops[i] if ramp else tops[i], ramp=ramp, init={
            f: rng.randint(0, 2) if f == "a_0" else rng.randint(1, 2) for f in ICF},
            status=dict(flag=rng.choice(FLAGS), coord=rng.randrange(len(COORDS)), internal=bool(rng.getrandbits(1)),
                        derivs=bool(rng.getrandbits(1)), troots=bool(rng.getrandbits(1)), yroots=bool(rng.getrandbits(1)))))
    return specs


def make(path, specs, n, fin, rng):
    """Write the run; what the model knows of it, and its sonic points."""
    own = dict(label=rng.randint(1, len(WORDS)), version=rng.randrange(len(VERSIONS)), method=rng.randrange(len(METHODS)),
               config=rng.randint(1, len(WORDS)), use_E_r=bool(rng.getrandbits(1)), file=True)
    conf = {f: setting(f, rng) for f in INP}
    run = Run(config_input=as_config(conf, WORDS[own["label"] - 1], rng), config_filename=WORDS[own["config"] - 1],
              disc_solver_version=VERSIONS[own["version"]], float_type="float64", sonic_method=METHODS[own["method"]], use_E_r=own["use_E_r"])
    made = [solution(s, rng) for s in specs]
    with h5open(path, registries, mode="x") as f:
        f["run"] = run
        for s, _ in made[:n]:
            run.solutions.add_solution(s)
        run.final_solution = made[n][0] if fin else None
        if n or fin:
            run.finalise()
    points = sorted({at for _, at in made if at is not None})
    order = sorted(range(n), key=lambda i: specs[i]["top"])
    out = []
    for i, (s, (_, at)) in enumerate(zip(specs, made)):
        out.append(dict(inp=s["inp"], init=s["init"], status=s["status"], rank=order.index(i) if i < n else -1,
                        sonic=-1 if at is None else points.index(at)))
    return dict(own=own, conf=conf, sols=out[:n], final=out[n:]), points


# --- reading the output ---------------------------------------------------------
def of_printed(f, s):
    if kind(f) == "vars" and s.startswith("MCMCVars("):
        return (("with_v_r=True" in s) + 2 * ("with_v_a=True" in s) + 4 * ("with_v_k=True" in s)) or BAD
    return of_text(f, s)


def entries(lines):
    """name: value of lines like ' name   : value', values possibly over several lines."""
    out = []
    for line in lines:
        m = re.fullmatch(r" ([^\W\d]\w*) *: (.*)", line)
        if m:
            out.append([m[1], m[2]])
        elif out:
            out[-1][1] += "\n" + line
    return dict(out) if len({k for k, _ in out}) == len(out) else {}


def settings_of(d):
    return {f: of_printed(f, d.pop(u(f), "missing")) for f in INP}


def of_word(table, s):
    return table.index(s) if s in table else BAD


def of_ic(d):
    out = {}
    for f in ICF:
        s = d.pop(u(f), "missing")
        out[f] = BAD
        for t in (0, 1, 2):
            try:
                got = np.array([float(x) for x in s.strip("[]").split()])
                want = np.ravel(ic_value(f, t))
                if f == "init_con":
                    want, got, tail = want, got[:8], got[8:]
                    if len(tail) != 3:
                        continue
                if got.shape == want.shape and np.allclose(got, want, rtol=1e-7, atol=0, equal_nan=True):
                    out[f] = t
                    break
            except ValueError:
                continue
    return out


def show(group, s, path, points):
    """What the text shows, in the terms of the model."""
    lines = s.split("\n")
    if lines.pop() != "":
        return "no end of line"
    if group == "run":
        if lines[0] != "run properties:" or "config:" not in lines:
            return "?"
        k = lines.index("config:")
        head = dict(x.split(": ", 1) for x in lines[1:k])
        conf = entries(lines[k + 1:])
        label = of_text("label", conf.pop("label", "missing"))
        own = dict(label=of_text("label", head.pop("label")), version=of_word(VERSIONS, head.pop("DiscSolver version")),
                   method=of_word(METHODS, head.pop("sonic method")), config=of_text("label", head.pop("config filename")),
                   use_E_r={"True": True, "False": False}.get(head.pop("using E_r"), BAD), file=head.pop("filename") == path)
        count = int(head.pop("number of solutions"))
        conf = settings_of(conf) if label == own["label"] else "label"
        return "more" if head else dict(own=own, conf=conf, count=count)
    if group == "status":
        d = dict(x.split(": ", 1) for x in lines)
        out = dict(flag=int(d.pop("ODE return flag")), coord=of_word(COORDS, d.pop("Coordinate System")))
        out.update({v: {"True": True, "False": False}.get(d.pop(k), BAD) for k, v in STATUS.items()})
        return "more" if d else out
    if group == "input":
        d = entries(lines[1:])
        out = settings_of(d)
        return "more" if d else out
    if group == "initial-conditions":
        d = entries(lines[1:])
        out = of_ic(d)
        return "more" if d else out
    if group == "solutions":
        return [int(x) if x.isdigit() and str(int(x)) == x else BAD for x in lines]
    label, _, at = lines[0].rpartition(": ")
    place = -1 if at == "None" else next((i for i, p in enumerate(points) if abs(float(at) - p) <= 1e-9 * p), BAD)
    return "more" if len(lines) > 1 else dict(label=of_text("label", label), at=place)


def csv_content(path):
    try:
        with open(path, newline="", encoding="utf8") as f:
            rows = list(csv.reader(f))
    except FileNotFoundError:
        return []
    out = []
    for r in rows:
        if r == list(SOLUTION_INPUT_FIELDS):
            out.append(dict(header=True, inp=[]))
        else:
            d = dict(zip(SOLUTION_INPUT_FIELDS, r)) if len(r) == len(SOLUTION_INPUT_FIELDS) else {}
            out.append(dict(header=False, inp={f: of_text(f, d.get(u(f), "missing")) for f in INP}))
    return out


def cfg_content(path):
    if not path.exists():
        return []
    m, label = texts.look_cfg(path)
    return [dict(inp=m, label=label)]


def play(job):
    beh, seed, d = job
    rng = random.Random(seed)
    d.mkdir()
    path = str(d / "run.hdf5")
    n, fin = beh["n"], beh["fin"]
    run, points = make(path, pick(rng, n, fin), n, fin, rng)
    log = [dict(ev="Config", run=run)]
    with open(path, "rb") as f:
        before = f.read()
    try:
        with time_limit(60), swallow_output(), np.errstate(all="ignore"):
            for op in beh["ops"]:
                sel = text(op["sel"], rng)
                by_main = rng.random() < .25
                argv = [path, *([sel] if sel is not None else [])]
                if by_main and sel is not None and sel.startswith("-"):
                    by_main = False
                r = {k: v for k, v in op.items()}
                try:
                    if op["ev"] == "Info":
                        if by_main and sel is not None:
                            s = printed(info_main, [*argv, op["group"]])
                        else:
                            out = io.StringIO()
                            s = printed(lambda _: info(path, group=op["group"], soln_range=sel, output_file=out), [])
                            s += out.getvalue()
                        r["shown"] = show(op["group"], s, path, points)
                    else:
                        out = d / f"{op['file']}"
                        to_stdout = rng.random() < .2
                        if op["ev"] == "Csv":
                            more = ["--with-header"] if op["header"] else []
                            main, fn, kw = dump_csv_main, dump_csv, dict(with_header=op["header"])
                        else:
                            more, main, fn, kw = [], dump_cfg_main, dump_cfg, {}
                        if to_stdout:          # what standard output got goes where the file would be
                            if by_main and sel is not None:
                                s = printed(main, [*argv, *more])
                            else:
                                s = printed(lambda _: fn(path, soln_range=sel, output_file="-", **kw), [])
                            with open(out, "a" if op["ev"] == "Csv" else "w", encoding="utf8", newline="") as f:
                                f.write(s)
                        elif by_main and sel is not None:
                            main([*argv, *more, "--file", str(out)])
                        else:
                            fn(path, soln_range=sel, output_file=str(out), **kw)
                        r["written"] = csv_content(out) if op["ev"] == "Csv" else cfg_content(out)
                except (Exception, SystemExit) as e:
                    r = dict(ev="Failed", sel=op["sel"], what=repr(e)[:200])
                log.append(r)
            with open(path, "rb") as f:
                log.append(dict(ev="Untouched", resultfile=f.read() == before, outputs=dict(
                    csv1=csv_content(d / "csv1"), csv2=csv_content(d / "csv2"), cfg1=cfg_content(d / "cfg1"))))
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    return log


CFG = """SPECIFICATION MCSpec
CONSTANTS Ns = {ns} MaxOps = {ops} Sample = {sample}
INVARIANTS OnlyStored HeadersAsAsked
PROPERTIES RunKept
{extra}
CHECK_DEADLOCK FALSE
"""


def run_reports(ctx):
    q = ctx.quick
    ctx.model("ReportMC", CFG.format(ns="{0, 2}", ops=2, sample="FALSE", extra=""), name="two commands in a row")
    every = ctx.generate("ReportMC", CFG.format(ns="{0, 1, 3, 11}", ops=1, sample="FALSE", extra="CONSTRAINT Emit"), name="every command")
    # single commands share a run: several to one result file, in any order
    rng = random.Random(ctx.seed)
    shapes = {}
    for b in every:
        shapes.setdefault((b["n"], b["fin"]), []).extend(b["ops"])
    behs = []
    for (n, fin), ops in sorted(shapes.items()):
        for _ in range(2 if q else 12):
            rng.shuffle(ops)
            behs += [dict(n=n, fin=fin, ops=ops[i:i + 12]) for i in range(0, len(ops), 12)]
    behs += ctx.generate("ReportMC", CFG.format(ns="{0, 1, 2, 3, 12}", ops=10, sample="TRUE", extra="CONSTRAINT Emit"),
                         simulate=60 if q else 2000, depth=11, name="commands in a row")
    d = ctx.fresh("reports")
    traces = pmap(play, [(b, rng.random(), d / str(i)) for i, b in enumerate(behs)])
    for t in traces[-1:]:
        ctx.sample(t[1:3])
    ctx.reject(ctx.validate("ReportTrace", TRACE_CFG.format("INVARIANT OnlyStored\n"), traces), "reports of a run")
