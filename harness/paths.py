"""Stream lines and field lines (Flow) followed by the real code."""
import csv
import itertools
import math
import os
import random
from pathlib import Path
from unittest import mock

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from h5preserve import open as h5open

from disc_solver.analyse.trajectory import follow_trajectory, get_trajectory, plot_main, save_trajectory, traj_main
from disc_solver.critical_points import get_all_sonic_points
from disc_solver.file_format import InitialConditions, Run, Solution, registries
from disc_solver.utils import ODEIndex, get_solutions

import tokens
from vlib import TRACE_CFG, Hang, pmap, swallow_output, time_limit

BAD = -999
UNIT = 1e-8
ROWS = dict(v=(ODEIndex.v_r, ODEIndex.v_θ), B=(ODEIndex.B_r, ODEIndex.B_θ))


def whole(a):
    return int(round(a / UNIT)) if math.isfinite(a) else BAD * 10 ** 6


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


class Solved:
    """A solution whose flow has a direction of its own in every cell, and the paths to follow in it."""
    def __init__(self, beh, other, rng):
        n = len(beh["grid"])
        # now and then a solution which goes on beyond the axis
        wide = rng.random() < .25
        u = rng.uniform(.3, .7) if wide else rng.uniform(.02, .05)
        self.angles = np.array([g * u + rng.uniform(0, u / 4) for g in beh["grid"]])
        self.values = np.array([[rng.uniform(.1, 1.) for _ in range(11)] for _ in range(n)])
        self.dirs, self.start, self.step, self.max, self.way = {}, {}, {}, {}, {}
        for w, b in (("v", beh), ("B", other)):
            way = (b["way"] * n)[:n]
            few = b["max"] <= 5
            base = rng.uniform(.3, 2.8 if few else 1.4)
            out = few and not wide and rng.getrandbits(1)
            psi = [math.nan if k == 9 else (math.pi if out else 0.) if k == 0 else k * (base + .01 * i) for i, k in enumerate(way)]
            size = [rng.uniform(.5, 2) for _ in way]
            r, t = ROWS[w]
            self.values[:, r] = [m * math.cos(p) for m, p in zip(size, psi)]
            self.values[:, t] = [m * math.sin(p) if p not in (0., math.pi) else 0. for m, p in zip(size, psi)]
            self.dirs[w], self.max[w], self.way[w] = psi, b["max"], way
            radius = rng.uniform(.5, 3)
            a = self.angles[0] if b["start"] == b["grid"][0] and rng.random() < .3 else b["start"] * u + rng.uniform(0, u / 4)
            if rng.random() < .15:
                a = 0.
            self.start[w] = (radius * math.cos(a), radius * math.sin(a) if a else 0.)
            self.step[w] = radius * u * rng.uniform(.5, 2.5)
        self.soln = Solution(solution_input=tokens.soln_input(use_E_r=False, γ=rng.uniform(0, .5)), angles=self.angles, solution=self.values, flag=0, coordinate_system="c",
                             internal_data=None, t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None,
                             initial_conditions=InitialConditions(norm_kepler_sq=1., a_0=1., γ=.5, init_con=np.arange(11.), angles=self.angles))

    def config(self, files, taken):
        return dict(ev="Config", cf=dict(grid=[whole(a) for a in self.angles], files=files, taken=sorted(taken), path={
            w: dict(start=whole(math.atan2(*self.start[w][::-1])), max=self.max[w], way=self.way[w]) for w in ("v", "B")}))

    def nearest(self, a):
        return int(np.argmin(abs(self.angles - a)))

    def path(self, w, points, finished=True):
        """The events of one path; points are (values or None, position)."""
        log, psi, step, e, old = [], self.dirs[w], self.step[w], 0, None

        def ahead(e):
            return [whole(math.atan2(old[1] + step * .01 ** k * d[1], old[0] + step * .01 ** k * d[0])) for k in (e, e + 1)]
        for vals, pos in points[:self.max[w] + 2]:       # one too many is enough to see
            x, y = map(float, pos)
            a = math.atan2(y, x)
            if vals is None:
                c = list(range(1, len(psi) + 1))
            elif any(map(math.isnan, vals)):
                c = [i for i, p in enumerate(psi, 1) if math.isnan(p)]
            else:
                t = math.atan2(vals[1], vals[0]) - a
                c = [i for i, p in enumerate(psi, 1) if abs(wrap(p - t)) < 1e-6] if abs(math.hypot(*vals) - 1) < 1e-9 else []
            if old is None:
                at = self.start[w]
                log.append(dict(ev="First", a=whole(a) if abs(at[0] - x) + abs(at[1] - y) <= 1e-12 else BAD, c=c))
            else:
                far = math.hypot(x - old[0], y - old[1])
                if step * .01 ** e < 1e-8:      # too short to tell the direction it went
                    return log
                k = round(math.log(far / step, .01)) if far > 0 else BAD
                if k == BAD or abs(far / (step * .01 ** k) - 1) > 1e-4:
                    k = BAD
                t = math.atan2(y - old[1], x - old[0]) - math.atan2(old[1], old[0])
                full = ahead(e)[0]
                log.append(dict(ev="Next", a=whole(a), c=c, d=[i for i, p in enumerate(psi, 1) if abs(wrap(p - t)) < 2e-3], e=k, full=full,
                                by=whole(wrap(a - math.atan2(old[1], old[0])))))
                e = k if k != BAD else e
            old = (x, y)
            t = a + psi[self.nearest(a)]
            d = (math.cos(t), math.sin(t)) if vals is None else tuple(map(float, vals))
        full, short = ahead(e) if old is not None else (0, 0)
        if finished and (old is None or step * .01 ** (e + 1) >= 1e-8):
            log.append(dict(ev="Close", full=full, short=short))
        elif old is not None:
            return log
        return log

    def kwargs(self, w):
        r, t = ROWS[w]
        return dict(x_start=self.start[w][0], y_start=self.start[w][1], angles=self.angles, r_vals=self.values[:, r], θ_vals=self.values[:, t],
                    radial_power=-1 / 2 if w == "v" else self.soln.solution_input.γ - 5 / 4, max_steps=self.max[w], step_scaling=self.step[w])

    def save(self, path):
        run = Run(config_input=tokens.config(label="a label"), config_filename="conf", disc_solver_version="0", float_type="float64",
                  sonic_method="single", use_E_r=False)
        with h5open(path, registries, mode="x") as f:
            f["run"] = run
            run.solutions.add_solution(self.soln)
            run.finalise()

    def options(self):
        """What the commands are told."""
        out = []
        for w in ("v", "B"):
            out += [f"--{w}-start-position", *map(repr, self.start[w]), f"--{w}-max-steps", str(self.max[w]), f"--{w}-step-scaling", repr(self.step[w])]
        return out


def table(path, names):
    """The comments and the rows of a file."""
    lines = Path(path).read_text().splitlines()
    about = [x for x in lines if x.startswith("#")]
    got = list(csv.DictReader([x for x in lines if not x.startswith("#")], dialect="unix"))
    if any(list(r) != names for r in got):
        got = [dict.fromkeys(names, "nan")]
    return about, got


def play(job):
    beh, other, way, taken, seed, tmp = job
    rng = random.Random(seed)
    s = Solved(beh, other, rng)
    files = way in ("save", "command")
    log = [s.config(files, taken if files else [])]
    old = os.getcwd()
    before = (s.angles.tobytes(), s.values.tobytes())
    try:
        with time_limit(40), swallow_output(), np.errstate(all="ignore"):
            if way in ("follow", "get"):
                for w in ("v", "B"):
                    log.append(dict(ev="Open", w=w, about=True))
                    if way == "follow":
                        points = [(tuple(v), tuple(p)) for v, p in itertools.islice(follow_trajectory(**s.kwargs(w)), s.max[w] + 2)]
                    else:
                        vals, pos = get_trajectory(**s.kwargs(w))
                        points = [(tuple(v), tuple(p)) for v, p in zip(vals, pos)] if len(vals) == len(pos) else [((0, 0), (0, 0))]
                    log += s.path(w, points)
                log.append(dict(ev="Finish", kept=before == (s.angles.tobytes(), s.values.tobytes())))
            elif way == "plot":
                os.makedirs(tmp)
                os.chdir(tmp)
                s.save("soln.hdf5")
                made = []

                def caught(fig, *a, **kw):
                    made.append([(str(ln.get_label()), np.array(ln.get_xdata(), dtype=float), np.array(ln.get_ydata(), dtype=float))
                                 for ln in fig.axes[0].lines])
                highest = bool(rng.getrandbits(1))
                with mock.patch.object(matplotlib.figure.Figure, "savefig", caught):
                    plot_main(["soln.hdf5", "0", *s.options(), "--filename", "out.png", *([] if highest else ["--no-max-v-angle"])])
                plt.close("all")
                lines = {k: (x, y) for k, x, y in made[-1]}
                for w, name in (("v", "$v$ streamline"), ("B", "$B$ field line")):
                    log.append(dict(ev="Open", w=w, about=True))
                    log += s.path(w, [(None, p) for p in zip(*lines[name])])
                    told = [k for k in lines if k.startswith("Max angle in v streamline")]
                    if w == "v" and (highest or told):
                        a = math.radians(float(told[0].split()[-1].rstrip("°"))) if len(told) == 1 and highest else BAD
                        log.append(dict(ev="Highest", a=whole(a)))
                log.append(dict(ev="Finish", kept=True))
            else:
                os.makedirs(tmp)
                os.chdir(tmp)
                s.save("soln.hdf5")
                names = dict(stats="some stats.csv", v="v of it.csv", B="B.csv") if rng.getrandbits(1) else \
                    dict(stats="stats-out.csv", v="v-out.csv", B="B-out.csv")
                for w in taken:
                    Path(names[w]).write_text(f"{w} was here\n")
                content = {p: p.read_bytes() for p in Path().iterdir()}
                failed = None
                try:
                    if way == "command":
                        argv = ["soln.hdf5", "0", *s.options()]
                        if names["v"] != "v-out.csv" or rng.getrandbits(1):
                            for w in names:
                                argv += [f"--{w}-output-file", names[w]]
                        traj_main(argv)
                    else:
                        save_trajectory("soln.hdf5", soln_range="0", **{f"{w}_output_file": names[w] for w in names},
                                        **{f"{w}_start_position": s.start[w] for w in ("v", "B")}, **{f"{w}_max_steps": s.max[w] for w in ("v", "B")},
                                        **{f"{w}_step_scaling": s.step[w] for w in ("v", "B")})
                except FileExistsError as e:
                    failed = os.path.basename(str(e.filename))
                told = lambda about: any("soln_range=" in x for x in about) and any("filename=" in x for x in about)
                for w in ("stats", "v", "B"):
                    if w in taken or not os.path.exists(names[w]):
                        break
                    if w == "stats":
                        about, got = table(names[w], ["slow_angle", "sonic_angle", "alfven_angle", "fast_angle", "max_soln_angle"])
                        want = get_all_sonic_points(s.soln)
                        same = len(got) == 1 and all(
                            (v is None) == (got[0][f"{k}_angle"] == "") and (v is None or np.allclose(float(got[0][f"{k}_angle"]), v, rtol=0, atol=1e-12, equal_nan=True))
                            for k, v in zip(["slow", "sonic", "alfven", "fast"], want))
                        log.append(dict(ev="Stats", max=whole(float(got[0]["max_soln_angle"])), points=same, about=told(about)))
                    else:
                        about, got = table(names[w], [f"{w}_x", f"{w}_y", "x", "y"])
                        log.append(dict(ev="Open", w=w, about=told(about)))
                        log += s.path(w, [((float(r[f"{w}_x"]), float(r[f"{w}_y"])), (float(r["x"]), float(r["y"]))) for r in got])
                kept = all(p.read_bytes() == b for p, b in content.items())
                if failed is not None:
                    log.append(dict(ev="Refuse", w={v: k for k, v in names.items()}.get(failed, "?"), kept=kept))
                    if len(set(Path().iterdir()) - set(content)) != sum(x["ev"] in ("Stats", "Open") for x in log):
                        log.append(dict(ev="UnexpectedFile"))
                else:
                    log.append(dict(ev="Finish", kept=kept))
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    finally:
        os.chdir(old)
        plt.close("all")
    return complete(log)


def complete(log):
    """A path whose steps became too short to see is not judged any further, and neither is what follows it."""
    for i, e in enumerate(log):
        if e["ev"] in ("First", "Next", "Open") and e.get("w") != "stats" and i + 1 < len(log) and log[i + 1]["ev"] in ("Open", "Highest", "Finish", "Refuse"):
            return log[:i + 1]
    return log


MODEL = """SPECIFICATION MCSpec
CONSTANTS Slack = 0 Top = {top} MaxCells = 3 Starts = {{0,1,2,{beyond}}} Maxes = {{0,1,4}}
INVARIANTS Inside NotTooMany OnlyNew FilesInOrder AllOrRefused
PROPERTIES Shorter Ends
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION GenSpec
CONSTANTS Slack = 0 Top = {top} MaxCells = {cells} Starts = {{0,1,2,3,{beyond}}} Maxes = {{0,1,2,5,30,120}}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def run_paths(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    top = 3 if q else 4
    ctx.model("FlowMC", MODEL.format(top=top, beyond=top + 1))
    paths = ctx.generate("FlowMC", GEN.format(top=top, beyond=top + 2, cells=3 if q else 4), name="solutions")
    n = 500 if q else 6000
    known = [x for x in paths if 9 not in x["way"]]
    d = ctx.fresh("paths")
    jobs = []
    for i in range(n):
        way = rng.choice(["follow", "follow", "get", "save", "command", "plot"])
        # the commands look for critical points as well, where the flow must be known; a plot needs something to show
        among = known if way in ("save", "command", "plot") else paths
        if way == "plot":
            among = [x for x in rng.sample(among, min(len(among), 400)) if x["max"] > 0 and x["start"] < x["grid"][-1]]
        b = rng.choice(among)
        o = rng.choice([x for x in rng.sample(among, min(200, len(among))) if x["grid"] == b["grid"] or x["start"] < b["grid"][-1] or way != "plot"])
        if among is not paths:      # nor may the field be radial
            o = dict(o, way=[k or rng.choice([-1, 1]) for k in o["way"]])
        taken = rng.choice([[], [], [], ["stats"], ["v"], ["B"]])
        jobs.append((b, dict(o, grid=b["grid"]), way, taken, rng.random(), str(d / str(i))))
    traces = pmap(play, jobs)
    kinds = {}
    for t in traces:
        for e in t:
            kinds[e["ev"]] = kinds.get(e["ev"], 0) + 1
    ctx.extra["events_by_kind"] = kinds
    ctx.extra["shortened_steps"] = sum(e["ev"] == "Next" and p["ev"] == "Next" and e["e"] != p["e"] for t in traces for p, e in zip(t, t[1:]))
    ctx.sample(min((t for t in traces if len(t) > 12), key=len, default=traces[0]))
    ctx.reject(ctx.validate("FlowTrace", TRACE_CFG.format("CONSTANT Slack = 4\nINVARIANTS Inside NotTooMany OnlyNew FilesInOrder AllOrRefused\n"), traces,
                            meta=[dict(way=j[2], taken=j[3]) for j in jobs]), "flow lines")
