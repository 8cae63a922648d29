"""What plots draw (Curves): the real plotting functions on stored solutions of whole numbers, and the figures they return."""
import random
import tempfile

import matplotlib.colors as colors
import matplotlib.pyplot as plt
import numpy as np
from h5preserve import open as h5open

from disc_solver.analyse.acc_plot import ACC_CONSTANT, WIND_CONSTANT, acc_plot
from disc_solver.analyse.combine_plot import combine_plot
from disc_solver.analyse.compare_plot import compare_plot
from disc_solver.analyse.conserve_plot import conserve_plot
from disc_solver.analyse.derivs_plot import derivs_plot
from disc_solver.analyse.diverge_plot import diverge_plot
from disc_solver.analyse.params_plot import params_plot
from disc_solver.analyse.phys_ratio_plot import plot as ratio_plot
from disc_solver.analyse.plot import plot
from disc_solver.analyse.sonic_ratio_plot import plot as sonic_plot
from disc_solver.analyse.surface_density_plot import surface_density_plot
from disc_solver.analyse.v_deriv_cmp import plot as v_deriv_plot
from disc_solver.analyse.vert_plot import plot as vert_plot
from disc_solver.file_format import InitialConditions, InternalData, Run, registries
from disc_solver.utils import ODEIndex, DiscSolverError, convert_spherical_to_cylindrical, get_normalisation

import tokens
from plots import IDS
from vlib import TRACE_CFG, Hang, pmap, swallow_output, time_limit

BAD = -999999
SINGLE = {"plot": plot, "derivs": derivs_plot, "params": params_plot, "combine": combine_plot, "acc": acc_plot, "surface": surface_density_plot,
          "vert": vert_plot}
WHOLE = {"diverge": diverge_plot, "conserve": conserve_plot}
MANY = {"compare": compare_plot, "sonic": sonic_plot, "vderiv": v_deriv_plot, "ratio": ratio_plot}
OPTIONS = {"plot": dict(slow="with_slow", alfven="with_alfven", fast="with_fast", sound="with_sonic", nosonic="hide_sonic_angle", noroots="hide_roots"),
           "combine": dict(slow="with_slow", alfven="with_alfven", fast="with_fast", sound="with_sonic"),
           "diverge": dict(slow="with_slow", alfven="with_alfven", fast="with_fast"), "vert": dict(sound="with_sonic"), "derivs": dict(nolog="nolog")}
LABELS = {"$v_r$": "v_r", "$v_φ - v_k$": "v_phi", "$v_θ$": "v_theta", "$ρ$": "rho", "$B_r$": "B_r", "$B_φ$": "B_phi", "$B_θ$": "B_theta", "$c_s$": "sound",
          "sound": "sound", "slow": "slow", "alfven": "alfven", "fast": "fast"}
ANGLES = [k for k in range(0, 720) if float(np.degrees(np.radians(k / 8))) == k / 8]     # in eighths of a degree, exactly so when stored
VARS = list(ODEIndex)[:8]


def wave_speeds(r):
    br, bf, bt, rho = r[0], r[1], r[2], r[6]
    b = br * br + bf * bf + bt * bt
    va, an = b / (4 * np.pi * rho), bt * bt / (4 * np.pi * rho)
    root = np.sqrt((va + 1) ** 2 - 4 * an)
    return np.sqrt((va + 1 - root) / 2), np.sqrt(an), np.sqrt((va + 1 + root) / 2)


def rows_of(rng, n, known):
    """States no two of which (of all solutions: known) have a speed or a Mach number in common."""
    rows = []
    while len(rows) < n:
        r = [rng.choice([-1, 1]) * rng.randint(1, 60) for _ in range(8)]
        r[6] = abs(r[6])
        w = wave_speeds(r)
        v = np.array([*w, abs(r[5]) / w[1], abs(r[5]) / w[2]])
        if not known or np.all(np.abs(np.subtract.outer(v, known)) > 1e-6 * v[:, None]):
            rows.append(r)
            known.extend(v)
    return rows


def signed(rng, n):
    return [[rng.randint(-9, 9) for _ in range(8)] for _ in range(n)]


def solution(rng, useE, steep, small, known):
    """What is stored, in whole numbers."""
    pool = [a for a in ANGLES if a < (640 if steep else 721)]
    n = rng.randint(1, 7)
    grid = sorted(set(rng.sample(pool, n)) | (set([0]) if rng.random() < .7 else set()) | (set(rng.sample(range(0, 9), 3)) & set(ANGLES) if small else set()))
    internal = rng.random() < .85
    m = rng.randint(1, 6)
    k = rng.choice([0, 1, 1, 2])
    sonic = rng.random() < .6
    s = dict(useE=useE, kep=rng.randint(1, 40), grid=grid, rows=rows_of(rng, len(grid), known), hts=[], internal=internal, igrid=[rng.choice(pool) for _ in range(m)],
             params=signed(rng, m), derivs=signed(rng, m), sonic=[rng.choice(pool)] if sonic else [], srow=signed(rng, 1)[0] if sonic else [],
             roots=[rng.choice(pool) for _ in range(k)], rrows=signed(rng, k), eta=rng.randint(1, 9), vin=rng.randint(1, 4), a0=rng.randint(1, 4))
    s["c"], s["va"], s["gamma"] = rng.choice([.03, .05, .125]), rng.choice([.5, .75, 1.25]), rng.choice([.01, .1, .25])
    angles = np.radians(np.array(grid) / 8)
    s["real"] = full(s["rows"], s)
    if useE:
        s["up"], s["height"] = None, None
    else:
        s["height"], up = convert_spherical_to_cylindrical(angles, s["real"], γ=s["gamma"], c_s_on_v_k=s["c"], use_E_r=False)
        s["hts"] = [int(np.floor(1000 * h)) for h in s["height"]]
        up = np.array(up)
        scaling = np.sqrt(1 + s["height"] ** 2)
        up[:, ODEIndex.v_φ] -= np.sqrt(s["kep"] ** 2 / scaling)
        s["up"] = up
    s["table"] = []
    for p, r in enumerate(s["rows"], 1):
        w = wave_speeds(r)
        s["table"] += [(x, p, i) for i, x in enumerate([*w, abs(r[5]) / w[1], abs(r[5]) / w[2]], 1)]
    return s


def full(rows, s):
    out = np.zeros((len(rows), len(ODEIndex)))
    for i, r in enumerate(rows):
        for v, x in zip(VARS, r):
            out[i, v] = x
        out[i, ODEIndex.η_O], out[i, ODEIndex.η_A], out[i, ODEIndex.η_H] = 1, s["eta"], 2
    return out


def store(s, tok):
    real = tokens.solution(tok, n=2)
    angles = np.radians(np.array(s["grid"]) / 8)
    first = s["real"][0].copy()
    first[ODEIndex.v_r] = -s["vin"]
    real.solution_input = tokens.soln_input(γ=s["gamma"], c_s_on_v_k=s["c"], v_a_on_c_s=s["va"], use_E_r=s["useE"])
    real.angles, real.solution = angles, s["real"]
    real.initial_conditions = InitialConditions(norm_kepler_sq=float(s["kep"] ** 2), a_0=float(s["a0"]), γ=s["gamma"], init_con=first, angles=angles)
    real.internal_data = InternalData(angles=list(np.radians(np.array(s["igrid"]) / 8)), params=list(full(s["params"], s)), derivs=list(full(s["derivs"], s))) if s["internal"] else None
    real.sonic_point = np.float64(np.radians(s["sonic"][0] / 8)) if s["sonic"] else None
    real.sonic_point_values = full([s["srow"]], s)[0] if s["sonic"] else None
    real.t_roots = np.radians(np.array(s["roots"]) / 8) if s["roots"] else None
    real.y_roots = full(s["rrows"], s) if s["roots"] else None
    return real


def whole(y):
    k = round(float(y)) if np.isfinite(y) else BAD
    return k if abs(y - k) <= 1e-9 * max(1, abs(y)) else BAD


class Drawing:
    def __init__(self, sols, q):
        self.sols, self.q, self.kind = sols, q, q["kind"]
        self.s = sols[q["who"][0] - 1]

    def x(self, v):
        if self.kind == "vert":
            near = [h for f, h in zip(self.s["height"], self.s["hts"]) if abs(f - v) <= 1e-9 * max(1, abs(f))]
            return near[0] if near else BAD
        return whole(np.float64(v) * 8)

    def scale(self, panel):
        n = get_normalisation(tokens.soln_input(γ=self.s["gamma"], c_s_on_v_k=self.s["c"], v_a_on_c_s=self.s["va"]))
        if self.kind == "combine":
            return [n["v_norm"] / 1e5, n["ρ_norm"], n["B_norm"]][panel - 1]
        if self.kind == "acc":
            return [n["B_norm"] ** 2 * ACC_CONSTANT, n["v_norm"] * n["ρ_norm"] * WIND_CONSTANT][panel - 1]
        return 1

    def y(self, panel, v, lab):
        v = float(v) / self.scale(panel)
        if self.kind == "vert" and lab != "sound":
            near = [p for p, f in enumerate(self.s["up"][:, panel - 1], 1) if abs(f - v) <= 1e-9 * max(1, abs(f))]
            return ("up", near, panel)
        k = whole(v)
        if k != BAD:
            return k
        for i in dict.fromkeys(self.q["who"]):
            for f, p, w in self.sols[i - 1]["table"]:
                if abs(f - v) <= 1e-9 * f:
                    return 1000000 + i * 10000 + p * 100 + w
        return BAD

    def curves(self, fig):
        panels, out, seen, looks = [], [], {}, {}
        axes = [a for a in fig.axes if a.axison]
        for i, ax in enumerate(axes, 1):
            name = next((IDS[t] for t in (ax.get_ylabel(), ax.get_title()) if t in IDS), "")
            panels.append([name, ax.get_yscale()])
            if self.kind == "ratio" and i == 2:
                continue
            for ln in ax.lines:
                xs, ys = np.atleast_1d(ln.get_xdata()), np.atleast_1d(ln.get_ydata())
                col, role = colors.to_hex(ln.get_color()), "line"
                order = seen.setdefault(col, len(seen) + 1)
                if not len(xs):
                    continue
                lab = LABELS.get(ln.get_label(), ln.get_label() if ln.get_label() in self.q["labs"] else "")
                if self.kind == "plot" and ln.get_marker() == "." and col in ("#ff0000", "#000000"):
                    role, lab = ("sonic" if col == "#ff0000" else "root"), ""
                if self.kind == "ratio":
                    who = self.sols[self.q["who"][self.q["labs"].index(lab)] - 1] if lab in self.q["labs"] else dict(c=1, a0=1)
                    out.append(dict(panel=i, role="mark", lab=lab, col=100 * order + looks.setdefault(ln.get_marker(), len(looks) + 1),
                                    pts=[[whole(xs[0] * who["c"]), whole(who["a0"] / ys[0])]]))
                    continue
                pts = []
                for a, b in zip(xs, ys):
                    y = self.y(i, b, lab)
                    x = self.x(a)
                    if isinstance(y, tuple):    # what is there at this height, if it is there
                        p = self.s["hts"].index(x) + 1 if x != BAD else 0
                        y = 1000000 + self.q["who"][0] * 10000 + p * 100 + 10 + i if p in y[1] else BAD
                    pts.append([x, y])
                col = order if self.kind in WHOLE or self.kind in MANY else 0
                same = [c for c in out if c["panel"] == i and c["role"] == role != "line"]
                if same:       # marks drawn one by one
                    same[0]["pts"] += pts
                else:
                    out.append(dict(panel=i, role=role, lab=lab, col=col, pts=pts))
        return panels, out


def request(plan, sols, rng):
    """A request of the kind planned, of these solutions."""
    q = dict(plan)
    kind = q["kind"]
    if kind in SINGLE:
        q["who"] = [rng.randint(1, len(sols))]
        q["labs"] = [""]
    elif kind in WHOLE:
        q["who"] = list(range(1, len(sols) + 1))
        q["pick"] = kind == "diverge" and rng.random() < .5
        if q["pick"]:
            q["who"] = rng.sample(q["who"], rng.randint(1, len(sols)))
        q["labs"] = [str(i - 1) for i in q["who"]]
    else:
        q["who"] = rng.sample(range(1, len(sols) + 1), len(sols) if rng.random() < .5 else rng.randint(1, len(sols)))
    at = sorted(a for s in sols for a in (s["grid"] if kind not in ("derivs", "params", "vderiv") else s["igrid"]))
    how = rng.random()
    if kind == "vert":
        top = max([int(h / 125) + 2 for i in q["who"] for h in sols[i - 1]["hts"]] or [9])
        q["lo"], q["hi"] = (0, 720) if how < .3 else (0, rng.randint(1, top)) if how < .6 else (rng.randint(0, top), rng.randint(0, top))
    elif how < .3:
        q["lo"], q["hi"] = 0, 720
    elif how < .9:
        q["lo"], q["hi"] = sorted((rng.choice(at), rng.choice(at)))
    else:
        q["lo"], q["hi"] = sorted(rng.randint(0, 720) for _ in range(2))
    if kind in ("compare", "ratio"):       # something is to be seen of each
        bottom = [min(sols[i - 1]["grid"]) for i in q["who"]]
        q["lo"], q["hi"] = min(q["lo"], *bottom, 720), max(q["hi"], *bottom, 0)
    if kind == "vert":        # heights are not whole numbers
        if any(abs(h / 1000 * 8 - round(h / 1000 * 8)) < .05 and h for i in q["who"] for h in sols[i - 1]["hts"]):
            q["lo"], q["hi"] = 0, 200000
    return q


def draw(q, paths, rng):
    """paths: the files, with the solutions in each"""
    kind = q["kind"]
    kw = {v: True for k, v in OPTIONS.get(kind, {}).items() if q[k]}
    if kind in ("plot", "compare") and (q["vlog"] or rng.random() < .3):
        kw["v_θ_scale"] = "log" if q["vlog"] else "linear"
    if (q["lo"], q["hi"]) != (0, 720) or rng.random() < .5:
        kw["start"], kw["stop"] = q["lo"] / 8, q["hi"] / 8
    kw["with_version"] = rng.random() < .5
    if rng.random() < .3:
        kw["title"] = "a title"
    place = {}
    for path, who in paths:
        for n, i in enumerate(who):
            place[i] = (path, str(n))
    if kind in SINGLE:
        path, name = place[q["who"][0]]
        if kind == "plot" and rng.random() < .3:
            kw["portrait"] = True
        return SINGLE[kind](path, soln_range=name, close=False, **kw)
    if kind in WHOLE:
        path = paths[0][0]
        with h5open(path, registries, mode="r") as f:
            solutions = sorted(f["run"].solutions.items(), key=lambda x: int(x[0]))
            if q.get("pick"):
                kw["solution_filter"] = [place[i][1] for i in q["who"]]
            return WHOLE[kind](solutions, filename=path, close=False, **kw)
    return MANY[kind]([place[i] for i in q["who"]], close=False, **kw)


def play(job):
    plans, seed, many = job
    rng = random.Random(seed)
    useE = rng.random() < .3
    n = rng.choice([12, 23, 33]) if many else rng.choice([1, 2, 3, 4, 6])
    steep = any(p["kind"] == "vert" for p in plans)
    known = []
    sols = [solution(rng, useE, steep, any(p["kind"] == "acc" for p in plans), known) for _ in range(n)]
    log = [dict(ev="Config", sols=[{k: v for k, v in s.items() if k not in ("c", "va", "gamma", "real", "up", "height", "table")} for s in sols])]
    try:
        with time_limit(240), swallow_output(), tempfile.TemporaryDirectory() as d:
            # all in one file, or some in another
            two = not many and n > 1 and all(p["kind"] not in WHOLE for p in plans) and rng.random() < .5
            split = rng.randint(1, n - 1) if two else n
            parts = [list(range(1, split + 1)), list(range(split + 1, n + 1))]
            paths = []
            for k, who in enumerate(parts):
                if not who:
                    continue
                path = f"{d}/f{k}.hdf5"
                run = Run(config_input=tokens.config(label="a label"), config_filename="c", disc_solver_version="0", float_type="float64", sonic_method="single",
                          use_E_r=useE)
                with h5open(path, registries, mode="x") as f:
                    f["run"] = run
                    for i in who:
                        run.solutions.add_solution(store(sols[i - 1], i))
                    run.finalise()
                paths.append((path, who))
            for plan in plans:
                q = request(plan, sols, rng)
                if plan["kind"] in MANY:
                    if many:
                        q["who"] = rng.sample(range(1, n + 1), n)
                        q["lo"], q["hi"] = 0, 720
                    q["labs"] = [f"{path}:{who.index(i)}" for i in q["who"] for path, who in paths if i in who]
                ev = dict(ev="Draw", q=q)
                try:
                    fig = draw(q, paths, rng)
                except DiscSolverError:
                    log.append(dict(ev="Refuse", q=q))
                    continue
                ev["panels"], ev["curves"] = Drawing(sols, q).curves(fig)
                log.append(ev)
                plt.close("all")
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    finally:
        plt.close("all")
    return log


MC = """SPECIFICATION MCSpec
INVARIANTS AllOfOne AllInside AllPositive AllColours
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    asks = ctx.generate("CurvesMC", MC, name="requests")
    rng = random.Random(ctx.seed)
    kinds = {}
    for q in asks:
        key = tuple(v for k, v in q.items() if isinstance(v, bool))
        kinds.setdefault(q["kind"], {})[key] = q
    jobs = []
    # every combination of the options of a kind, several kinds in turn in one process
    plans = [q for k in sorted(kinds) for q in kinds[k].values() for _ in range(max(1, (24 if ctx.quick else 200) // len(kinds[k])))]
    ctx.extra["combinations"] = sum(len(v) for v in kinds.values())
    for _ in range(1 if ctx.quick else 8):
        rng.shuffle(plans)
        jobs += [(plans[i:i + 4], rng.random(), False) for i in range(0, len(plans), 4)]
    lots = [q for k in ("diverge", "conserve", "compare", "sonic", "vderiv") for q in kinds[k].values() if not q["fast"]]
    lots = list({q["kind"]: q for q in rng.sample(lots, len(lots))}.values()) if ctx.quick else lots * 3
    jobs += [([q], rng.random(), True) for q in lots]
    traces = pmap(play, jobs)
    for t in traces[:2]:
        ctx.sample(t)
    ctx.extra["plots"] = sum(e["ev"] == "Draw" for t in traces for e in t)
    ctx.extra["refused"] = sum(e["ev"] == "Refuse" for t in traces for e in t)
    ctx.reject(ctx.validate("CurvesTrace", TRACE_CFG.format(""), traces), "drawn")
