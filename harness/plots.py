"""Histories of plots (PlotArgs) replayed into the real plotting code."""
import hashlib
import io
import multiprocessing
import random
from pathlib import Path
from types import SimpleNamespace

import matplotlib.pyplot as plt
import numpy as np
from h5preserve import open as h5open

import disc_solver.solve as dsolve
from disc_solver.analyse.acc_plot import acc_plot
from disc_solver.analyse.combine_plot import combine_plot
from disc_solver.analyse.compare_plot import compare_plot
from disc_solver.analyse.component_plot import plot as component_plot
from disc_solver.analyse.derivs_plot import derivs_plot
from disc_solver.analyse.j_e_plot import j_e_plot
from disc_solver.analyse.params_plot import params_plot
from disc_solver.analyse.phys_ratio_plot import plot as phys_ratio_plot
from disc_solver.analyse.plot import plot
from disc_solver.analyse.sonic_ratio_plot import plot as sonic_ratio_plot
from disc_solver.analyse.surface_density_plot import surface_density_plot
from disc_solver.analyse.utils import PlotOrdering, get_common_arguments
from disc_solver.analyse.v_deriv_cmp import plot as v_deriv_plot
from disc_solver.analyse.vert_plot import plot as vert_plot
from disc_solver.file_format import InitialConditions, Run, registries

import tokens
import vlib
from vlib import TRACE_CFG, Hang, Machinery, swallow_output, time_limit

BAD = -999
FAR = 1e9
ORDERINGS = {"B_phi_prime": "B_φ_prime", "E_r": "E_r", "B_phi_prime_vert": "B_φ_prime_vert", "E_r_vert": "E_r_vert"}
IDS = {"$B_r/B_0$": "B_r", "$B_φ/B_0$": "B_phi", "$B_θ/B_0$": "B_theta", "$B_z/B_0$": "B_z", "$v_r/c_s$": "v_r", "$(v_φ - v_k)/c_s$": "v_phi",
       "$v_θ/c_s$": "v_theta", "$v_z/c_s$": "v_z", "$ρ/ρ_0$": "rho", "$B_φ'/B_0$": "B_phi_prime", "$E_r/E_0$": "E_r"}


def whole(x):
    f = np.unique(np.ravel(x))
    return int(f[0]) if len(f) == 1 and f[0] == int(f[0]) else BAD


def answer(q, way):
    cons = SimpleNamespace(norm_kepler_sq=q["kep"] ** 2)
    kw = {}
    if q["scale"] != "linear" or way & 1:
        kw["v_θ_scale"] = q["scale"]
    if q["off"] or way & 2:
        kw["no_v_φ_offset"] = q["off"]
    if q["given"] != -1 or way & 4:
        kw["v_φ_offset"] = None if q["given"] == -1 else q["given"]
    return get_common_arguments(PlotOrdering(ORDERINGS[q["ordering"]]), initial_conditions=cons, **kw)


def entry(e):
    return dict(name=IDS.get(e["name"], "?"), scale=e.get("scale", "linear"), offset=-1 if e.get("offset") is None else whole(e["offset"]),
                legend=bool(e.get("legend")), extras=len(e.get("extras", [])))


def spoil(args, rng):
    """Everything a caller might do to its own list."""
    for e in args:
        if "extras" in e:
            e["extras"].append({"label": "slow", "data": np.zeros(2)})
        e["scale"] = rng.choice(["log", "symlog", "linear"])
        if rng.getrandbits(1):
            e["offset"] = rng.choice([0, 99, 7])
        if rng.getrandbits(1):
            e["name"] = "spoiled"
        e["legend"] = not e.get("legend")
    if rng.getrandbits(1):
        args.pop()


def picture(fig):
    """Everything a figure shows, in short."""
    out = [fig._suptitle.get_text() if fig._suptitle else None, tuple(fig.get_size_inches()), fig.get_facecolor(), fig.dpi]
    for ax in fig.axes:
        out.append((ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), ax.get_xscale(), ax.get_yscale(), ax.get_facecolor(),
                    str(ax.xaxis.label.get_color()), ax.xaxis.label.get_size(), ax.spines['left'].get_edgecolor(), ax.xaxis.get_gridlines()[0].get_visible()))
        for ln in ax.lines:
            out.append((ln.get_label(), ln.get_linestyle(), ln.get_marker(), str(ln.get_color()), ln.get_linewidth(),
                        np.asarray(ln.get_xdata(), dtype=float).tobytes(), np.asarray(ln.get_ydata(), dtype=float).tobytes()))
        lg = ax.get_legend()
        out.append([t.get_text() for t in lg.get_texts()] if lg else None)
    return hashlib.sha256(repr(out).encode()).hexdigest()


def catalogue(a, b):
    """Pictures of two real solutions."""
    one = [(plot, {}), (plot, dict(with_slow=True, with_sonic=True, v_θ_scale="log")), (plot, dict(with_fast=True, with_alfven=True)),
           (plot, dict(mpl_style="default", stop=2, hide_sonic_angle=True)), (vert_plot, {}), (vert_plot, dict(with_sonic=True)),
           (combine_plot, {}), (combine_plot, dict(with_slow=True)), (component_plot, {}), (derivs_plot, {}), (derivs_plot, dict(nolog=True)),
           (params_plot, {}), (j_e_plot, {}), (surface_density_plot, {}), (acc_plot, {})]
    many = [(compare_plot, {}), (compare_plot, dict(v_θ_scale="log", figargs=dict(figsize=(4, 3)))), (sonic_ratio_plot, {}), (v_deriv_plot, {}), (phys_ratio_plot, {})]
    out = [(f, (p,), dict(kw, soln_range="0")) for f, kw in one for p in (a, b)]
    for f, kw in many:
        out += [(f, ([(a, "0"), (b, "0")],), kw), (f, ([(b, "0")],), kw)]
    # these fail
    out += [(plot, (a,), dict(soln_range="0", mpl_style="dark_background")), (plot, (a,), dict(soln_range="5", v_θ_scale="log", mpl_style="dark_background")), (compare_plot, ([(a, "0"), (b, "9")],), {}),
            (component_plot, (a,), dict(soln_range="0", only="nothing"))]
    return out


def draw(item):
    f, args, kw = item
    try:
        fig = f(*args, close=False, **kw)
        return picture(fig)
    except (Exception, SystemExit) as e:
        return "failed " + type(e).__name__
    finally:
        plt.close("all")


def fresh(item):
    with time_limit(120), swallow_output():
        return draw(item)


def fresh_map(fn, items):
    """Every item in a process of its own."""
    vlib._job = (fn, list(items))
    try:
        with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
            return pool.map_async(vlib._do, range(len(vlib._job[1])), chunksize=1).get(timeout=3600)
    finally:
        vlib._job = None


def toksoln(tok, kep):
    s = tokens.solution(tok)
    s.initial_conditions = InitialConditions(norm_kepler_sq=float(kep ** 2), a_0=1., γ=.5, init_con=np.full(11, 1.), angles=s.angles)
    return s


def show(q, path):
    """Draw solutions whose variables are all the same number."""
    run = Run(config_input=tokens.config(label="a label"), config_filename="c", disc_solver_version="0", float_type="float64",
              sonic_method="single")
    with h5open(path, registries, mode="x") as f:
        f["run"] = run
        for t in q["toks"]:
            run.solutions.add_solution(toksoln(t["tok"], t["kep"]))
        run.finalise()
    if q["how"] == "compare":
        fig = compare_plot([(path, str(i)) for i in range(len(q["toks"]))], close=False, stop=FAR, **({"v_θ_scale": "log"} if q["scale"] == "log" else {}))
    else:
        kw = {"with_" + x: True for x in q["extras"]}
        fig = plot(path, soln_range="0", close=False, stop=FAR, hide_roots=True, hide_sonic_angle=True,
                   **kw, **({"v_θ_scale": "log"} if q["scale"] == "log" else {}))
    out = []
    for ax in fig.axes[:8]:
        n = len(q["toks"])
        out.append(dict(name=IDS.get(ax.get_ylabel(), "?"), scale=ax.get_yscale(), at=[whole(ln.get_ydata()) for ln in ax.lines[:n]],
                        extras=["sonic" if ln.get_label() == "sound" else ln.get_label() for ln in ax.lines[n:]]))
    plt.close("all")
    return out


def play(job):
    beh, items, base, seed, tmp = job
    rng = random.Random(seed)
    ids = {}
    number = lambda p: ids.setdefault(p, len(ids) + 1)
    log = [dict(ev="Config", fresh=[number(p) for p in base])]
    held = []
    try:
        with time_limit(300), swallow_output():
            for k, st in enumerate(beh):
                if st["ev"] == "Ask":
                    held.append(answer(st["q"], rng.randrange(8)))
                    log.append(dict(st, res=[entry(e) for e in held[-1]]))
                elif st["ev"] == "Spoil":
                    spoil(held[st["i"] - 1], rng)
                    log.append(st)
                elif st["ev"] == "Draw":
                    log.append(dict(st, pic=number(draw(items[st["p"] - 1]))))
                else:
                    log.append(dict(st, res=show(st["q"], f"{tmp}-{k}.hdf5")))
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
    finally:
        plt.close("all")
    return log


CFG = """SPECIFICATION {spec}
CONSTANTS
 MaxOps = {n}
 Pics = {pics}
INVARIANT SamePicture
{extra}
CHECK_DEADLOCK FALSE
"""


def real_run(path, **kw):
    """A real solution, with its internal data."""
    cfg = path + ".cfg"
    with open(cfg, "w") as f:
        tokens.config(num_angles="200", label="real", **kw).to_conf_file(f)
    dsolve.solve(output_file=path, sonic_method="single", config_file=Path(cfg), output_dir=Path("."), store_internal=True)


def random_show(rng):
    toks = lambda n: [dict(tok=rng.randint(1, 60), kep=rng.randint(0, 9)) for _ in range(n)]
    scale = rng.choice(["linear", "log"])
    if rng.getrandbits(1):
        return dict(how="compare", toks=toks(rng.randint(1, 3)), scale=scale, extras=[])
    return dict(how="plot", toks=toks(1), scale=scale, extras=[x for x in ["slow", "alfven", "fast", "sonic"] if rng.random() < .4])


def run_plots(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    asks = ctx.generate("PlotArgsMC", CFG.format(spec="MCSpec", n=2 if q else 3, pics=1, extra="CONSTRAINT Emit"), name="requests")
    if len(asks) > 6000:
        asks = rng.sample(asks, 6000)
    a, b = str(ctx.fresh() / "a.hdf5"), str(ctx.fresh() / "b.hdf5")
    with swallow_output():
        real_run(a)
        real_run(b, c_s_on_v_k="0.05", v_rin_on_c_s="0.3")
    items = catalogue(a, b)
    base = fresh_map(fresh, items)
    good = [x for x in base if not x.startswith("failed")]
    if len(good) < len(items) * .6:
        raise Machinery("most pictures of the catalogue fail: " + ", ".join(sorted(set(base) - set(good))))
    draws = ctx.generate("PlotArgsMC", CFG.format(spec="MCSpecDraw", n=2, pics=len(items), extra="CONSTRAINT Emit"), name="pairs of pictures")
    n = len(items)
    d = ctx.fresh("plots")
    plans = [x for x in asks]
    # histories that together hold the pairs of pictures, mixed with requests of their own
    for h in range(24 if q else 160):
        order = [rng.randint(1, n) for _ in range(8 if q else 30)]
        beh = []
        for p in order:
            beh.append(dict(ev="Draw", p=p))
            if rng.random() < .4:
                beh.append(dict(ev="Show", q=random_show(rng)))
            if rng.random() < .3:
                beh += rng.choice(asks)[:1]
        plans.append(beh)
    plans += rng.sample(draws, 40 if q else len(draws))
    heavy = [p for p in plans if any(s["ev"] in ("Draw", "Show") for s in p)]
    light = [p for p in plans if not any(s["ev"] in ("Draw", "Show") for s in p)]
    traces = vlib.pmap(play, [(p, items, base, rng.random(), str(d / f"l{i}")) for i, p in enumerate(light)])
    traces += fresh_map(play, [(p, items, base, rng.random(), str(d / f"h{i}")) for i, p in enumerate(heavy)])
    ctx.sample(traces[-1])
    ctx.sample(traces[0])
    ctx.reject(ctx.validate("PlotArgsTrace", TRACE_CFG.format("INVARIANT SamePicture\n"), traces), "plots")
