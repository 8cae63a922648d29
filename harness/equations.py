"""The equations of the disc (Disc), computed by the real code on exact numbers."""
import contextlib
import random
import types
from unittest import mock

import h5preserve
import matplotlib.pyplot as plt
import numpy as np

import disc_solver.analyse.component_plot as component_plot
import disc_solver.analyse.compute_jacobian as compute_jacobian
import disc_solver.analyse.hydro_check_plot as hydro_check_plot
import disc_solver.analyse.j_e_plot as j_e_plot
import disc_solver.analyse.taylor_plot as taylor_plot
import disc_solver.analyse.validate_plot as validate_plot
import disc_solver.solve.taylor_space as taylor_space
from disc_solver.analyse.utils import AnalysisError
from disc_solver.file_format import SolutionInput
from disc_solver.solve.config import define_conditions
from disc_solver.solve.deriv_midplane import get_taylor_first_order, get_taylor_second_order, get_taylor_third_order
from disc_solver.solve.solution import ode_system
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import exact
from exact import Exact, exact_arrays, value
from vlib import TRACE_CFG, Hang, pmap, replaced, swallow_output, time_limit

INDEX = dict(br=ODEIndex.B_r, bf=ODEIndex.B_φ, bt=ODEIndex.B_θ, vr=ODEIndex.v_r, vf=ODEIndex.v_φ, vt=ODEIndex.v_θ, rh=ODEIndex.ρ,
             xx=ODEIndex.B_φ_prime, eo=ODEIndex.η_O, ea=ODEIndex.η_A, eh=ODEIndex.η_H)
KEYS = list(INDEX)


def row(pt):
    a = exact.array([0] * len(ODEIndex))
    for k, i in INDEX.items():
        a[i] = Exact(pt[k])
    return a


def read(a):
    return {k: value(a[i]) for k, i in INDEX.items()}


def ordered(a):
    return [value(a[i]) for i in INDEX.values()]


def series(orders):
    factor = [1, 1, Exact(2), Exact(6)]
    return {k: [value(o[i] / f) for o, f in zip(orders, factor)] for k, i in INDEX.items()}


def inputs(cf):
    x = {k: Exact(cf[k]) for k in ("g", "vin", "va", "ck", "eo", "ea", "eh")}
    return SolutionInput(
        start=0., stop=5., taylor_stop_angle=.001, max_steps=100, num_angles=3, relative_tolerance=1e-6, absolute_tolerance=1e-10,
        nwalkers=8, iterations=1, threads=1, target_velocity=.9, split_method="v_θ_deriv",
        γ=x["g"], v_rin_on_c_s=x["vin"], v_a_on_c_s=x["va"], c_s_on_v_k=x["ck"], η_O=x["eo"], η_A=x["ea"], η_H=x["eh"],
        use_E_r=cf["useE"], η_derivs=cf["eta"])


class Panel:
    def __init__(self):
        self.name, self.lines = None, []

    def plot(self, x, y, *args, label=None, **kwargs):
        self.lines.append((label or tuple(args), x, y))

    def set_ylabel(self, name, **kwargs):
        self.name = name

    set_title = set_ylabel

    def __getattr__(self, name):
        return lambda *args, **kwargs: None


class Figure:
    def __init__(self):
        self.panels = []

    def subplots(self, nrows=1, ncols=1, **kwargs):
        a = np.ndarray((nrows, ncols), dtype=object)
        for i in np.ndindex(nrows, ncols):
            a[i] = Panel()
            self.panels.append(a[i])
        return a[0, 0] if nrows == ncols == 1 else a[0] if nrows == 1 else a[:, 0] if ncols == 1 else a

    def __getattr__(self, name):
        return lambda *args, **kwargs: None


class Study:
    def __init__(self, plan, n, rng):
        self.plan, self.rng, self.t, self.cf = plan, rng, [], plan["conf"]
        exact.HALVES.clear()
        exact.HALVES[0] = 0
        self.pts = []
        for p in plan["pts"]:
            pt = dict(p["pt"])
            while pt["th"] in exact.HALVES or exact.P - pt["th"] in exact.HALVES:
                pt["th"] = rng.randrange(1, exact.P)
            exact.HALVES[pt["th"]] = pt["half"]
            self.pts.append((pt, p["taylor"]))

    def event(self, ev, **what):
        self.t.append(dict(ev=ev, **what))

    def play(self, what):
        self.event("Config", cf=self.cf)
        try:
            with swallow_output(), time_limit(60), exact_arrays(), np.errstate(all="ignore"):
                getattr(self, what)()
        except (Exception, SystemExit, Hang) as e:
            self.event("Failed", what=f"{type(e).__name__}: {e}"[:200])
        return self.t

    def midplane(self):
        cf = self.cf
        try:
            cons = define_conditions(inputs(cf))
        except SolverError:
            return self.event("Impossible")
        self.init, self.g, self.a, self.k = cons.init_con, cons.γ, cons.a_0, cons.norm_kepler_sq
        self.event("Midplane", pt=read(self.init), a=value(self.a), k=value(self.k), g=value(self.g))
        self.init = exact.array([value(x) for x in self.init])
        how = dict(init_con=self.init, γ=self.g, a_0=self.a)
        more = dict(how, η_derivs=cf["eta"], use_E_r=cf["useE"])
        self.event("Expand", c=series([self.init, get_taylor_first_order(**how), get_taylor_second_order(**more), get_taylor_third_order(**more)]))
        return True

    def points(self):
        if not self.midplane():
            return
        for pt, taylor in self.pts:
            self.evaluate(pt, taylor)
        self.jacobian([pt for pt, _ in self.pts if pt["vt"]])

    def diagnostics(self):
        c = {k: Exact(v) for k, v in self.cf.items() if k not in ("eta", "useE")}
        self.init, self.g, self.a, self.k = None, c["g"], c["va"] * c["va"], 1 / (c["ck"] * c["ck"])
        flowing = [pt for pt, _ in self.pts if pt["vt"]]
        for way in (self.electric, self.residuals, self.parts):
            if not self.cf["useE"]:
                way(flowing)
            else:
                try:
                    way(flowing)
                    self.event("Drawn")
                except AnalysisError:
                    self.event("NotWithE")
        self.compared(flowing)

    def system(self, **how):
        return dict(γ=self.g, a_0=self.a, norm_kepler_sq=self.k, init_con=self.init, η_derivs=self.cf["eta"], use_E_r=self.cf["useE"], **how)

    def evaluate(self, pt, taylor):
        rng = self.rng
        noted, given, slope = rng.random() < .5, rng.random() < .2, rng.randrange(exact.P)
        asked = []

        def v_θ_slope(θ):
            asked.append(value(θ))
            return Exact(slope)
        rhs, data = ode_system(**self.system(with_taylor=taylor, store_internal=noted), **(dict(deriv_v_θ_func=v_θ_slope) if given else {}))
        numbers, d, θ = row(pt), exact.array([7] * len(ODEIndex)), Exact(pt["th"])
        # something else first: one evaluation must not depend on another
        code = 0
        if rng.random() < .3:
            other = rng.choice([p for p, t in self.pts])
            rhs(Exact(other["th"]), row(other), exact.array([0] * len(ODEIndex)))
            asked.clear()
        before = len(data.angles) if noted else 0
        faults = sum(map(len, data.problems.values())) if noted else 0
        code = rhs(θ, numbers, d)
        if ordered(numbers) != [pt[k] for k in KEYS] or (given and set(asked) - {pt["th"]}):
            self.event("Spoiled")
        # integrators use their arrays again
        numbers[...], got = Exact(3), exact.array([value(x) for x in d])
        d[...] = Exact(4)
        d = got
        why = []
        if noted:
            new = sum(map(len, data.problems.values())) - faults
            why = list(data.problems[θ])[-new:] if new else []
            sizes = {len(x) for x in (data.angles, data.params, data.derivs, data.v_r_normal, data.v_φ_normal, data.ρ_normal,
                                      data.v_r_taylor, data.v_φ_taylor, data.ρ_taylor)}
            if len(sizes) > 1:
                self.event("Uneven", sizes=sorted(sizes))
        elif data is not None:
            self.event("Kept")
        if code:
            changed = ordered(d) != [7] * 11 or bool(noted and len(data.angles) != before)
            self.event("Refuse", pt=pt, code=int(code), noted=noted, why=why, changed=changed)
            return
        kept = [dict(th=value(data.angles[i]), pt=ordered(data.params[i]), d=ordered(data.derivs[i]),
                     own=[value(x[i]) for x in (data.v_r_normal, data.v_φ_normal, data.ρ_normal)],
                     near=[value(x[i]) for x in (data.v_r_taylor, data.v_φ_taylor, data.ρ_taylor)])
                for i in range(before, len(data.angles))] if noted else []
        if why:
            self.event("Complaint", why=why)
        self.event("Evaluate", pt=pt, taylor=taylor, given=given, vt=slope if given else 0, d=read(d), noted=noted, kept=kept)

    def solution(self, pts, **more):
        return types.SimpleNamespace(
            solution=exact.array([[row(pt)[i] for i in range(len(ODEIndex))] for pt in pts]), angles=exact.array([pt["th"] for pt in pts]),
            initial_conditions=types.SimpleNamespace(init_con=self.init, γ=self.g, a_0=self.a, norm_kepler_sq=self.k),
            solution_input=types.SimpleNamespace(η_derivs=self.cf["eta"], use_E_r=self.cf["useE"]), **more)

    def jacobian(self, pts):
        def shifted(pt, eps):
            ways = []
            for e in (eps, -eps):
                roots = []
                for k in KEYS:
                    q = dict(pt, **{k: (pt[k] + e) % exact.P})
                    r = Exact(q["br"] ** 2 + q["bf"] ** 2 + q["bt"] ** 2).sqrt()
                    if not known(r) or value(r) == 0 or (k == "rh" and q[k] == 0) or (k == "vt" and q[k] in (0, 1, exact.P - 1)):
                        return None
                    roots.append(value(r))
                ways.append(roots)
            return ways
        known = exact.known
        for _ in range(400):
            pt, eps = self.rng.choice(pts), self.rng.randrange(1, exact.P)
            ways = shifted(pt, eps)
            if ways:
                break
        else:
            return
        two = [pt, pt] if self.rng.random() < .5 else [pt]
        js = compute_jacobian.compute_jacobian_from_solution(self.solution(two), eps=Exact(eps))
        if self.rng.random() < .3:
            js = [compute_jacobian.compute_jacobian_at_index(self.solution(two), eps=Exact(eps), index=len(two) - 1)]
        j = js[-1]
        self.event("Jacobian", pt=pt, eps=eps, up=ways[0], down=ways[1],
                   j=[[value(j[INDEX[a], INDEX[b]]) for b in KEYS] for a in KEYS])

    def drawn(self, draw, run, ordered=False, **how):
        """The curves of a plot: {(name of the panel, name of the curve): {angle: value}}."""
        figure = Figure()

        @contextlib.contextmanager
        def opened(*args, **kwargs):
            yield dict(run=run)
        with replaced(h5preserve.open, opened), mock.patch.object(plt, "figure", lambda *a, **k: figure), mock.patch.object(plt, "close"), \
                mock.patch.object(exact, "ANY_ORDER", not ordered):
            draw("solutions.hdf5", plot_filename="plot.png", **how)
        curves = {}
        for panel in figure.panels:
            for label, x, y in panel.lines:
                c = curves.setdefault((panel.name, label), {})
                for a, b in zip(x, y):
                    c.setdefault(value(a / exact.DEGREES), value(b))
                if len(x) != len(y):
                    self.event("Uneven", sizes=[len(x), len(y)])
        return curves

    def compared(self, pts):
        """Slopes with and without the expansion, next to each other or their ratio."""
        rng = self.rng
        angles = rng.sample(range(1, exact.P), 4)
        names = {"v_r": "v_r", "v_φ": "v_φ", "ρ": "ρ"}
        numbers = {n: [(rng.randrange(1, exact.P), rng.randrange(1, exact.P)) for _ in angles] for n in names}
        data = types.SimpleNamespace(angles=exact.array(angles))
        for n, v in numbers.items():
            setattr(data, f"{n}_normal", exact.array([a for a, _ in v]))
            setattr(data, f"{n}_taylor", exact.array([b for _, b in v]))
        values = rng.random() < .6
        curves = self.drawn(taylor_plot.taylor_plot, self.run_of(self.solution(pts, internal_data=data)), ordered=True, show_values=values)
        for i, th in enumerate(angles):
            for n, v in numbers.items():
                shown = [[c[th] for (panel, how), c in curves.items() if panel == n and th in c and how[0] == mark] for mark in (".x" if values else ".")]
                self.event("Compared", own=v[i][0], near=v[i][1], values=values, shown=shown)

    def run_of(self, s):
        s.solution_input.label, s.flag, s.coordinate_system = "exact", 0, "spherical midplane 0"
        return types.SimpleNamespace(solutions={"0": s}, final_solution=s, use_E_r=self.cf["useE"], config_filename="exact.cfg",
                                     config_input=types.SimpleNamespace(label="exact", use_E_r=self.cf["useE"]))

    def electric(self, pts):
        curves = self.drawn(j_e_plot.j_e_plot, self.run_of(self.solution(pts)))
        shown = {n: next(c for (panel, _), c in curves.items() if panel == f"${n}$") for n in ("J_r", "J_θ", "J_φ", "E_r", "E_θ", "E_φ")}
        for pt in self.rng.sample(pts, min(2, len(pts))):
            v = [shown[n].get(pt["th"], -2) for n in shown]
            self.event("Electric", pt=pt, j=v[:3], e=v[3:])

    def residuals(self, pts):
        slopes = [{k: self.rng.randrange(exact.P) for k in KEYS} for _ in pts]
        numbers = self.solution(pts)
        data = types.SimpleNamespace(params=numbers.solution, angles=numbers.angles,
                                     derivs=exact.array([[row(d)[i] for i in range(len(ODEIndex))] for d in slopes]))
        run = self.run_of(self.solution(pts, internal_data=data))
        curves = {label: c for (_, label), c in self.drawn(validate_plot.validate_plot, run).items()}
        hydro = {label: c for (_, label), c in self.drawn(hydro_check_plot.hydro_check_plot, run).items()}
        for i in self.rng.sample(range(len(pts)), min(2, len(pts))):
            def at(name, among=curves):
                return among[name].get(pts[i]["th"], -2)
            self.event("Residuals", pt=pts[i], d=slopes[i], res=dict(
                continuity=at("continuity"), solenoid=at("solenoid"), radial=at("radial momentum"), azimuthal=at("azimuthal momentum"),
                polar=at("polar momentum"), induction=at("polar induction"), zero=at("E_φ"), still=at("azimuthal momentum", hydro), torque=at("approximate momenta", hydro),
                j=[at("$J_r$"), at("$J_θ$"), at("$J_φ$")], e=[at("$E_r$"), at("$E_θ$")], seen=[at("$E_r'$"), at("$E_θ'$"), at("$E_φ'$")]))
            if not self.cf["g"]:
                self.event("AlmostKepler", pt=pts[i], d=slopes[i], nk=value(self.k.sqrt()), res=at("radial momentum (approx method)", hydro))

    def parts(self, pts):
        names = {"radial momentum": "radial", "azimuthal momentum": "azimuthal", "polar momentum": "polar", "continuity": "continuity",
                 "solenoid condition": "solenoid", "polar induction": "induction"}
        run = self.run_of(self.solution(pts))
        if self.rng.random() < .5:
            curves = self.drawn(component_plot.plot, run)
        else:
            curves = {}
            for n in names:
                curves.update(self.drawn(component_plot.plot, run, only=n))
        for pt in self.rng.sample(pts, min(2, len(pts))):
            self.event("Parts", pt=pt,
                       parts={n: [c.get(pt["th"], -2) for (panel, label), c in curves.items() if panel == k and label != "all terms"]
                              for k, n in names.items()},
                       whole={n: curves[k, "all terms"].get(pt["th"], -2) for k, n in names.items()})


def space(plans):
    """What taylor_space makes of several midplanes at once."""
    confs = [dict(p["conf"], eta=False, useE=False) for p in plans]
    common = {k: confs[0][k] for k in ("eo", "ea", "eh")}
    confs = [dict(c, **common) for c in confs]
    columns = dict(γ="g", v_rin_on_c_s="vin", v_a_on_c_s="va", c_s_on_v_k="ck")
    ends = {n: (f"least {n}", f"most {n}") for n in columns}
    exact.HALVES.clear()
    exact.HALVES[0] = 0

    def possible(c):
        try:
            define_conditions(inputs(c))
            return True
        except SolverError:
            return False

    def uniform(low, high, size=None):
        name = [n for n, e in ends.items() if e == (low, high)][0]
        return exact.array([c[columns[name]] for c in confs[:size]])
    traces = []
    try:
        with swallow_output(), time_limit(60), exact_arrays(), np.errstate(all="ignore"), replaced(np.random.uniform, uniform), \
                mock.patch.object(np.random, "uniform", uniform):
            confs = [c for c in confs if possible(c)]
            traces = [[dict(ev="Config", cf=c)] for c in confs]
            s = taylor_space.compute_taylor_space(**ends, η_O=Exact(common["eo"]), η_A=Exact(common["ea"]), η_H=Exact(common["eh"]), num_samples=len(confs))
            for i, (c, t) in enumerate(zip(confs, traces)):
                shown = dict(g=s.γ_arr, vin=s.v_rin_on_c_s_arr, va=s.v_a_on_c_s_arr, ck=s.c_s_on_v_k_arr)
                if any(value(a[i]) != c[k] for k, a in shown.items()):
                    t.append(dict(ev="Mislabelled"))
                orders = list(s.taylor_orders[i])
                t.append(dict(ev="Midplane", pt=read(orders[0]), a=value(Exact(c["va"]) ** 2), k=value(1 / Exact(c["ck"]) ** 2), g=c["g"]))
                t.append(dict(ev="Expand", c=series(orders)))
    except (Exception, SystemExit, Hang) as e:
        (traces or [[dict(ev="Config", cf=confs[0])]])[0].append(dict(ev="Failed", what=f"{type(e).__name__}: {e}"[:200]))
        traces = traces or [[dict(ev="Config", cf=confs[0]), dict(ev="Failed", what=f"{type(e).__name__}: {e}"[:200])]]
    return traces


MODEL = "SPECIFICATION Spec\nCONSTANTS P = {P}\n Turned = FALSE\n Swapped = FALSE\n N = {n}\nINVARIANTS Fulfilled Mirrored Rescaled Physical\nCHECK_DEADLOCK FALSE\n"
GEN = "SPECIFICATION GenSpec\nCONSTANTS P = {P}\n Turned = FALSE\n Swapped = FALSE\n N = {n}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
# what is known to be wrong: the part of the specification which describes it, its key, and what fails
KNOWN = {
    "Turned": ("dderiv_B_φ_soln", "the second derivative of B_φ (without E_r) takes the part of E_r carried by B_φ itself with the wrong "
               "sign, so that the radial induction equation is not fulfilled where B_φ is not 0"),
    "Swapped": ("taylor_series Y_2 Y_3", "the terms Y_2 and Y_3 of the expansion about the midplane are exchanged (each with wrong factors), "
                "so that its third derivatives of B_φ and B_r, and second ones of v_r and v_φ with them, do not fulfil the induction equation"),
}


def plans(ctx, n, points):
    ctx.model("DiscMC", MODEL.format(P=exact.P, n=30 if ctx.quick else 400), timeout=900)
    return ctx.generate("DiscMC", GEN.format(P=exact.P, n=points), simulate=n, depth=8 * points + 30, name="studies")


def play(job):
    plan, what, n, seed = job
    return Study(plan, n, random.Random(f"{seed} {n}")).play(what)


def check(ctx, traces, about, finding=None):
    kinds = {}
    for t in traces:
        for e in t:
            kinds[e["ev"]] = kinds.get(e["ev"], 0) + 1
    ctx.extra["events_by_kind"] = kinds
    ctx.extra["field"] = exact.P
    ctx.sample(min((t for t in traces if len(t) > 2), key=len, default=traces[0]))

    def validate(known, **how):
        # (the expansion is judged where it is the subject)
        flags = {k: str(k in known or (k == "Swapped" and finding != "Swapped")).upper() for k in KNOWN}
        return ctx.validate("DiscTrace", TRACE_CFG.format("CONSTANTS P = {}\n {}\n".format(exact.P, "\n ".join(f"{k} = {v}" for k, v in flags.items()))),
                            traces, **how)
    r = validate(())
    if r is not None and finding:
        again = validate((finding,), name="Trace, with the known finding")
        if again is None:
            key, what = KNOWN[finding]
            return ctx.violation(what, r, key=key)
        r = again
    ctx.reject(r, about)


def run_points(ctx):
    ps = plans(ctx, 24 if ctx.quick else 300, 8)
    check(ctx, pmap(play, [(p, "points", i, ctx.seed) for i, p in enumerate(ps)]), "slopes at a point", "Turned")


def run_midplane(ctx):
    ps = plans(ctx, 60 if ctx.quick else 1500, 1)
    traces = pmap(play, [(p, "midplane", i, ctx.seed) for i, p in enumerate(ps)])
    for i in range(0, len(ps), 6):
        traces += space(ps[i:i + 6])
    check(ctx, traces, "the midplane and around it", "Swapped")


def run_diagnostics(ctx):
    ps = plans(ctx, 30 if ctx.quick else 500, 5)
    for p in ps[::4]:
        p["conf"]["g"] = 0
    check(ctx, pmap(play, [(p, "diagnostics", i, ctx.seed) for i, p in enumerate(ps)]), "fields and residuals")
