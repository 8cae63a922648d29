"""Hydrostatic and modified hydrostatic discs (Still), computed by the real code on exact numbers."""
import random

import numpy as np
import root_solver

import disc_solver.solve.hydrostatic as hydrostatic
import disc_solver.solve.mod_hydro as mod_hydro
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import exact
from equations import INDEX, KEYS, inputs, ordered, read, row
from exact import Exact, exact_arrays, value
from vlib import TRACE_CFG, Hang, pmap, replaced, swallow_output, time_limit

MODEL = ("SPECIFICATION Spec\nCONSTANTS P = {P}\n Turned = FALSE\n Swapped = FALSE\n Loose = {{}}\n N = {n}\n"
         "INVARIANTS Quadratic Agrees Mirrored MidBalanced\nCHECK_DEADLOCK FALSE\n")
GEN = "SPECIFICATION GenSpec\nCONSTANTS P = {P}\n Turned = FALSE\n Swapped = FALSE\n Loose = {{}}\n N = {n}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
WAYS = {"hydrostatic": hydrostatic, "mod_hydro": mod_hydro}


class Tracker:
    """In place of the tracker of a cubic's root: it has the root which is right, if that is a root."""
    want, starts = None, []

    def __init__(self, start_root=None, **kwargs):
        Tracker.starts.append(value(start_root))

    def solve_root(self, cubic):
        a = [value(c) for c in cubic]
        v = Tracker.want
        if sum(c * v ** (3 - i) for i, c in enumerate(a)) % exact.P or not a[0]:
            return Exact(v + 1)
        return Exact(v)


class Study:
    def __init__(self, plan, rng):
        self.plan, self.rng, self.t, self.cf = plan, rng, [], plan["conf"]
        self.code = WAYS[plan["which"]]
        self.found = plan["which"] == "mod_hydro" and self.cf["useE"]       # velocities are found, not integrated
        exact.HALVES.clear()
        exact.HALVES[0] = 0
        self.pts = []
        for p in plan["pts"]:
            pt = dict(p["pt"])
            while pt["th"] in exact.HALVES or exact.P - pt["th"] in exact.HALVES:
                pt["th"] = rng.randrange(1, exact.P)
            exact.HALVES[pt["th"]] = pt["half"]
            self.pts.append((pt, p["extra"]))

    def event(self, ev, **what):
        self.t.append(dict(ev=ev, **what))

    def play(self):
        self.event("Config", cf=self.cf, which=self.plan["which"])
        try:
            with swallow_output(), time_limit(60), exact_arrays(), replaced(root_solver.CubicTracker, Tracker), np.errstate(all="ignore"):
                self.points()
        except (Exception, SystemExit, Hang) as e:
            self.event("Failed", what=f"{type(e).__name__}: {e}"[:200])
        return self.t

    def points(self):
        define = getattr(self.code, f"{self.plan['which']}_define_conditions")
        try:
            cons = define(inputs(self.cf))
        except SolverError:
            return self.event("Impossible")
        self.event("Midplane", pt=read(cons.init_con), a=value(cons.a_0), k=value(cons.norm_kepler_sq), g=value(cons.γ))
        self.init = exact.array([value(x) for x in cons.init_con])
        self.how = dict(a_0=cons.a_0, norm_kepler_sq=cons.norm_kepler_sq, init_con=self.init)
        Tracker.starts.clear()
        if self.plan["which"] == "hydrostatic" and self.cf["useE"]:
            return
        for pt, extra in self.pts:
            self.evaluate(pt, extra)
        self.rows()
        if set(Tracker.starts) - {value(self.init[ODEIndex.v_r])}:
            self.event("Started", starts=Tracker.starts)
        if ordered(self.init) != ordered(cons.init_con):
            self.event("Spoiled")

    def given(self, pt, extra):
        """What velocities the integrator has, where they are not integrated, should not matter."""
        return dict(pt, vr=extra, vf=(extra * 7 + 1) % exact.P) if self.found else pt

    def evaluate(self, pt, extra):
        rng = self.rng
        noted, velocities = rng.random() < .5, True
        how = dict(self.how, η_derivs=self.cf["eta"], store_internal=noted)
        if self.plan["which"] == "hydrostatic":
            velocities = rng.random() < .8
            how["no_v_deriv"] = not velocities
        else:
            how["use_E_r"] = self.cf["useE"]
        rhs, data = self.code.ode_system(**how)
        Tracker.want = pt["vr"]
        asked = self.given(pt, extra)
        numbers, d = row(asked), exact.array([7] * len(ODEIndex))
        if rng.random() < .3:
            other, more = rng.choice(self.pts)
            Tracker.want = other["vr"]
            rhs(Exact(other["th"]), row(self.given(other, more)), exact.array([0] * len(ODEIndex)))
            Tracker.want = pt["vr"]
        before = len(data.angles) if noted else 0
        faults = sum(map(len, data.problems.values())) if noted else 0
        code = rhs(Exact(pt["th"]), numbers, d)
        now = dict(pt, **read(numbers))
        numbers[...], got = Exact(3), exact.array([value(x) for x in d])
        d[...] = Exact(4)
        d = got
        why = []
        if noted:
            new = sum(map(len, data.problems.values())) - faults
            why = list(data.problems[Exact(pt["th"])])[-new:] if new else []
        elif data is not None:
            self.event("Kept")
        if code:
            changed = ordered(d) != [7] * 11 or now != asked or bool(noted and len(data.angles) != before)
            return self.event("Refuse", pt=asked, code=int(code), noted=noted, why=why, changed=changed)
        if why:
            self.event("Complaint", why=why)
        kept = [dict(th=value(data.angles[i]), pt=ordered(data.params[i]), d=ordered(data.derivs[i])) for i in range(before, len(data.angles))] if noted else []
        self.event("Evaluate", pt=asked, now=now, velocities=velocities, d=read(d), noted=noted, kept=kept)

    def rows(self):
        """What becomes of the rows of an integration."""
        if self.plan["which"] != "mod_hydro":
            return
        pts = [(pt, self.given(pt, extra)) for pt, extra in self.pts if exact.positive(pt["rh"])]
        if not pts:
            return
        import types
        right = {p["th"]: p["vr"] for p, _ in pts}

        class ByAngle(Tracker):
            n = 0

            def solve_root(self, cubic):
                Tracker.want = pts[min(self.n, len(pts) - 1)][0]["vr"]
                self.n += 1
                return super().solve_root(cubic)
        values = exact.array([[row(a)[i] for i in range(len(ODEIndex))] for _, a in pts])
        soln = types.SimpleNamespace(values=types.SimpleNamespace(t=exact.array([a["th"] for _, a in pts]), y=values))
        with replaced(Tracker, ByAngle):
            out = mod_hydro.fix_solution(soln, use_E_r=self.cf["useE"], **self.how)
        found = [dict(a, **read(r)) for (_, a), r in zip(pts, out.values.y)]
        if [value(t) for t in out.values.t] != list(right):
            self.event("Angles")
        self.event("Rows", pts=[a for _, a in pts], found=found)


def play(job):
    plan, n, seed = job
    return Study(plan, random.Random(f"{seed} {n}")).play()


# what is known to be wrong: the derivatives of these balances
KNOWN = {("hydrostatic", "radial"): "hydrostatic Z_2 Z_3", ("hydrostatic", "induction"): "hydrostatic dderiv_B_φ",
         ("mod_hydro", "radial"): "mod_hydro Z_2", ("mod_hydro", "induction"): "mod_hydro dderiv_B_φ"}


def run(ctx):
    ctx.model("StillMC", MODEL.format(P=exact.P, n=40 if ctx.quick else 400), timeout=900)
    n = 40 if ctx.quick else 500
    ps = ctx.generate("StillMC", GEN.format(P=exact.P, n=6), simulate=n, depth=80, name="studies")
    traces = pmap(play, [(p, i, ctx.seed) for i, p in enumerate(ps)])
    kinds = {}
    for t in traces:
        for e in t:
            k = e["ev"] + (" " + t[0]["which"] + (" E_r" if t[0]["cf"]["useE"] else ""))
            kinds[k] = kinds.get(k, 0) + 1
    ctx.extra["events_by_kind"] = kinds
    ctx.extra["field"] = exact.P
    ctx.sample(min((t for t in traces if len(t) > 2), key=len, default=traces[0]))

    def validate(loose, traces=traces, **how):
        s = ", ".join(str(1 + list(KNOWN).index(k)) for k in loose)
        return ctx.validate("StillTrace", TRACE_CFG.format("CONSTANTS P = {}\n Turned = FALSE\n Swapped = FALSE\n Loose = {{{}}}\n".format(exact.P, s)), traces, **how)
    r = validate(KNOWN)
    if r is not None:
        return ctx.reject(r, "a disc without flow along the angle")
    # is what is known still so?
    for k, key in KNOWN.items():
        some = [t for t in traces if t[0]["which"] == k[0] and any(e["ev"] == "Evaluate" and e["velocities"] for e in t) and not t[0]["cf"]["useE"]][:2]
        again = validate(set(KNOWN) - {k}, some, name=f"known finding: {' '.join(k)}") if some else None
        if again is not None:
            ctx.violation(f"{k[0]}: the derivative of the {k[1]} equation is not fulfilled", again, key=key)
