"""Replays behaviours of Stages into the real solution() with a scripted integrator in place of the ODE package's."""
import random
import types

import numpy as np
import scikits.odes
from scipy.interpolate import interp1d
from scikits.odes.sundials import CVODESolveFailed, CVODESolveFoundRoot, CVODESolveReachedTSTOP
from scikits.odes.sundials.cvode import StatusEnum

import disc_solver.solve.solution as solmod
from disc_solver.file_format import InitialConditions
from disc_solver.solve.config import define_conditions
from disc_solver.solve.deriv_midplane import get_taylor_first_order, get_taylor_second_order, get_taylor_third_order
from disc_solver.solve.solution import ode_system, solution
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex

import tokens
from vlib import TRACE_CFG, Hang, replaced, swallow_output, time_limit

FLAGS = {"success": [StatusEnum.SUCCESS], "root": [StatusEnum.ROOT_RETURN], "tstop": [StatusEnum.TSTOP_RETURN],
         "failed": [StatusEnum.TOO_MUCH_WORK, StatusEnum.CONV_FAILURE, StatusEnum.ERR_FAILURE, StatusEnum.RHSFUNC_FAIL],
         "tooclose": [StatusEnum.TOO_CLOSE]}
BAD = -999
W = 100000
BEFORE, AFTER, TSTOP = 0.125, 0.25, 4.0
SPACING = 1 / 64


class Env:
    """The scripted integrator and everything recorded about one call of solution()."""
    def __init__(self, beh, rng):
        self.beh, self.rng, self.cfg = beh, rng, beh["cfg"]
        self.log, self.rows, self.calls = [], [], 0
        self.evals, self.derivs_kept, self.last, self.main_evals = {}, [], None, []
        c = self.cfg
        n = len(c["grid"])
        self.use_E_r = bool(rng.getrandbits(1))
        self.eta = bool(rng.getrandbits(1))
        self.cross = c["cross"]
        deg = np.degrees(np.arange(n) * SPACING)
        if c["tay"] % 100 == 0:
            taydeg = deg[c["tay"] // 100]
        else:
            taydeg = np.degrees((c["tay"] / 100) * SPACING)
        self.grid = np.radians(deg)
        self.tay = np.radians(taydeg)
        if c["mode"] == "modified":
            self.known = (np.arange(1, n) + .5) * SPACING
        after = rng.choice([None, AFTER])
        self.after_size = BEFORE if after is None else AFTER
        kw = dict(taylor_stop_angle=taydeg, use_taylor_jump=c["mode"] == "series", η_derivs=self.eta, use_E_r=self.use_E_r,
                  jump_before_sonic=BEFORE if self.cross in ("jump", "both") else None,
                  sonic_interp_size=BEFORE if self.cross in ("interp", "both") else None,
                  after_sonic=after, interp_slice=rng.choice([slice(None, None), slice(-50, None)]), max_steps=rng.choice([77, 500]),
                  relative_tolerance=rng.choice([1e-5, 1e-6]), absolute_tolerance=rng.choice([1e-9, 1e-10]))
        self.si = tokens.soln_input(**kw)
        base = define_conditions(self.si)
        self.ic = InitialConditions(norm_kepler_sq=base.norm_kepler_sq, a_0=base.a_0, γ=base.γ, init_con=base.init_con,
                                    angles=self.grid)
        self.learn(base.init_con, 0)
        self.mod = None
        if c["mode"] == "modified":
            m = self.newrow()
            self.learn(m, 2)
            self.mod = self.ic.create_modified(init_con=m, angles=self.known)
        self.root_func = (lambda t, y, out: out.__setitem__(0, 1.0)) if c["roots"] else None
        self.onroot = rng.choice([None, lambda *a: 0]) if self.cross in ("none", "interp") else None
        self.ontstop = rng.choice([None, lambda *a: 0])
        self.c_stop = bool(rng.getrandbits(1))
        self.config_event = dict(ev="Config", cfg=dict(c, before=1000 - int(1000 * BEFORE),
                                                       after=1000 + int(1000 * self.after_size), stop=self.c_stop))

    # --- tokens
    def learn(self, row, tok):
        self.rows.append((np.array(row, dtype=float), tok))

    def tok(self, row):
        row = np.asarray(row, dtype=float)
        for r, t in reversed(self.rows):
            if np.array_equal(r, row):
                return t
        return BAD

    def newrow(self):
        r = self.rng
        row = np.array(self.ic.init_con, dtype=float)
        row[:] = row * (1 + r.random() / 8)
        row[ODEIndex.v_r] = -1 - r.random()
        row[ODEIndex.v_θ] = 0.8 + r.random() / 16
        row[ODEIndex.ρ] = 0.5 + r.random()
        row[ODEIndex.B_r] = 0.05 * r.random()
        row[ODEIndex.B_φ] = -0.05 * r.random()
        row[ODEIndex.B_θ] = 1
        return row

    def ang(self, a):
        a = float(a)
        i = a / SPACING
        if not -1e-9 <= i < 1000:
            return BAD
        n = round(i)
        if abs(i - n) < 1e-9:
            return 100 * n
        return 100 * int(i) + 50

    # --- expected states
    def series_end(self):
        kw = dict(init_con=self.ic.init_con, γ=self.ic.γ, a_0=self.ic.a_0)
        f1 = get_taylor_first_order(**kw)
        f2 = get_taylor_second_order(**kw, η_derivs=self.eta, use_E_r=self.use_E_r)
        f3 = get_taylor_third_order(**kw, η_derivs=self.eta, use_E_r=self.use_E_r)
        h = self.tay
        return self.ic.init_con + h * f1 + h ** 2 / 2 * f2 + h ** 3 / 6 * f3

    def landing(self):
        """Where a linear step from the end of the main integration to the other side of the sonic point ends."""
        a, y = self.last
        rhs, _ = ode_system(γ=self.ic.γ, a_0=self.ic.a_0, norm_kepler_sq=self.ic.norm_kepler_sq,
                            init_con=self.ic.init_con, η_derivs=self.eta, store_internal=False, use_E_r=self.use_E_r)
        d = np.zeros(len(ODEIndex))
        rhs(a, y, d)
        da = (BEFORE + self.after_size) / d[ODEIndex.v_θ]
        return a + da, y + da * d

    def identify_start(self, y0, stage):
        t = self.tok(y0)
        if t != BAD:
            return t
        if self.cfg["mode"] == "series" and stage == 1 and np.allclose(y0, self.series_end(), rtol=1e-11, atol=1e-13):
            self.learn(y0, 1)
            return 1
        if self.cross == "jump" and self.last is not None and np.allclose(y0, self.landing()[1], rtol=1e-10, atol=1e-12):
            self.learn(y0, 3)
            return 3
        return BAD

    def land(self):
        return self.ang(self.landing()[0]) if self.cross == "jump" and self.last is not None and self.rootlast else 0

    # --- the integrator
    def ode(self, integrator, rhs, **options):
        solver = types.SimpleNamespace()
        solver.solve = lambda angles, y0: self.solve(rhs, options, angles, y0)
        return solver

    def root_kind(self, options):
        f = options.get("rootfn")
        if f is None:
            return 0
        if f is self.root_func:
            return 1 if options.get("nr_rootfns") == 2 else BAD
        out = [None]
        y = np.zeros(11)
        zeros = []
        for v in (0., 1.):
            y[ODEIndex.v_θ] = v
            f(0.0, y, out)
            zeros.append(float(out[0]))
        if zeros[0] == zeros[1] or options.get("nr_rootfns") != 1:
            return BAD
        return round(1000 * zeros[0] / (zeros[0] - zeros[1]))

    def solve(self, rhs, options, angles, y0):
        self.calls += 1
        k = self.calls
        i = k - 1
        steps = [s for s in self.beh["steps"] if s["how"] != "stuck"]
        st = steps[i] if i < len(steps) else dict(n=1, m=1, how="failed")
        angles = np.asarray(angles, dtype=float)
        expansion = self.cfg["mode"] == "integrated" and k == 1
        land = self.land()
        n, how = min(st["n"], len(angles)), st["how"]
        n = max(n, 2 if how == "root" and self.cross == "jump" else 1)      # a root lies beyond the start
        n = min(n, len(angles))
        if how == "success":
            n = len(angles)
        elif n == len(angles) and not expansion:
            how = "success"
        start = self.identify_start(y0, k)
        ys = [np.array(y0, dtype=float)]
        for j in range(2, n + 1):
            ys.append(self.newrow())
            self.learn(ys[-1], W * k + j)
        bridge_ok = True
        for j in range(1, st["m"] + 1):
            y = self.newrow()
            t = float(angles[0]) + (1000 * k + j) * 1e-7
            d = np.zeros(11)
            rhs(t, y, d)
            self.evals[W * k + j] = (t, y, d)
            if self.cross == "interp" and self.rootlast and not self.bridged:
                ref = interp1d([self.evals[e][0] for e in self.main_evals], [self.evals[e][2][ODEIndex.v_θ] for e in self.main_evals],
                               kind="cubic", fill_value="extrapolate")
                bridge_ok = bridge_ok and np.isclose(d[ODEIndex.v_θ], ref(t), rtol=1e-6, atol=1e-6)
        now = [W * k + j for j in range(1, st["m"] + 1)]
        is_bridge = self.cross == "interp" and self.rootlast and not self.bridged
        user = not expansion and not is_bridge
        opts = bool(bridge_ok and self.options_ok(options, user, expansion))
        ts = options.get("tstop")
        stop = ts == self.tay if expansion else ts == TSTOP if ts is not None else False
        self.log.append(dict(ev="Integrate", want=[self.ang(a) for a in angles], start=start, n=n, m=st["m"], how=how, land=land,
                             root=self.root_kind(options), stop=bool(stop), opts=opts))
        soln = types.SimpleNamespace(
            flag=self.rng.choice(FLAGS[how]), message="scripted",
            values=types.SimpleNamespace(t=angles[:n].copy(), y=np.array(ys)),
            errors=types.SimpleNamespace(t=angles[n - 1], y=ys[-1]),
            roots=types.SimpleNamespace(t=None, y=None), tstop=types.SimpleNamespace(t=None, y=None))
        if is_bridge:
            self.bridged = True
        if how == "root":
            soln.roots = types.SimpleNamespace(t=np.array([angles[n - 1] + 1e-5]), y=np.array([ys[-1] + 1e-5]))
        if how == "tstop":
            e = self.newrow()
            if expansion:
                self.learn(e, W * k)
            soln.tstop = types.SimpleNamespace(t=np.array([options["tstop"] if expansion else angles[n - 1]]), y=np.array([e]))
        if not expansion:
            if self.last is None or not self.rootlast:
                self.mainsoln = soln
            self.main_evals += now
            if not self.rootlast:
                self.rootlast = how == "root" and self.cross in ("jump", "interp")
            self.last = (float(angles[n - 1]), ys[-1])
        else:
            self.main_evals += now
        if how == "success":
            return soln
        exc = {"root": CVODESolveFoundRoot, "tstop": CVODESolveReachedTSTOP}.get(how, CVODESolveFailed)
        raise exc(soln)
    rootlast = bridged = False
    mainsoln = None

    def options_ok(self, options, user, expansion):
        return bool(options.get("rtol") == self.si.relative_tolerance and options.get("atol") == self.si.absolute_tolerance
                    and options.get("max_steps") == self.si.max_steps
                    and options.get("validate_flags") is True and not options.get("old_api", True)
                    and (options.get("onroot") is (self.onroot if user else None))
                    and (options.get("ontstop") is (self.ontstop if user else None)))

    def internal_tokens(self, d):
        try:
            out, order = [], list(self.evals)
            n = len(d.angles)
            seqs = [d.params, d.derivs, d.v_r_normal, d.v_φ_normal, d.ρ_normal, d.v_r_taylor, d.v_φ_taylor, d.ρ_taylor]
            if any(len(s) != n for s in seqs):
                return [BAD]
            for i in range(n):
                hit = order[i:i + 1]
                ok = bool(hit) and np.array_equal(self.evals[hit[0]][1], d.params[i])
                if not ok:
                    hit = [e for e, (t, y, dd) in self.evals.items() if np.array_equal(y, d.params[i])]
                    ok = len(hit) == 1
                if ok:
                    t, y, dd = self.evals[hit[0]]
                    taylor = self.cfg["mode"] == "integrated" and hit[0] // W == 1
                    ok = (t == d.angles[i] and np.array_equal(dd, d.derivs[i])
                          and dd[ODEIndex.v_r] == (d.v_r_taylor if taylor else d.v_r_normal)[i]
                          and dd[ODEIndex.v_φ] == (d.v_φ_taylor if taylor else d.v_φ_normal)[i]
                          and dd[ODEIndex.ρ] == (d.ρ_taylor if taylor else d.ρ_normal)[i])
                out.append(hit[0] if ok else BAD)
            return out
        except Exception:
            return [BAD]

    def run(self):
        self.log.append(self.config_event)
        c = self.cfg
        kw = {}
        if self.mod is not None:
            kw["modified_initial_conditions"] = self.mod
        if self.root_func is not None:
            kw.update(root_func=self.root_func, root_func_args=2)
        if self.c_stop:
            kw["tstop"] = TSTOP
        shock = bool(self.rng.getrandbits(1))
        before = (self.ic.init_con.copy(), self.ic.angles.copy())
        inp = self.si.asdict()
        with replaced(scikits.odes.ode, self.ode), swallow_output():
            try:
                with time_limit(30):
                    s = solution(self.si, self.ic, store_internal=c["store"], with_taylor=c["mode"] in ("series", "integrated"),
                                 onroot_func=self.onroot, ontstop_func=self.ontstop, is_post_shock_only=shock, **kw)
            except SolverError:
                self.log.append(dict(ev="Error", land=self.land()))
                return self.log
            except (Exception, SystemExit, Hang) as e:
                self.log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
                return self.log
        self.result = s
        flag = [k for k, v in FLAGS.items() if s.flag in v]
        m = self.mainsoln
        roots = s.t_roots is not None and s.y_roots is not None
        same = (s.solution_input is self.si and s.initial_conditions is self.ic and s.is_post_shock_only == shock
                and self.si.asdict() == inp and np.array_equal(self.ic.init_con, before[0])
                and np.array_equal(self.ic.angles, before[1])
                and s.flag == m.flag and (not roots or (np.array_equal(s.t_roots, m.roots.t) and np.array_equal(s.y_roots, m.roots.y))))
        self.log.append(dict(ev="Result", angs=[self.ang(a) for a in s.angles], rows=[self.tok(r) for r in s.solution],
                             store=s.internal_data is not None,
                             irows=self.internal_tokens(s.internal_data) if s.internal_data is not None else [],
                             flag=flag[0] if flag else "?", roots=roots, same=bool(same)))
        return self.log


class RealEnv(Env):
    """The same recording around the real integrator."""
    def __init__(self, cfg, si, rng):
        super().__init__(dict(cfg=dict(cfg, grid=[0, 100, 200], grid2=[150, 250], tay=50), steps=[]), rng)
        self.si = si
        self.use_E_r, self.eta = si.use_E_r, si.η_derivs
        self.ic = define_conditions(si)
        self.grid, self.tay = self.ic.angles, np.radians(si.taylor_stop_angle)
        self.rows = []
        self.learn(self.ic.init_con, 0)
        self.size = si.jump_before_sonic or si.sonic_interp_size
        self.after_size = self.size if si.after_sonic is None else si.after_sonic
        c = self.config_event["cfg"]
        n = len(self.grid)
        c.update(grid=[100 * i for i in range(n)], grid2=[150], tay=self.ang(self.tay), before=round(1000 - 1000 * (self.size or 0)),
                 after=round(1000 + 1000 * (self.after_size or 0)), stop=False)
        self.c_stop = False
        self.onroot = self.ontstop = None

    def ang(self, a):
        i = int(np.searchsorted(self.grid, a))
        for j in (i - 1, i):
            if 0 <= j < len(self.grid) and abs(self.grid[j] - a) < 1e-13:
                return 100 * j
        return 100 * (i - 1) + 50 if i > 0 else BAD

    def landing(self):
        a, y = self.last
        rhs, _ = ode_system(γ=self.ic.γ, a_0=self.ic.a_0, norm_kepler_sq=self.ic.norm_kepler_sq,
                            init_con=self.ic.init_con, η_derivs=self.eta, store_internal=False, use_E_r=self.use_E_r)
        d = np.zeros(len(ODEIndex))
        rhs(a, y, d)
        da = (self.size + self.after_size) / d[ODEIndex.v_θ]
        return a + da, y + da * d

    def ode(self, integrator, rhs, **options):
        self.calls += 1
        k, kept = self.calls, []

        def watched(t, y, d, *a):
            r = rhs(t, y, d, *a)
            if not r:
                kept.append((t, np.array(y), np.array(d)))
            return r
        real = REAL_ODE(integrator, watched, **options)
        return types.SimpleNamespace(solve=lambda angles, y0: self.real_solve(real, k, kept, options, angles, y0))

    def real_solve(self, real, k, kept, options, angles, y0):
        expansion = self.cfg["mode"] == "integrated" and k == 1
        land, start = self.land(), self.identify_start(y0, k)
        is_bridge = self.cross == "interp" and self.rootlast and not self.bridged
        exc, how = None, "success"
        try:
            soln = real.solve(angles, y0)
        except (CVODESolveFailed, CVODESolveFoundRoot, CVODESolveReachedTSTOP) as e:
            exc, soln = e, e.soln
            how = {CVODESolveFoundRoot: "root", CVODESolveReachedTSTOP: "tstop"}.get(type(e), "failed")
            if soln.flag == StatusEnum.TOO_CLOSE:
                how = "tooclose"
        n = len(soln.values.t)
        for j in range(1, n):
            self.learn(soln.values.y[j], W * k + j + 1)
        for j, e in enumerate(kept):
            self.evals[W * k + j + 1] = e
        stop = options.get("tstop") == self.tay if expansion else False if options.get("tstop") is None else True
        asked = [self.ang(a) for a in angles]
        ok = (np.array_equal(soln.values.t, np.asarray(angles)[:n]) and np.array_equal(soln.values.y[0], y0))
        self.log.append(dict(ev="Integrate", want=asked, start=start, n=n, m=len(kept), how=how, land=land,
                             root=self.root_kind(options), stop=bool(stop),
                             opts=bool(ok and self.options_ok(options, not expansion and not is_bridge, expansion))))
        if is_bridge:
            self.bridged = True
        if expansion:
            if how == "tstop":
                self.learn(soln.tstop.y[0], W * k)
        else:
            if not self.rootlast:
                self.mainsoln = soln
                self.rootlast = how == "root" and self.cross in ("jump", "interp")
            self.last = (float(soln.values.t[-1]), np.array(soln.values.y[-1]))
        if exc is not None:
            raise exc
        return soln


REAL_ODE = scikits.odes.ode


def real_traces(rng, quick):
    """A few solutions computed by the real integrator on a small grid."""
    out, arrays = [], {}
    base = dict(num_angles=60, stop=1.0, taylor_stop_angle=0.001)
    cases = []
    for mode in ("series", "integrated"):
        for cross, kw in (("none", {}), ("jump", dict(jump_before_sonic=0.1)), ("jump", dict(jump_before_sonic=0.1, after_sonic=0.2)),
                          ("interp", dict(sonic_interp_size=0.1)), ("jump", dict(jump_before_sonic=0.1, γ=np.float64(0.0001)))):
            for store in (True, False):
                if (cross == "interp" and not store) or (mode == "none" and cross != "none"):
                    continue
                cases.append((mode, cross, store, kw))
    if not quick:
        cases = [c[:3] + (dict(c[3], **x),) for c in cases for x in (dict(), dict(use_E_r=True), dict(η_derivs=False), dict(γ=np.float64(0.002)))]
    for mode, cross, store, kw in cases:
        si = tokens.soln_input(**{**base, "use_taylor_jump": mode == "series", "interp_slice": slice(None, None),
                                  **({} if mode == "integrated" else dict(taylor_stop_angle=0.01)), **kw})
        cfg = dict(mode=mode, cross=cross, store=store, roots=False)
        e = RealEnv(cfg, si, rng)
        out.append(e.run())
        key = (mode, cross, repr(sorted(kw.items(), key=str)))
        r = getattr(e, "result", None)
        if r is not None:      # the same solution with and without internal data
            other = arrays.setdefault(key, r)
            if not (other.flag == r.flag and np.array_equal(other.angles, r.angles) and np.array_equal(other.solution, r.solution)):
                out[-1][-1]["same"] = False
    return out


MC = """SPECIFICATION MCSpec
CONSTANTS N = {n} MaxEval = {m} Evals = {{{ev}}}
INVARIANTS Ascending Aligned FromMidplane Continuous InternalInOrder NoInternalUnlessAsked CrossedOnlyFromRoot
{extra}
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    ctx.model("StagesMC", MC.format(n=4 if ctx.quick else 5, m=4, ev="0, 4" if ctx.quick else "0, 1, 4", extra="PROPERTY NothingLost\nVIEW vars"),
              name="exhaustive")
    behs = ctx.generate("StagesMC", MC.format(n=6, m=5, ev="0, 2, 5", extra="CONSTRAINT Emit"),
                        simulate=6000 if ctx.quick else 60000, depth=8, name="behaviours")
    rng = random.Random(ctx.seed)
    rng.shuffle(behs)
    # spread over configurations and outcome patterns
    seen, pick = {}, []
    limit = 500 if ctx.quick else 6000
    for b in behs:
        c = b["cfg"]
        key = (c["mode"], c["cross"], c["store"], c["roots"], tuple(s["how"] for s in b["steps"]))
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= (2 if ctx.quick else 12):
            pick.append(b)
    pick = pick[:limit]
    traces = [Env(b, rng).run() for b in pick]
    ctx.extra["outcome_patterns"] = len(seen)
    ctx.extra["results"] = sum(t[-1]["ev"] == "Result" for t in traces)
    for t in traces[:3]:
        ctx.sample(t)
    real = real_traces(rng, ctx.quick)
    ctx.extra["real_integrations"] = len(real)
    pick = pick + [dict(cfg="real")] * len(real)
    traces += real
    ctx.reject(ctx.validate("StagesTrace", TRACE_CFG.format(""), traces, meta=[b["cfg"] for b in pick]), "stages of one solution")
