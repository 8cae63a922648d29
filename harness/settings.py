"""How settings reach a calculation (Settings.tla): config files, overrides and stored solutions through the real
solve and re-solve commands, with a scripted search that records what input it was given."""
import os
import random
import shutil
from pathlib import Path
from unittest.mock import patch

import attr
import numpy as np
from h5preserve import open as h5open

import disc_solver.solve as ds_solve
import disc_solver.solve.resolve as ds_resolve
from disc_solver.file_format import InitialConditions, Solution, registries
from formats import BAD, TEXT_NONE, look_conf, look_inp, number, text, tok_number, u
from vlib import TRACE_CFG, Hang, pmap, swallow_output, time_limit

INITIAL = {"gamma", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "eta_O", "eta_H", "eta_A"}
METHODS = ["single", "step", "mcmc", "sonic_root", "hydrostatic", "mod_hydro", "fast_crosser"]


def synthetic(inp, k):
    n = 3
    return Solution(
        solution_input=inp, angles=np.linspace(0, 1, n) + k, solution=np.full((n, 11), float(k)), flag=0,
        coordinate_system="spherical", internal_data=None, t_roots=None, y_roots=None, sonic_point=None,
        sonic_point_values=None,
        initial_conditions=InitialConditions(norm_kepler_sq=2.0, a_0=1.0, γ=inp.γ, init_con=np.zeros(11), angles=np.zeros(n)))


def spelled(f, t, rng):
    """A token as text, in one of the ways to write it."""
    return "" if t == 7 and f in TEXT_NONE and rng.randrange(2) else text(f, t)


def write_cfg(path, cfg, rng):
    """A config file as a user would write it."""
    lines = []
    for section in rng.sample(["config", "initial"], 2):
        here = [f for f in cfg if (f in INITIAL) == (section == "initial")]
        if here or rng.randrange(2):
            lines.append(f"[{section}]")
            rng.shuffle(here)
            for f in here:
                sep = rng.choice([" = ", "=", ": "])
                lines.append(f"{u(f)}{sep}{spelled(f, cfg[f], rng)}")
                if rng.randrange(6) == 0:
                    lines.append(rng.choice(["", "# a comment", "; another"]))
    path.write_text("\n".join(lines) + "\n", encoding="utf8")


def play(beh, d, rng):
    d.mkdir()
    log, files = [], []
    try:
        for k, st in enumerate(beh):
            cfg, ov, drifts = dict(st.get("cfg") or {}), dict(st.get("ov") or {}), [dict(x or {}) for x in st.get("drifts", [])]
            seen = []

            def search(soln_input, run, *, store_internal, **kw):
                inp = soln_input
                seen.append(look_inp(inp))
                for n, dr in enumerate(drifts):
                    s = synthetic(attr.evolve(inp, **{u(f): number(f, t) for f, t in dr.items()}), n)
                    run.solutions.add_solution(s)
                    if n + 1 == st["fin"]:
                        run.final_solution = s
                if not drifts:                  # a search may record nothing else but its final solution
                    run.final_solution = synthetic(inp, 0)
                return True

            over = {u(f): spelled(f, t, rng) for f, t in ov.items()}
            cli = rng.randrange(3) > 0 and not any(x.startswith("-") for x in over.values())
            method = rng.choice(METHODS)
            target, out = f"r{k}.hdf5", d
            opts = ["--output-file", target, "--output-dir", str(out), "--sonic-method", method]
            for n, t in over.items():
                if rng.randrange(8) == 0:       # given twice: the later one counts
                    opts += ["--override", n, "9/7"]
                opts += ["--override", n, t]
            src, before = None, None
            with time_limit(20), swallow_output(), patch.dict(ds_solve.SONIC_METHOD_MAP, {m: search for m in METHODS}):
                if st["op"] in ("solve", "refuse"):
                    conf = d / f"c{k}.cfg"
                    write_cfg(conf, cfg, rng)
                    args = [*opts, str(conf)]
                    if not cfg and rng.randrange(2):
                        conf = None
                else:
                    src = files[st["i"] - 1]
                    before = src.read_bytes()
                    args = [*opts, str(src), st["s"]]
                mod = ds_resolve if src else ds_solve
                if st["op"] == "refuse":
                    bad = rng.choice(["no_such", "Start", "gamma", "nkepler", " start", "β", "config_filename", ""])
                    args = [x for n, t in over.items() if not t.startswith("-") for x in ("--override", n, t)]
                    args[rng.choice([0, len(args)]):0] = ["--override", bad, "1"]
                    args += [*opts[:6], str(conf or d / "none.cfg")]
                    try:
                        mod.main(args)
                        log.append(dict(ev="accepted unknown override", name=bad))
                    except ds_solve.SolverError:
                        log.append(dict(ev="refuse") if not seen and not (out / target).exists()
                                   else dict(ev="refused too late"))
                    continue
                if cli and (src or conf):
                    rc = mod.main(args)
                elif src:
                    mod.resolve(output_file=target, sonic_method=method, soln_filename=src, soln_range=st["s"],
                                output_dir=out, store_internal=False,
                                overrides=over if over or rng.randrange(2) else None)
                else:
                    mod.solve(output_file=target, sonic_method=method, config_file=conf, output_dir=out,
                              store_internal=False, overrides=over if over or rng.randrange(2) else None)
                path = out / target
                files.append(path)
                with h5open(path, registries, mode="r") as h:
                    run = h["run"]
                    base = [run.based_on_solution_filename, run.based_on_solution_solution_name]
                    if base == [None, None]:
                        base = []
                    else:
                        names = [str(x) for x in files]
                        base = [names.index(base[0]) + 1 if base[0] in names else BAD, base[1]]
                    sols = [look_inp(run.solutions[str(n)].solution_input) for n in range(len(drifts))]
                    rec = dict(ev=st["op"], used=seen[0] if len(seen) == 1 else {}, conf=look_conf(run.config_input),
                               base=base, sols=sols, drifts=drifts, fin=st["fin"], ov=ov,
                               er=tok_number("use_E_r", run.use_E_r))
                if src:
                    rec.update(i=st["i"], s=st["s"], unchanged=src.read_bytes() == before)
                else:
                    rec["cfg"] = cfg
                log.append(rec)
    except (Exception, SystemExit, Hang) as e:
        log.append(dict(ev="UnexpectedError", op=st["op"], what=repr(e)[:300]))
    shutil.rmtree(d)
    return log


CFG = """SPECIFICATION MCSpec
CONSTANTS Mode = "{mode}"
INVARIANTS EveryText Consistent Faithful
PROPERTIES Untouched
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def run(ctx, again):
    rng = random.Random(ctx.seed)
    groups = []
    if again:
        one = ctx.generate("SettingsMC", CFG.format(mode="again"), name="one setting, solved again")
        rng.shuffle(one)
        groups.append(("one setting, solved again", one[:420] if ctx.quick else one))
    else:
        one = ctx.generate("SettingsMC", CFG.format(mode="single"), name="one setting")
        groups.append(("one setting", one))
    wide = ctx.generate("SettingsMC", CFG.format(mode="wide"), simulate=260 if ctx.quick else 4000, depth=6, name="everything varies")
    rng.shuffle(wide)
    if again:
        wide = [b for b in wide if any(x["op"] == "resolve" for x in b)]
    else:                                       # only fresh solves, so every step is one
        wide = [[x for x in b if x["op"] != "resolve"] for b in wide]
        wide = [b for b in wide if b]
    groups.append(("everything varies", wide[:160 if ctx.quick else 3000]))
    for name, group in groups:
        d = ctx.fresh("runs")
        ctx.extra[name] = len(group)
        for i in range(0, len(group), 1500):
            traces = pmap(lambda x: play(x[1], d / str(x[0]), random.Random(f"{ctx.seed} {x[0]}")), list(enumerate(group))[i:i + 1500])
            if not i:
                ctx.sample(traces[0][:1])
            ctx.reject(ctx.validate("SettingsTrace", TRACE_CFG.format(""), traces, name=name, timeout=900), "settings used")
