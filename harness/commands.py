"""Runs the command entry points: exit status, what is printed, files created (Command), and where log records go (Logs)."""
import io
import logging
import os
import random
import re
import sys
import warnings
from pathlib import Path
from unittest import mock

import logbook
from h5preserve import open as h5open

import disc_solver.solve as dsolve
import disc_solver.solve.resolve as dresolve
from disc_solver.analyse.stats import many_file_wrapper
from disc_solver.analyse.utils import analyse_main_wrapper, analyse_main_wrapper_multisolution
from disc_solver.file_format import Run, registries
from disc_solver.solve.utils import SolverError

import tokens
from runfile import digest
from vlib import TRACE_CFG, Hang, swallow_output, time_limit

METHOD = "hydrostatic"


class Crash(Exception):
    pass


def write_cfg(path, label="a label", **kw):
    c = tokens.config(label=label, **kw)
    with open(path, "w") as f:
        c.to_conf_file(f)


class Command:
    def __init__(self, ctx, ask, rng):
        self.ask, self.rng = ask, rng
        self.dir = ctx.fresh("cmd")
        self.out = self.dir / "out"
        self.out.mkdir()
        self.src = self.dir / "source.hdf5"
        self.cfg = self.dir / "a.cfg"
        self.log = [dict(ev="Config", ask=ask)]
        self.known = {}
        if ask["cmd"] == "resoln":
            run = Run(config_input=tokens.config(label="a label", max_steps="321"), config_filename="the.cfg", disc_solver_version="0",
                      float_type="float64", sonic_method="single")
            with h5open(self.src, registries, mode="x") as f:
                f["run"] = run
                for t in (1, 2, 3):
                    s = tokens.solution(t)
                    s.solution_input.max_steps = 321
                    run.solutions.add_solution(s)
                run.final_solution = run.solutions["1"]
        else:
            write_cfg(self.cfg, max_steps="321")

    def argv(self):
        a = self.ask
        argv = []
        self.method = "no_such_method" if a["method"] == "bad" else METHOD
        argv += ["--sonic-method", self.method]
        self.outdir = self.out if a["target"] != "nodir" else self.out / "not" / "there"
        argv += ["--output-dir", str(self.outdir)]
        self.named = None
        if a["target"] in ("named", "taken"):
            self.named = "result.hdf5"
            argv += ["--output-file", self.named]
        if a["target"] == "taken":
            (self.out / self.named).write_bytes(b"something else")
        if a["override"] == "good":
            argv += ["--override", "max_steps", "77"]
        elif a["override"] == "unknown":
            argv += ["--override", "no_such_setting", "77"]
        elif a["override"] == "badvalue":
            argv += ["--override", self.rng.choice(["η_derivs", "use_taylor_jump", "use_E_r"]), "nonsense"]
        self.internal = bool(self.rng.getrandbits(1))
        argv += ["--store-internal"] if self.internal else ["--no-store-internal"]
        argv += ["--quiet"]
        if a["cmd"] == "soln":
            return argv + [str(self.cfg)]
        return argv + [str(self.src if a["source"] != "missing" else self.dir / "absent.hdf5"),
                       {"numbered": "2", "final": "final", "nosuch": "3", "missing": "0"}[a["source"]]]

    def solver(self, soln_input, run, *, store_internal, **kw):
        steps = 77 if self.ask["override"] == "good" else 321
        γ = {"config": .001, "numbered": 3., "final": 2.}[self.ask["source"]]
        ok = (soln_input.max_steps == steps and float(run.config_input.max_steps) == steps and soln_input.γ == γ
              and run.config_input.label == "a label" and run.sonic_method == self.method and store_internal is self.internal and not kw)
        self.log.append(dict(ev="Searching", new=len(self.new()), asked=bool(ok)))
        how = self.ask["how"]
        if how == "crash":
            raise Crash("scripted")
        if how == "error":
            raise SolverError("scripted")
        run.solutions.add_solution(tokens.solution(1))
        return {"found": True, "failed": False, "none": None}[how]

    def new(self):
        """New files (anywhere), other than the ones laid out before."""
        return [p for p in self.dir.rglob("*") if p.is_file() and p not in self.before]

    def run(self, here):
        main = dsolve.main if self.ask["cmd"] == "soln" else dresolve.main
        argv = self.argv()
        self.before = {p: digest(p) for p in self.dir.rglob("*") if p.is_file()}
        os.chdir(self.dir)
        status = 1
        # a method there is not can only be asked for from python
        if self.ask["method"] == "bad" and self.rng.getrandbits(1):
            def main(argv):
                kw = dict(output_file=self.named, sonic_method=self.method, output_dir=self.outdir, store_internal=True,
                          overrides={"max_steps": "77"} if self.ask["override"] == "good" else None)
                if self.ask["cmd"] == "soln":
                    dsolve.solve(config_file=self.cfg, **kw)
                else:
                    dresolve.resolve(soln_filename=Path(argv[-2]), soln_range=argv[-1], **kw)
        try:
            with time_limit(60), mock.patch.dict(dsolve.SONIC_METHOD_MAP, {METHOD: self.solver}), swallow_output() as (so, _):
                try:
                    r = main(argv)
                    status = 0 if r is None else r      # what sys.exit(main()) makes of it
                except SystemExit as e:
                    status = 0 if e.code is None else e.code
                except (Exception, Hang):
                    status = 1
        finally:
            os.chdir(here)
        status = status if isinstance(status, int) else 1
        new = self.new()
        lines = [x for x in so.getvalue().splitlines() if x.strip()]
        named = self.named is None or all(p.name == self.named for p in new)
        printed = bool(new) and bool(lines) and lines[-1] == str(new[0])
        if lines and not printed:
            printed = any(str(self.outdir) in x for x in lines)     # claims a result that is not there
        self.log.append(dict(ev="Ended", status=int(status), printed=printed, new=len(new), kept=bool(
            named and all(p.exists() and digest(p) == d for p, d in self.before.items()) and all(p.parent == self.out for p in new))))
        return self.log


CFG = """SPECIFICATION MCSpec
INVARIANTS ZeroOnlyOnSuccess SuccessIsZero NothingMadeWhenRefused OldKept PrintedExists
{extra}
CHECK_DEADLOCK FALSE
"""

NAMES = {1: "debug", 2: "info", 3: "notice", 4: "warning", 5: "error", 6: "critical"}


class Session:
    """A history of commands in one process, each logging records of its own."""
    def __init__(self, ctx, hist, rng):
        self.hist, self.rng = hist, rng
        self.dir = ctx.fresh("logs")
        self.file = self.dir / "the.log"
        self.err = io.StringIO()
        self.log = []
        self.n = 0
        self.cfg = self.dir / "a.cfg"
        self.src = None

    def source(self):
        if self.src is None:
            self.src = self.dir / "source.hdf5"
            run = Run(config_input=tokens.config(), config_filename="the.cfg", disc_solver_version="0", float_type="float64", sonic_method="single")
            with h5open(self.src, registries, mode="x") as f:
                f["run"] = run
                run.solutions.add_solution(tokens.solution(1))
                run.finalise()
        return str(self.src)

    def emit(self, levels):
        for v in levels:
            self.n += 1
            msg = f"record-{self.n}-"
            how = self.rng.choice(["logbook", "logbook", "stdlib", "warning"])
            if how == "stdlib" and v != 3:
                logging.getLogger("some.library").log({1: 10, 2: 20, 4: 30, 5: 40, 6: 50}[v], msg)
            elif how == "warning" and v == 4:
                with warnings.catch_warnings():
                    warnings.simplefilter("always")
                    warnings.warn(msg)
            else:
                getattr(logbook.Logger("disc_solver.something"), NAMES[v])(msg)
            self.log.append(dict(ev="Record", level=v))

    def command(self, levels, args):
        """One of the entry points, given these arguments, logging these records while it works."""
        kind = self.rng.choice(["soln", "resoln", "analyse", "multi", "many"])
        if kind in ("soln", "resoln"):
            def solver(soln_input, run, **kw):
                self.emit(levels)
                run.solutions.add_solution(tokens.solution(1))
                if self.rng.random() < .2:
                    raise SolverError("scripted")
                return True
            out = ["--output-file", f"{self.n}-{len(self.log)}.hdf5", "--sonic-method", METHOD]
            if kind == "soln":
                write_cfg(self.cfg)
                argv, main = [str(self.cfg)], dsolve.main
            else:
                argv, main = [self.source(), "0"], dresolve.main
            with mock.patch.dict(dsolve.SONIC_METHOD_MAP, {METHOD: solver}):
                try:
                    main(args + out + argv)
                except SolverError:
                    pass
        elif kind == "analyse":
            @analyse_main_wrapper("a command", lambda p: p)
            def main(soln, *, soln_range):
                assert (soln, soln_range) == ("a", "b")
                self.emit(levels)
            main(args + ["a", "b"])
        elif kind == "multi":
            @analyse_main_wrapper_multisolution("a command", lambda p: p)
            def main(pairs):
                assert pairs == [["a", "b"]]
                self.emit(levels)
            main(args + ["-r", "a", "b"])
        else:
            @many_file_wrapper(description="a command")
            def main(args):
                assert args.solution_files == ["a"]
                self.emit(levels)
            main(args + ["a"])

    def ids(self, text):
        return [int(x) for x in re.findall(r"record-(\d+)-", text)]

    def run(self, here):
        sessions = []
        for s in self.hist:
            if s["do"] == "Begin":
                sessions.append((s["conf"], []))
            elif s["do"] == "Record":
                sessions[-1][1].append(s["level"])
        os.chdir(self.dir)
        so, se = sys.stdout, sys.stderr
        threads = os.environ.pop("DISC_SOLVER_DISABLE_THREADING", None)
        try:
            with time_limit(60):
                for c, levels in sessions:
                    self.log.append(dict(ev="Begin", conf=c))
                    args = {"quiet": ["--quiet"], "verbose": [self.rng.choice(["-v", "--verbose"])], "default": [],
                            "level": ["--stderr-level", NAMES.get(c["level"])]}[c["how"]]
                    if c["file"]:
                        args += ["--log-file", str(self.file)]
                        if c["flevel"]:
                            args += ["--log-file-level", NAMES[c["flevel"]]]
                    env = self.rng.choice([None, "yes", "no"])
                    if env:
                        os.environ["DISC_SOLVER_DISABLE_THREADING"] = env
                    sys.stdout, sys.stderr = io.StringIO(), self.err
                    try:
                        self.command(levels, args)
                    finally:
                        sys.stdout, sys.stderr = so, se
                        os.environ.pop("DISC_SOLVER_DISABLE_THREADING", None)
                    self.log.append(dict(ev="End", err=self.ids(self.err.getvalue()),
                                         file=self.ids(self.file.read_text()) if self.file.exists() else []))
        except (Exception, SystemExit, Hang) as e:
            self.log.append(dict(ev="UnexpectedError", what=repr(e)[:300]))
        finally:
            sys.stdout, sys.stderr = so, se
            if threads is not None:
                os.environ["DISC_SOLVER_DISABLE_THREADING"] = threads
            os.chdir(here)
        return self.log


LOGS_CFG = """SPECIFICATION MCSpec
CONSTANTS MaxSessions = {s} MaxRecords = {r} Gen = {g}
INVARIANT InOrder
{extra}
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    q = ctx.quick
    here = os.getcwd()
    rng = random.Random(ctx.seed)
    ctx.model("CommandMC", CFG.format(extra=""), name="exhaustive")
    asks = ctx.generate("CommandMC", CFG.format(extra="CONSTRAINT Emit"), name="cases")
    traces = [Command(ctx, a, rng).run(here) for a in asks for _ in range(1 if q else 6)]
    ctx.sample(traces[0])
    ctx.reject(ctx.validate("CommandTrace", TRACE_CFG.format(
        "INVARIANTS ZeroOnlyOnSuccess SuccessIsZero NothingMadeWhenRefused OldKept PrintedExists\n"), traces, meta=asks), "command")
    ctx.model("LogsMC", LOGS_CFG.format(s=1, r=3, g="FALSE", extra="PROPERTIES OnlyAsked Grow\nVIEW vars"), name="exhaustive logs")
    hists = ctx.generate("LogsMC", LOGS_CFG.format(s=3, r=6, g="TRUE", extra="CONSTRAINT Emit"), simulate=250 if q else 4000, depth=40,
                         name="histories")
    hists = [h for h in hists if any(s["do"] == "Record" for s in h)]
    rng.shuffle(hists)
    hists = hists[:150 if q else 3000]
    # every way of asking once, with a record of every level
    confs = [dict(how=h, level=v, file=f, flevel=w) for h in ("default", "quiet", "verbose", "level") for v in range(7)
             for f in (False, True) for w in range(7) if (h == "level") == (v > 0) and (f or not w)]
    for c in confs:
        lv = [1, 2, 3, 4, 5, 6] + ([5, 1] * 20 if rng.random() < .2 else [])
        hists.append([dict(do="Begin", conf=c)] + [dict(do="Record", level=v) for v in lv])
    traces = [Session(ctx, h, rng).run(here) for h in hists]
    ctx.sample(traces[0])
    ctx.reject(ctx.validate("LogsTrace", TRACE_CFG.format("INVARIANT InOrder\n"), traces, meta=hists), "logging")
