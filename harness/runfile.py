"""Replays behaviours of RunFile into the real code and records what actually happened."""
import contextlib
import hashlib
import os
import random
import signal
from pathlib import Path
from unittest import mock

import h5py
import h5preserve
from h5preserve import open as h5open

import disc_solver.solve as dsolve
from disc_solver.file_format import registries, Run
from disc_solver.solve.csvrunner import csvrunner
from disc_solver.solve.hdf5runner import hdf5runner
from disc_solver.solve.resolve import resolve
from disc_solver.solve.utils import SolverError
from disc_solver.utils import nicer_mp_pool

import tokens
from vlib import Hang, Machinery, replaced, swallow_output, time_limit

METHOD = "single"
FOREIGN_KINDS = ("garbage", "empty", "valid", "directory")


class Boom(Exception):
    pass


class FakePool:
    """In-process stand-in for a worker pool (scheduling is the subject of other checks)."""
    def imap(self, func, iterable, chunksize=1):
        for x in iterable:
            yield func(x)

    def map(self, func, iterable, chunksize=None):
        return [func(x) for x in iterable]


@contextlib.contextmanager
def fake_pool(*a, **kw):
    yield FakePool()


def digest(path):
    p = Path(path)
    if p.is_dir():
        return "dir:" + ",".join(sorted(x.name for x in p.iterdir()))
    return hashlib.sha256(p.read_bytes()).hexdigest()


def open_ids():
    out = {}
    for fid in h5py.h5f.get_obj_ids(types=h5py.h5f.OBJ_FILE):
        out[os.fspath(h5py.h5f.get_name(fid).decode())] = fid
    return out


def read_result(path):
    with h5open(path, registries, mode="r") as f:
        try:
            run = f["run"]
            label, sols, fin = run.config_input.label, run.solutions, tokens.project(run.final_solution)
        except KeyError:      # no final solution recorded: the run was aborted
            label, sols, fin = f["run/config_input"].label, f["run/solutions"], -1
        keys = sorted(int(k) for k in sols)
        toks = [tokens.project(sols[str(k)]) for k in keys]
    return label, keys, toks, fin


def read_live(path):
    """What the (possibly still open) result file holds right now."""
    fid = open_ids().get(os.fspath(path))
    if fid is None:
        _, keys, toks, _ = read_result(path)
    else:
        f = h5preserve.H5PreserveFile(h5py.File(fid), registries)
        sols = f["run/solutions"]
        keys = sorted(int(k) for k in sols)
        toks = [tokens.project(sols[str(k)]) for k in keys]
    return dict(keys=keys, sols=toks)


def label_to_cfg(label):
    try:
        return int(label.removeprefix("cfg"))
    except ValueError:
        return -1


class Driver:
    def __init__(self, ctx, behaviour, *, rng, entry=None, observe="end", no_cache=False, autoname=False):
        self.rng, self.observe = rng, observe
        self.dir = ctx.fresh("run")
        self.other = ctx.fresh("oth")
        self.entries = ("solve", "resolve", "hdf5runner") if entry is None else (entry,)
        self.no_cache = no_cache
        self.autoname = autoname
        self.beh = behaviour
        self.foreign = {}          # real name -> digest
        self.names = {}            # model name -> real name
        self.trace = []
        self.choices = []
        self.base = None

    # --- directory -----------------------------------------------------------
    def real(self, n):
        return self.names.setdefault(n, f"{n}.hdf5")

    def plant(self, n, kind=None):
        kind = kind or self.rng.choice(FOREIGN_KINDS)
        p = self.dir / self.real(n)
        self.choices.append(f"plant:{kind}")
        if kind == "directory":
            p.mkdir()
        else:
            data = {"garbage": b"not an hdf5 file\n" * 5, "empty": b""}.get(kind)
            if data is None:
                data = self.base_file().read_bytes()
            fd = os.open(p, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
            os.write(fd, data)
            os.close(fd)
        self.foreign[p.name] = digest(p)

    def base_file(self):
        if self.base is None:
            self.base = self.other / "base.hdf5"
            run = Run(config_input=tokens.config(label="base"), config_filename=None, disc_solver_version="1",
                      float_type="f", sonic_method="s")
            with h5open(self.base, registries, mode="x") as f:
                f["run"] = run
                run.solutions.add_solution(tokens.solution(5))
                run.finalise()
            self.base_digest = digest(self.base)
        return self.base

    def listing(self, live=None):
        out = []
        back = {v: k for k, v in self.names.items()}
        for p in sorted(self.dir.iterdir()):
            n = back.get(p.name, p.name)
            o = dict(name=n, kind="foreign", intact=True, sols=[], keys=[], fin=-1, cfg=0)
            if p.name in self.foreign:
                o["intact"] = digest(p) == self.foreign[p.name]
            else:
                try:
                    label, keys, toks, fin = read_result(p)
                    o.update(kind="result", sols=toks, keys=keys, fin=fin, cfg=label_to_cfg(label))
                except Exception as e:
                    o.update(kind=f"unreadable ({type(e).__name__}: {e})"[:200])
            out.append(o)
        return out

    def mem(self, run):
        fs = run.final_solution
        keys = sorted(int(k) for k in run.solutions)
        return dict(sols=[tokens.project(run.solutions[str(k)]) for k in keys], keys=keys, len=len(run.solutions),
                    fin=-1 if isinstance(fs, h5preserve.DelayedContainer) else tokens.project(fs))

    # --- replay --------------------------------------------------------------
    def log(self, ev, **obs):
        self.trace.append(dict(ev, **obs))

    def script(self, ops, outcome, attached, auto):
        """The solver of a run: performs the scripted operations and records what the run shows."""
        def solver(soln_input, run, *, store_internal, **kwargs):
            self.started = True
            self.log(self.start_event)
            added = []
            chosen = any(op["ev"].startswith("Choose") for op in ops)
            for op in ops:
                ev = op["ev"]
                if ev == "Add":
                    added.append(tokens.solution(op["tok"], internal=bool(self.rng.getrandbits(1))))
                    run.solutions.add_solution(added[-1])
                elif ev == "AddAgain":
                    added.append(added[-1])
                    run.solutions.add_solution(added[-1])
                elif ev == "Choose":
                    s = added[op["i"] - 1] if self.rng.getrandbits(1) else run.solutions[str(op["i"] - 1)]
                    run.final_solution = s
                elif ev == "ChooseNone":
                    run.final_solution = None
                elif ev == "ChooseRefused":
                    pick = added[self.rng.randrange(len(added))] if added else None
                    try:
                        run.final_solution = pick
                    except Exception:
                        pass
                    else:
                        self.log({"ev": "ChooseAccepted"})
                        continue
                if self.observe == "every" or op is ops[-1]:
                    obs = dict(mem=self.mem(run))
                    if attached and not auto:
                        obs["live"] = read_live(self.dir / self.real(self.start_event["name"]))
                    self.log(op, **obs)
                else:
                    self.log(op)
            self.run_obj = run
            if outcome == "Finish":
                # (an unattached run only counts as successful once its final solution was chosen)
                return bool(self.rng.getrandbits(1)) and (attached or chosen)
            raise self.boom
        return solver

    @contextlib.contextmanager
    def racing(self, n):
        """A competing file appears just before the file is created."""
        orig = h5py.h5f.create
        done = []

        def create(*a, **kw):
            if not done:
                done.append(1)
                try:
                    self.plant(n, self.rng.choice(("garbage", "empty", "valid")))
                except OSError:
                    pass
                else:
                    self.log({"ev": "Plant", "name": n})
            return orig(*a, **kw)
        with mock.patch.object(h5py.h5f, "create", create):
            yield
        return

    def call(self, entry, cfg, output_file):
        label = f"cfg{cfg}"
        kw = dict(sonic_method=METHOD, store_internal=False)
        if entry in ("solve",):
            conf = self.other / f"{label}.cfg"
            conf.write_text(f"[config]\nlabel = {label}\n[initial]\nγ = 0.25\n")
            return dsolve.solve(output_file=output_file, config_file=conf, output_dir=self.dir, overrides=None, **kw)
        if entry == "resolve":
            return resolve(output_file=output_file, soln_filename=self.base_file(),
                           soln_range=self.rng.choice(("0", "final", "latest")), output_dir=self.dir,
                           overrides=dict(label=label), **kw)
        row = tokens.config(label="x").asdict()
        csvf = self.other / f"{label}.csv"
        keys = [k for k in row if k != "label"]
        csvf.write_text(",".join(keys) + "\n" + ",".join(f'"{row[k] if row[k] is not None else ""}"' for k in keys) + "\n")
        if entry == "hdf5runner":
            with replaced(nicer_mp_pool, fake_pool):
                return hdf5runner(output_file=output_file, input_file=csvf, nworkers=1, output_dir=self.dir,
                                  overrides=None, label=label, **kw)
        assert entry == "mem"
        out = self.other / f"{label}.out"
        with replaced(nicer_mp_pool, fake_pool):
            return csvrunner(output_file=str(out), input_file=csvf, nworkers=1, overrides=None, label=label, **kw)

    def replay(self):
        first, rest = self.beh[0], list(self.beh[1:])
        self.log(first)
        for n in first["names"]:
            self.plant(n)
        i = 0
        while i < len(rest):
            e = rest[i]
            if e["ev"] == "Plant":
                nxt = rest[i + 1] if i + 1 < len(rest) else None
                if nxt and nxt["ev"] == "Refuse" and nxt["name"] == e["name"] and self.rng.getrandbits(1):
                    self.start(nxt, [], None, late=e["name"])
                    i += 2
                    continue
                self.plant(e["name"])
                self.log(e)
                i += 1
            elif e["ev"] == "Refuse":
                self.start(e, [], None)
                i += 1
            else:
                j = i + 1
                while rest[j]["ev"] not in ("Finish", "Abort"):
                    j += 1
                self.start(e, rest[i + 1:j], rest[j]["ev"])
                i = j + 1
        if self.base is not None and digest(self.base) != self.base_digest:
            self.log({"ev": "BaseRunModified"})
        return self.trace

    def start(self, e, ops, outcome, late=None):
        self.base_file()
        self.started = False
        self.run_obj = None
        mem = e["ev"] == "StartMem"
        entry = "mem" if mem else self.rng.choice(self.entries)
        self.boom = self.rng.choice((RuntimeError("scripted"), KeyboardInterrupt("scripted"), Boom("scripted"),
                                     SolverError("scripted")))
        self.choices.append(f"{entry}:{type(self.boom).__name__ if outcome == 'Abort' else outcome}")
        cfg = e.get("cfg", 99)
        name = e.get("name")
        auto = e["ev"] == "Start" and self.autoname
        self.start_event = dict(e) if e["ev"] != "Refuse" else {"ev": "Start", "name": name, "cfg": cfg}
        before = {p.name for p in self.dir.iterdir()}
        exc = None
        env = dict(os.environ)
        env.pop("NO_CACHE", None)
        if self.no_cache:
            env["NO_CACHE"] = "1"
        with contextlib.ExitStack() as st:
            st.enter_context(mock.patch.dict(os.environ, env, clear=True))
            st.enter_context(mock.patch.dict(dsolve.SONIC_METHOD_MAP, {METHOD: self.script(ops, outcome, not mem, auto)}))
            st.enter_context(swallow_output())
            if late:
                st.enter_context(self.racing(late))
            try:
                with time_limit(60):
                    ret = self.call(entry, cfg, None if auto or mem else self.real(name))
            except (Exception, KeyboardInterrupt, Hang) as x:
                exc = x
        if auto and self.started:
            new = sorted({p.name for p in self.dir.iterdir()} - before)
            if len(new) == 1 and new[0].startswith("base" if entry == "resolve" else f"cfg{cfg}") and new[0].endswith(".hdf5"):
                self.names[name] = new[0]
        if not self.started:
            if exc is None:
                self.log({"ev": "SilentlyNotStarted"})
            elif e["ev"] == "Refuse" or late:
                self.log({"ev": "Refuse", "name": name}, dir=self.listing())
            else:
                self.log({"ev": "FailedToStart", "why": repr(exc)[:300]})
            return
        if exc is not None and exc is not self.boom:
            self.log({"ev": "UnexpectedError", "why": repr(exc)[:300]})
            return
        if outcome is None:
            self.log({"ev": "StartedDespiteTakenName"})
            return
        obs = dict(dir=self.listing())
        if entry in ("solve", "resolve") and outcome == "Finish" and self.run_obj is not None:
            if Path(ret[0]) != self.dir / self.names.get(name, "?"):
                self.log({"ev": "WrongPathReported", "path": str(ret[0])})
                return
        if outcome == "Finish":
            # an unattached run is never finalised by the CSV runner; finalising is the run's own operation
            if mem:
                try:
                    self.run_obj.finalise()
                except Exception as x:
                    self.log({"ev": "UnexpectedError", "why": repr(x)[:300]})
                    return
            if mem:
                obs["mem"] = self.mem(self.run_obj)
            else:
                obs["memfin"] = tokens.project(self.run_obj.final_solution)
        self.log({"ev": outcome}, **obs)


def behaviours(ctx, *, names, sols, runs, length, simulate=None, minsols=0):
    cfg = (f"SPECIFICATION GSpec\nCONSTANTS Names = {{{', '.join(chr(34) + n + chr(34) for n in names)}}}\n"
           f"MaxSols = {sols}\nMaxRuns = {runs}\nMaxLen = {length}\nMinSols = {minsols}\nINVARIANT Emit\nCONSTRAINT GBounded\n"
           "CHECK_DEADLOCK FALSE\n")
    kw = dict(simulate=simulate, depth=length + 1) if simulate else {}
    return ctx.generate("RunFileMC", cfg, name=f"gen names={len(names)} sols={sols} runs={runs} len={length}", **kw)


def run(ctx, focus, *, long_adds=True):
    q = ctx.quick
    ctx.model("RunFileMC", f"""SPECIFICATION GSpec
VIEW vars
CONSTANTS Names = {{"a", "b"}}
MaxSols = {2 if q else 3}
MaxRuns = 2
MaxLen = 1000
MinSols = 0
CONSTRAINT GBounded
INVARIANTS FileMirrorsRun FinalIsRecorded
PROPERTIES NeverOverwritten FinalOnce FinishedHasFinal DefaultIsLast
CHECK_DEADLOCK FALSE
""", name="exhaustive")
    rng = random.Random(ctx.seed)
    single = behaviours(ctx, names=["a"], sols=3, runs=1, length=6)
    multi = behaviours(ctx, names=["a", "b"], sols=2, runs=3, length=12, simulate=400 if q else 3000)
    long = behaviours(ctx, names=["a"], sols=14, runs=1, length=24, simulate=200, minsols=11) if long_adds else []
    long = [b for b in long if sum(e["ev"] in ("Add", "AddAgain") for e in b) >= 11]
    pick = []

    def take(bs, n):
        bs = list(bs)
        rng.shuffle(bs)
        pick.extend(bs[:n])
    nontriv = [b for b in single if len(b) > 2]
    take(nontriv, 120 if q else len(nontriv))
    take([b for b in multi if len(b) >= 6], 60 if q else 1200)
    default = [b for b in long if b[-1]["ev"] == "Finish" and not any(e["ev"].startswith("Choose") for e in b)]
    if long and len(default) < 5:
        raise Machinery("too few long runs that leave the final solution to the default")
    take(long, 5 if q else 60)
    take(default, 5 if q else 40)
    # behaviours in which a started run meets a taken name or a competitor
    take([b for b in multi if any(e["ev"] == "Refuse" for e in b)], 40 if q else 600)
    traces, meta = [], []
    for k, b in enumerate(pick):
        d = Driver(ctx, b, rng=rng, observe=("every", "end")[k % 2], no_cache=(k // 2) % 3 == 0,
                   autoname=k % 7 == 0)
        tr = d.replay()
        traces.append(tr)
        meta.append(dict(behaviour=b, choices=d.choices, no_cache=d.no_cache, autoname=d.autoname))
        import shutil
        shutil.rmtree(d.dir)
        shutil.rmtree(d.other)
    cfg = ("SPECIFICATION TraceSpec\nCONSTANTS Names = {}\nMaxSols = 100\n"
           f"Focus = {{{', '.join(chr(34) + f + chr(34) for f in focus)}}}\nINVARIANT NotStuck\n"
           "CHECK_DEADLOCK FALSE\n")
    rej = ctx.validate("RunFileTrace", cfg, traces, meta=meta)
    ctx.sample(dict(behaviour=pick[0], recorded=traces[0]))
    ctx.extra["aborted_runs"] = sum(e["ev"] == "Abort" for t in traces for e in t)
    ctx.extra["refused_starts"] = sum(e["ev"] == "Refuse" for t in traces for e in t)
    ctx.extra["raced_creations"] = sum(a["ev"] == "Plant" and b["ev"] == "Refuse" for t in traces for a, b in zip(t, t[1:]))
    ctx.extra["longest_run"] = max(sum(e["ev"] in ("Add", "AddAgain") for e in t) for t in traces)
    return rej, traces
