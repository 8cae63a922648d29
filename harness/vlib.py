"""Shared machinery: running TLC, collecting generated behaviours, validating recorded traces, reporting."""
import contextlib
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The checking machinery itself failed (never a verdict about the code)."""


class Hang(BaseException):
    """Raised inside code under test when it exceeds its time budget."""


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what, self.detail = what, detail


@contextlib.contextmanager
def time_limit(seconds):
    def onalarm(*_):
        raise Hang(f"no result after {seconds}s")
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.scratch = Path(tempfile.mkdtemp(prefix=f"vp-{prop}-"))
        self.t0 = time.time()
        self.states = self.transitions = self.validated = self.events = 0
        self.models = []
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.violations = []
        self.known = []
        self.findings = [json.loads(x) for x in (VERIF / "known_findings.jsonl").read_text().splitlines()
                         if x.strip() and not x.startswith(("#", "fixed:"))] \
            if (VERIF / "known_findings.jsonl").exists() else []
        self._n = 0

    def fresh(self, name="d"):
        self._n += 1
        d = self.scratch / f"{name}{self._n}"
        d.mkdir()
        return d

    # --- TLC -----------------------------------------------------------------
    def _tlc(self, module, cfg, *, env=None, workers="auto", extra=(), timeout=600, mem="3g"):
        d = self.fresh("tlc")
        cfgfile = d / f"{module}.cfg"
        cfgfile.write_text(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", f"-Xmx{mem}", "-Xss64m",
               f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={d}", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", str(d / "meta"),
               "-noGenerateSpecTE", "-config", str(cfgfile), *extra, str(SPEC / f"{module}.tla")]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC timed out on {module}")
        out = "\n".join(x for x in (r.stdout + r.stderr).splitlines()
                        if not re.match(r"(Parsing file|Semantic processing|Linting of) ", x))
        shutil.rmtree(d / "meta", ignore_errors=True)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not m:
            ms = re.findall(r"(?:The number of states generated: |Progress: )(\d[\d,]*)", out)
            gen = dist = int(ms[-1].replace(",", "")) if ms else 0
        return r.returncode, out, gen, dist

    def model(self, module, cfg, *, name=None, timeout=600, actions=(), **kw):
        """Exhaustively check a specification; a violation here is a fault of the specification."""
        if os.environ.get("VERIF_CACHE"):       # mutation testing (tools/mutate.py): only the code is in question
            return "No error has been found"
        rc, out, gen, dist = self._tlc(module, cfg, timeout=timeout, **kw)
        if rc != 0 or "No error has been found" not in out:
            raise Machinery(f"specification {module} does not satisfy its own properties:\n{out[-3000:]}")
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, config=name or "MC", distinct_states=dist, states_generated=gen))
        return out

    def generate(self, module, cfg, *, simulate=None, depth=None, timeout=600, name=None, env=None, expect_some=True,
                 workers="auto", **kw):
        """Have TLC write behaviours (one JSON value per line) and return them, deduplicated and sorted."""
        cache = os.environ.get("VERIF_CACHE")
        if cache:
            key = hashlib.sha1(repr((module, cfg, simulate, depth, sorted((env or {}).items()), self.seed, sorted(kw.items()))).encode())
            cache = Path(cache) / key.hexdigest()
            if cache.exists():
                return [json.loads(x) for x in cache.read_text().splitlines()]
        outf = self.fresh("gen") / "beh.ndjson"
        extra = []
        if simulate:
            extra = ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(self.seed), "-aril", "0"]
        rc, out, gen, dist = self._tlc(module, cfg, env=dict(env or {}, OUT=outf), timeout=timeout, extra=extra,
                                       workers=1 if simulate else workers, **kw)
        if rc != 0:
            raise Machinery(f"behaviour generation from {module} failed:\n{out[-3000:]}")
        lines = sorted(set(outf.read_text().splitlines())) if outf.exists() else []
        if expect_some and not lines:
            raise Machinery(f"{module} generated no behaviour:\n{out[-1500:]}")
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, config=name or "Gen", distinct_states=dist, states_generated=gen,
                                behaviours=len(lines)))
        vals = (json.loads(x) for x in lines)
        out = [json.loads(v) if isinstance(v, str) else v for v in vals]
        if cache:
            tmp = cache.with_suffix(f".{os.getpid()}")
            tmp.write_text("\n".join(map(json.dumps, out)))
            tmp.rename(cache)
        return out

    def validate(self, module, cfg, traces, *, name=None, timeout=600, meta=None, env=None, quiet=False, count=True, **kw):
        """Check recorded traces against a trace specification. Returns None or a description of the rejection."""
        if not traces:
            raise Machinery("no traces to validate")
        def bad(x):
            if isinstance(x, dict):
                return any(bad(v) for v in x.values())
            if isinstance(x, (list, tuple)):
                return any(bad(v) for v in x)
            return x is None or isinstance(x, float)
        for t in traces:
            for e in t:
                if bad(e):
                    raise Machinery(f"event cannot be given to TLC: {e}")
        f = self.fresh("tr") / "traces.json"
        f.write_text(json.dumps(traces))
        rc, out, gen, dist = self._tlc(module, cfg, env=dict(env or {}, TRACES=f), timeout=timeout, **kw)
        if rc == 0 and "No error has been found" in out:
            need = sum(len(t) for t in traces)
            if dist < need:
                raise Machinery(f"{module}: only {dist} states for {need} recorded events")
            if count:
                self.validated += len(traces)
                self.events += need
                self.states += dist
                self.transitions += gen
                self.models.append(dict(module=module, config=name or "Trace", traces=len(traces), events=need,
                                        distinct_states=dist))
            if os.environ.get("VERIF_SELFTEST"):
                self.corrupted(module, cfg, traces, env, timeout)
            return None
        # an event of a kind the specification cannot even compare with what it expects is rejected like any other
        kindless = re.search(r"Attempted to (?:check equality|compare|apply|select|access|evaluate|enumerate|check if)", out)
        if "is violated" in out or "violated" in out or kindless:
            states = re.split(r"\nState \d+:", out)
            last = states[-1]
            m = re.search(r"tid = (\d+)", last)
            l_ = re.search(r"(?:^|\W)l = (\d+)", last)
            tid = int(m.group(1)) if m else 1
            ln = int(l_.group(1)) if l_ else 0
            tr = traces[tid - 1]
            inv = re.search(r"(?:Invariant|Action property|property) (\S+) (?:is|was) violated", out)
            return dict(spec=module, trace_index=tid - 1, event_index=ln - 1, failed=inv.group(1) if inv else "kind of value" if kindless else "?",
                        event=tr[ln - 1] if 0 < ln <= len(tr) else "after the last event",
                        trace=tr, model_state=last.split("states generated")[0][:4000],
                        meta=meta[tid - 1] if meta else None)
        raise Machinery(f"TLC failed on {module}:\n{out[-3000:]}")

    def corrupted(self, module, cfg, traces, env, timeout):
        """Self-test: how many histories with one value changed are rejected (appended to $VERIF_SELFTEST)?"""
        import copy
        import random
        rng = random.Random(f"{self.seed} {module}")
        bent, where = [], []
        for t in rng.sample(traces, min(len(traces), 60)):
            if len(t) < 2:
                continue
            t = copy.deepcopy(t)
            leaves = []

            def walk(x, path, put):
                if isinstance(x, dict):
                    for k in x:
                        walk(x[k], path + [k], lambda v, x=x, k=k: x.__setitem__(k, v))
                elif isinstance(x, list) and x:
                    for i in range(len(x)):
                        walk(x[i], path + [i], lambda v, x=x, i=i: x.__setitem__(i, v))
                    leaves.append((path, put, x[:-1]))
                elif not (path and path[-1] == "ev"):
                    new = not x if isinstance(x, bool) else x + 1 if isinstance(x, int) else x + "?" if isinstance(x, str) else [7]
                    leaves.append((path, put, new))
            n = rng.randrange(1, len(t))
            walk(t[n], [n], None)
            leaves = [x for x in leaves if x[1]]
            if leaves:
                path, put, new = rng.choice(leaves)
                put(new)
                bent.append(t)
                where.append([path, t[n].get("ev"), new])
        ok, left = 0, list(range(len(bent)))
        # a value of the wrong kind ends TLC at once: such a history is taken out and the others are tried again
        while left:
            f = self.fresh("bent") / "traces.json"
            f.write_text(json.dumps([bent[i] for i in left]))
            rc, out, _, _ = self._tlc(module, cfg, env=dict(env or {}, TRACES=f), timeout=timeout, extra=["-continue"], workers=1)
            seen = set()
            for part in re.split(r"Error: (?:Invariant|Action property|The behavior up|Evaluating|Attempted)", out)[1:]:
                m = re.findall(r"tid = (\d+)", part)
                if m:
                    seen.add(int(m[-1]))
            if not seen:
                break
            ok += len(seen)
            left = [x for n, x in enumerate(left, 1) if n not in seen]
        with open(os.environ["VERIF_SELFTEST"], "a") as f:
            f.write(json.dumps(dict(prop=self.prop, module=module, bent=len(bent), rejected=ok,
                                    accepted=[where[i] for i in left][:8])) + "\n")

    # --- reporting -----------------------------------------------------------
    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, detail=None, key=None):
        """Record a violation unless the committed findings file lists exactly this one."""
        for k in self.findings:
            if k["property"] == self.prop and key is not None and k["key"] == key:
                if key not in [x[0] for x in self.known]:
                    self.known.append((key, k["what"]))
                return
        self.violations.append(dict(what=what, detail=detail, key=key))

    def reject(self, rej, what):
        if rej is not None:
            self.violation(f"{what}: recorded event not allowed by {rej['spec']} ({rej['failed']}): "
                           f"{json.dumps(rej['event'], ensure_ascii=False)[:400]}", rej)

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=getattr(self, "level", "model_checking"),
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated, events_validated=self.events,
                                samples=self.samples or ["(none)"], models=self.models, **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, ensure_ascii=False, indent=1, default=str))
        rp = VERIF / "evidence" / f"{self.prop}.replay.json"
        rp.unlink(missing_ok=True)
        for key, what in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        if self.violations:
            rp.write_text(json.dumps(self.violations[:20], ensure_ascii=False, indent=1, default=str))
            for v in self.violations[:5]:
                print("  ", v["what"][:600])
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(f"OK property={self.prop} states={self.states} traces={self.validated} wall={ev['wall_s']}s")
        return 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


_job = None


def _do(i):
    try:
        return _job[0](_job[1][i])
    except (SystemExit, KeyboardInterrupt) as e:      # would end the worker and leave the pool waiting for it
        raise RuntimeError(f"unexpected {e!r}") from e


def pmap(fn, items, procs=None):
    """[fn(x) for x in items] in forked workers (fn must not depend on what earlier calls left behind)."""
    global _job
    import multiprocessing
    items = list(items)
    procs = procs or min(8, os.cpu_count() or 1)
    if procs < 2 or len(items) < 16:
        return [fn(x) for x in items]
    _job = (fn, items)
    try:
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            return pool.map_async(_do, range(len(items)), chunksize=max(1, len(items) // (procs * 8))).get(timeout=3600)
    finally:
        _job = None


# --- access to the code under test -------------------------------------------
def setup_env(scratch):
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["MPLCONFIGDIR"] = str(scratch / "mpl")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ.pop("NO_CACHE", None)
    os.environ.pop("DISC_SOLVER_DISABLE_THREADING", None)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import logbook
    logbook.NullHandler().push_application()


def ds_modules():
    return [m for n, m in list(sys.modules.items())
            if (n == "disc_solver" or n.startswith("disc_solver.")) and isinstance(m, types.ModuleType)]


@contextlib.contextmanager
def replaced(orig, new, *also):
    """Replace a function wherever a module of the code under test (or one of also) refers to it."""
    undo = []
    for m in (*ds_modules(), *also):
        for k, v in list(vars(m).items()):
            if v is orig:
                undo.append((m, k))
                setattr(m, k, new)
    try:
        if not undo:
            raise Machinery(f"nothing refers to {orig!r}")
        yield
    finally:
        for m, k in undo:
            setattr(m, k, orig)


@contextlib.contextmanager
def swallow_output():
    """Silence chatter of the code under test (python-level stdout/stderr)."""
    import io
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout, sys.stderr
    finally:
        sys.stdout, sys.stderr = so, se


TRACE_CFG = "SPECIFICATION TraceSpec\nINVARIANT NotStuck\n{}CHECK_DEADLOCK FALSE\n"


@contextlib.contextmanager
def quiet_stderr():
    """Keep what the code under test writes to its standard error out of the check's output."""
    if os.environ.get("VERIF_DEBUG"):
        yield
        return
    sys.stderr.flush()
    keep, null = os.dup(2), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        yield
    finally:
        sys.stderr.flush()
        os.dup2(keep, 2)
        os.close(keep)
        os.close(null)


def from_code_under_test(e):
    """Whether an exception was raised in (or below) a call into the code under test."""
    import disc_solver
    root = str(Path(disc_solver.__file__).resolve().parent)
    while e is not None:
        if any(f.filename.startswith(root) for f in traceback.extract_tb(e.__traceback__)):
            return True
        if root in str(getattr(e, "tb", "")):          # raised in a worker
            return True
        e = e.__cause__ or e.__context__
    return False


def main(argv):
    import importlib
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    try:
        setup_env(ctx.scratch)
        os.chdir(ctx.fresh("cwd"))        # whatever the code writes to the current directory goes away with it
        with quiet_stderr():
            mod = importlib.import_module(f"checks.{prop.lower()}")
            mod.run(ctx)
        rc = ctx.finish()
    except Machinery as e:
        print("MACHINERY FAILURE", e)
        rc = 2
    except BaseException as e:
        traceback.print_exc()
        rc = 3
        if not isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)) and from_code_under_test(e):
            ctx.violation(f"the code under test fails unexpectedly: {type(e).__name__}: {e}"[:400],
                          detail=traceback.format_exc()[-3000:])
            rc = ctx.finish()
    finally:
        os.chdir("/")
        ctx.cleanup()
    sys.stdout.flush()
    return rc
