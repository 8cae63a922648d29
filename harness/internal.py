"""Replays behaviours of Internal into the real internal-data containers and records their full contents."""
import random

import numpy as np

from disc_solver.file_format import InternalData, Problems
from vlib import TRACE_CFG, Hang, time_limit

BAD = -999
ANGLES = {1: 0.125, 2: 1.5}
FIELDS = ["derivs", "params", "angles", "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor", "v_φ_taylor", "ρ_taylor"]
JACS = ["derivs", "params", "angles", "jacobians"]


def value(field, i, jac=False):
    """What entry i holds in a field."""
    names = JACS if jac else FIELDS
    x = i + (names.index(field) + 1) / 16 + (0.5 if jac else 0)
    if field in ("derivs", "params"):
        return np.arange(11) / 1024 + x
    if field == "jacobians":
        return np.arange(121).reshape(11, 11) / 1024 + x
    return x


def ids(obj, names, jac):
    out = None
    for f in names:
        seq = getattr(obj, f)
        mine = []
        for v in seq:
            i = int(np.ravel(v)[0])
            mine.append(i if np.array_equal(np.asarray(v), np.asarray(value(f, i, jac))) else BAD)
        if out is None:
            out = mine
        elif out != mine:
            return [BAD]
    return out


def look(r):
    try:
        probs, keys = {}, []
        for k in list(r.problems):
            a = [n for n, v in ANGLES.items() if str(v) == k]
            keys.append(a[0] if a else BAD)
        for n, v in ANGLES.items():
            probs[n] = [int(m.split()[1]) for m in r.problems[v]] if n in keys else []
        return dict(rows=ids(r, FIELDS, False), jacs=ids(r.jacobian_data, JACS, True), probs=[probs[1], probs[2]],
                    keys=keys)
    except Exception as e:
        return dict(rows=[BAD], jacs=[BAD], probs=[[], []], keys=[], why=repr(e))


def play(beh, rng, nnames):
    recs = {n: InternalData() for n in range(1, nnames + 1)}
    nxt, log = 1, []
    for st in beh["steps"]:
        op, x, y, z = st["op"], st["x"], st["y"], st["z"]
        ev = dict(ev=op, x=x, y=y, z=z, yes=False)
        try:
            with time_limit(10):
                if op == "fresh":
                    recs[x] = InternalData()
                elif op == "note":
                    for f in FIELDS:
                        getattr(recs[x], f).append(value(f, nxt))
                    nxt += 1
                elif op == "jac":
                    for f in JACS:
                        getattr(recs[x].jacobian_data, f).append(value(f, nxt, True))
                    nxt += 1
                elif op == "report":
                    key = ANGLES[y] if rng.getrandbits(1) else np.float64(ANGLES[y])
                    msgs = [f"problem {nxt + i}" for i in range(z)]
                    nxt += z
                    if z == 1 and rng.getrandbits(1):
                        recs[x].problems[key].append(msgs[0])
                    elif z == 1:
                        recs[x].problems[key] = msgs[0]
                    elif rng.getrandbits(1):
                        recs[x].problems[key] = msgs
                    else:
                        recs[x].problems.update({str(ANGLES[y]): msgs})
                elif op == "forget":
                    del recs[x].problems[ANGLES[y]]
                elif op == "finalise":
                    recs[x]._finalise()
                elif op == "flip":
                    recs[x] = recs[x].flip()
                elif op == "query":
                    ev["yes"] = ANGLES[y] in recs[x].problems
                elif op == "join":
                    recs[z] = recs[x] + recs[y]
        except (Exception, SystemExit, Hang) as e:
            log.append(dict(ev="UnexpectedError", op=op, what=repr(e)[:200]))
            return log
        ev["recs"] = [look(recs[n]) for n in sorted(recs)]
        log.append(ev)
    return log


CFG = """SPECIFICATION MCSpec
CONSTANTS Names = {{{names}}} Angles = {{1, 2}} MaxId = {ids} MaxOps = {ops} MaxLen = {ln}
INVARIANTS FlipTwiceRestores EmptyNeutral NoInventions
{extra}
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    ctx.model("InternalMC", CFG.format(names="1, 2", ids=2 if ctx.quick else 3, ops=5 if ctx.quick else 7, ln=4, extra="VIEW View"), name="exhaustive")
    behs = ctx.generate("InternalMC", CFG.format(names="1, 2, 3", ids=12, ops=14, ln=10, extra="CONSTRAINT Emit"),
                        simulate=300 if ctx.quick else 8000, depth=15, name="long")
    rng = random.Random(ctx.seed)
    short = ctx.generate("InternalMC", CFG.format(names="1, 2", ids=3, ops=3 if ctx.quick else 4, ln=4, extra="CONSTRAINT Emit"), name="short")
    rng.shuffle(short)
    short = short[:2500 if ctx.quick else 30000]
    ctx.extra["short_histories"] = len(short)
    cfg = "CONSTANTS Names = {{{}}} Angles = {{1, 2}}\n".format
    for name, group, n in (("short", short, 2), ("long", behs[:800 if ctx.quick else 8000], 3)):
        traces = [play(b, rng, n) for b in group]
        ctx.sample(traces[0][:6])
        rej = ctx.validate("InternalTrace", TRACE_CFG.format(cfg(", ".join(map(str, range(1, n + 1))))), traces, name=name)
        ctx.reject(rej, "internal-data records")
