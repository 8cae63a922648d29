"""Mutation testing: small syntactic changes to the source, and which checks notice them.

    python3 tools/mutate.py OUT.jsonl [--jobs N] [--per-file N] [--seed S] [FILE[:FUNCTION-REGEX] ...]

Every mutant is a scratch copy of the source; the checks mapped to the function are run on it until one
reports a violation. Survivors are printed for a person to judge (many are equivalent).
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

BASE = Path(os.environ.get("BASE", "/repo")) / "src" / "disc_solver"
CHECK = Path(__file__).resolve().parent.parent / "check"
MAP = [     # file, function regex, checks in order
    ("utils.py", "get_solutions", "A01 A05"),
    ("utils.py", "scale_|convert_|spherical_|get_heights|get_vert", "A06 A04"),
    ("utils.py", "first_closest|interp_for", "A02"),
    ("utils.py", "open_or_stream", "A05 A04"),
    ("utils.py", "main_entry", "L01 A01"),
    ("utils.py", "nicer_mp", "B01 B02"),
    ("utils.py", "is_mono", "A04"),
    ("utils.py", "deduplicate", "S08"),
    ("utils.py", "CaseDep|optionx", "I02 I01"),
    ("utils.py", "expanded", "R01"),
    ("analyse/trajectory.py", "", "T01"),
    ("utils.py", "get_closest", "T01"),
    ("critical_points.py", "", "A02 A05"),
    ("logging.py", "", "L01"),
    ("file_format/_containers.py", "slice|mcmc_vars_str|replace_empty", "I02 I01"),
    ("file_format/_containers.py", "ConfigInput|SolutionInput", "I02 I01 X02 I04 R05"),
    ("file_format/_containers.py", "Problems|JacobianData|InternalData", "S09 R04 S08"),
    ("file_format/_containers.py", "Solutions", "R02 R04 R03 A01 R05"),
    ("file_format/_containers.py", "Run", "R03 R02 X02 R04"),
    ("file_format/_containers.py", "InitialConditions", "R04 X01 S08 S07"),
    ("file_format/_containers.py", "MCMCVars", "I02 R04"),
    ("file_format/_dumpers.py", "", "R04 R02"),
    ("file_format/_loaders.py", "", "R05 R04"),
    ("file_format/_utils.py", "", "R05 I03"),
    ("solve/__init__.py", "", "R01 L01 I01 R03"),
    ("solve/config.py", "define_cond|boundary", "S06 S05 S08"),
    ("solve/config.py", "get_input", "I01"),
    ("solve/config.py", "new_inputs", "I04"),
    ("solve/csvrunner.py", "", "B01 I03 L01"),
    ("solve/hdf5runner.py", "", "B02 R01 L01"),
    ("solve/fast_crosser.py", "", "S04 S06"),
    ("solve/mcmc.py", "", "S05 A05 S06"),
    ("solve/resolve.py", "", "I04 R01 L01"),
    ("solve/shock.py", "", "X02 X01 R01"),
    ("solve/single.py", "", "S06 R03 S04"),
    ("solve/sonic_root.py", "", "S07 S06"),
    ("solve/stepper.py", "splitter|validate|generator_method", "S03 S01 S02"),
    ("solve/stepper.py", "", "S01 S02 S03 S06"),
    ("solve/solution.py", "known_broken", "S04 S01 S06"),
    ("solve/solution.py", "ode_system|jacobian", "S09 S08 S06 S03"),
    ("solve/solution.py", "", "S08 S06"),
    ("solve/utils.py", "validate_solution", "S03"),
    ("solve/utils.py", "override", "I01 L01"),
    ("solve/utils.py", "CSV|csv|labels", "I03 B01"),
    ("solve/utils.py", "filename", "R01 X02 B02"),
    ("solve/utils.py", "velocity_stop|scaled|onroot|ontstop", "S08"),
    ("solve/utils.py", "arguments", "L01 I01 B01 B02"),
    ("solve/hydrostatic.py", "^solver|^solution", "S06 R02"),
    ("solve/mod_hydro.py", "^solver|^solution", "S06 R02"),
    ("analyse/utils.py", "common_arg", "A03"),
    ("analyse/utils.py", "", "A01 A03 L01 A05"),
    ("analyse/stats.py", "", "A04"),
    ("analyse/info.py", "", "A05"),
    ("analyse/plot.py", "", "A01 A03"),
    ("analyse/combine_plot.py", "", "A01 A03"),
    ("analyse/compare_plot.py", "", "A01 A03"),
    ("analyse/component_plot.py", "", "A01 A03"),
    ("analyse/dump_config.py", "", "A05 I02"),
    ("analyse/dump_csv.py", "", "A05 I03"),
    ("analyse/compute_jacobian.py", "main|eval", "A01"),
]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}


def mutants(path):
    text = path.read_bytes()
    tree = ast.parse(text)
    starts = [0]
    for line in text.split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)
    at = lambda line, col: starts[line - 1] + col
    span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    src = lambda n: text[slice(*span(n))].decode()

    def walk(node, where):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            where = where + [node.name]
            for d in node.decorator_list:
                yield from walk(d, where)
        name = ".".join(where)
        out = lambda a, b, new, what: (name, node.lineno, a, b, new, what)
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and where:
            s = src(node)
            if re.match(r"(log|logger|print)\b", s) and "print" not in s:
                return
            yield out(*span(node), "pass", "delete: " + s.split("\n")[0])
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            new = f"{src(node.left)} {CMP[type(node.ops[0])]} {src(node.comparators[0])}"
            yield out(*span(node), "(" + new + ")", f"{src(node)} -> {new}")
        if isinstance(node, ast.BoolOp):
            op = " or " if isinstance(node.op, ast.And) else " and "
            yield out(*span(node), "(" + op.join(f"({src(v)})" for v in node.values) + ")", f"{src(node)} ->{op}")
        if isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, (ast.Constant, ast.JoinedStr)):
            new = f"({src(node.left)}) {BIN[type(node.op)]} ({src(node.right)})"
            yield out(*span(node), "(" + new + ")", f"{src(node)} -> {new}")
        if isinstance(node, ast.If):
            yield out(*span(node.test), f"not ({src(node.test)})", f"negate if {src(node.test)}")
        if isinstance(node, ast.IfExp):
            yield out(*span(node), f"({src(node.orelse)})", f"{src(node)} -> else part")
        if isinstance(node, ast.Constant) and where:
            v = node.value
            if v is True or v is False:
                yield out(*span(node), str(not v), f"{v} -> {not v}")
            elif isinstance(v, (int, float)):
                yield out(*span(node), f"({v} + 1)", f"{v} -> {v} + 1")
            elif v is None:
                yield out(*span(node), "0", "None -> 0")
            elif isinstance(v, str) and re.fullmatch(r"[\w-]+", v):
                yield out(*span(node), repr(v + "x"), f"{v!r} -> {v + 'x'!r}")
        if isinstance(node, ast.Continue):
            yield out(*span(node), "break", "continue -> break")
        if isinstance(node, ast.Break):
            yield out(*span(node), "continue", "break -> continue")
        if isinstance(node, ast.Return) and node.value is not None:
            yield out(*span(node), "return None", f"{src(node)} -> None")
        if isinstance(node, ast.keyword) and node.arg and where and not isinstance(node.value, ast.Constant):
            pass
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and where:
            yield out(*span(node), src(node.value), f"{src(node)} -> without slice")
        for c in ast.iter_child_nodes(node):
            yield from walk(c, where)
    return text, list(walk(tree, []))


def run(job):
    f, text, (name, line, a, b, new, what), checks = job
    d = Path(tempfile.mkdtemp(prefix="mutant."))
    try:
        shutil.copytree(BASE.parent, d / "src", ignore=shutil.ignore_patterns("__pycache__"))
        (d / "src" / "disc_solver" / f).write_bytes(text[:a] + new.encode() + text[b:])
        res = dict(file=f, fn=name, line=line, what=what[:200], by=None, odd=[])
        env = dict(os.environ, PYTHONPATH=str(d / "src"), PYTHONDONTWRITEBYTECODE="1")
        for c in checks:
            try:
                p = subprocess.run([str(CHECK), c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                if p.returncode == 1 and b"VIOLATION" in p.stdout:
                    res["by"] = c
                    break
                if p.returncode:
                    res["odd"].append([c, p.returncode, p.stdout[-300:].decode(errors="replace")])
            except subprocess.TimeoutExpired:
                res["odd"].append([c, "timeout"])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--per-file", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("what", nargs="*")
    args = ap.parse_intermixed_args()
    os.environ.setdefault("VERIF_CACHE", tempfile.mkdtemp(prefix="vcache."))
    rng = random.Random(args.seed)
    jobs = []
    for f in dict.fromkeys(x[0] for x in MAP):
        want = [w for w in args.what if w.split(":")[0] == f]
        if args.what and not want:
            continue
        text, ms = mutants(BASE / f)
        usable = []
        for m in ms:
            if want and ":" in want[0] and not re.search(want[0].split(":")[1], m[0]):
                continue
            checks = next((c for g, r, c in MAP if g == f and (not r or re.search(r, m[0]))), None)
            if checks and m[0]:
                usable.append((f, text, m, checks.split()))
        jobs += rng.sample(usable, min(args.per_file, len(usable)))
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    with open(args.out, "a") as out, ThreadPoolExecutor(args.jobs) as pool:
        for r in pool.map(run, jobs):
            out.write(json.dumps(r, ensure_ascii=False) + "\n")
            out.flush()
            if r["by"] is None:
                print("SURVIVES", r["file"], r["fn"], r["line"], r["what"], r["odd"], flush=True)


if __name__ == "__main__":
    sys.exit(main())
