"""
Measures the machinery: makes small random changes ("mutants") in a copy of the sources under
/tmp, runs the checks of the properties anchored in the changed file against the copy, and lists
the mutants no check noticed, for review. Development only, no check uses it.

    python3 tools/mutate.py --files linalg/frame.py --count 40 --jobs 4 --seed 1 --out /tmp/w/mut.jsonl
"""

import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import warnings

warnings.filterwarnings("ignore")

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "/repo/src/sigmaepsilon/math/"

BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.Pow: ["*"],
       ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.MatMult: ["*"]}
BINS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//",
        ast.Mod: "%", ast.MatMult: "@"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "zeros": "ones",
         "any": "all", "all": "any", "empty_like": "zeros_like", "copy": None, "T": None,
         "sin": "cos", "cos": "sin", "floor": "ceil", "ceil": "floor", "sum": "prod",
         "deepcopy": "copy", "sort": None, "reshape": None, "le": "lt", "ge": "gt", "lt": "le", "gt": "ge",
         "axes": "dual", "add": "sub", "iadd": "add"}


def mutants_of(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def pos(l, c):
        return offs[l - 1] + c

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        s, e = span(n)
        return b[s:e].decode()

    out = []

    def add(n, new, what):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((n.lineno, s, e, new, what))

    skip = set()
    for n in ast.walk(tree):
        # annotations, docstrings, decorators, raises, asserts' messages are left alone
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                skip.update(id(x) for x in ast.walk(d))
            for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [n.args.vararg, n.args.kwarg]:
                if a is not None and a.annotation is not None:
                    skip.update(id(x) for x in ast.walk(a.annotation))
            if n.returns is not None:
                skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]:
                add(n, f"({text(n.left)}) {o} ({text(n.right)})", f"{BINS[type(n.op)]} -> {o}")
            if isinstance(n.op, (ast.MatMult, ast.Sub, ast.Div)):
                add(n, f"({text(n.right)}) {BINS[type(n.op)]} ({text(n.left)})", "operands swapped")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for o in CMP[type(n.ops[0])]:
                add(n, f"{text(n.left)} {o} {text(n.comparators[0])}", "comparison")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join(f"({text(v)})" for v in n.values) + ")", "and/or")
            for k in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != k]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({text(v)})" for v in rest) + ")", "term dropped")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, text(n.operand), "unary dropped")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "bool")
            elif isinstance(v, int):
                add(n, str(v + 1), "int+1")
                if v > 0:
                    add(n, str(v - 1), "int-1")
            elif isinstance(v, float) and v != 0:
                add(n, repr(v * 2), "float*2")
        elif isinstance(n, ast.IfExp):
            add(n, f"({text(n.body)})", "ifexp then")
            add(n, f"({text(n.orelse)})", "ifexp else")
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            if NAMES[n.attr]:
                add(n, text(n.value) + "." + NAMES[n.attr], f".{n.attr}")
            elif n.attr == "T":
                add(n, text(n.value), ".T dropped")
        elif isinstance(n, ast.Name) and n.id in ("min", "max", "any", "all") and isinstance(n.ctx, ast.Load):
            add(n, NAMES[n.id], n.id)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "sort", "flatten", "reshape", "transpose") and isinstance(n.func.value, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                add(n, text(n.func.value), f".{n.func.attr}() dropped")
            if len(n.args) >= 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)) and text(n.func) in ("np.copy", "copy", "deepcopy", "np.abs", "abs", "np.array", "np.sort", "np.ascontiguousarray", "np.transpose"):
                add(n, f"({text(n.args[0])})", f"{text(n.func)} dropped")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                aa = [text(a) for a in n.args]
                for k in range(len(aa) - 1):
                    if aa[k] != aa[k + 1]:
                        bb = aa[:]
                        bb[k], bb[k + 1] = bb[k + 1], bb[k]
                        kw = [f"{q.arg}={text(q.value)}" if q.arg else "**" + text(q.value) for q in n.keywords]
                        add(n, f"{text(n.func)}({', '.join(bb + kw)})", "arguments swapped")
            for q in n.keywords:
                if q.arg:
                    aa = [text(a) for a in n.args] + [f"{r.arg}={text(r.value)}" if r.arg else "**" + text(r.value) for r in n.keywords if r is not q]
                    add(n, f"{text(n.func)}({', '.join(aa)})", f"keyword {q.arg} dropped")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) >= 2 and isinstance(n.ctx, ast.Load):
            e = [text(x) for x in n.slice.elts]
            if e[0] != e[1]:
                e[0], e[1] = e[1], e[0]
                add(n, f"{text(n.value)}[{', '.join(e)}]", "indices swapped")
        elif isinstance(n, ast.AugAssign):
            if type(n.op) in BINS:
                add(n, f"{text(n.target)} = {text(n.value)}", "augmented -> plain")
                o = {"+": "-", "-": "+", "*": "/", "/": "*"}.get(BINS[type(n.op)])
                if o:
                    add(n, f"{text(n.target)} {o}= {text(n.value)}", "augmented op")
        elif isinstance(n, ast.If):
            add(n.test, f"True or ({text(n.test)})", "if True")
            add(n.test, f"False and ({text(n.test)})", "if False")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "call dropped")
        if isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(getattr(n, "target", None) or n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "assignment dropped")
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "jump dropped")
    res = []
    for line, s, e, new, what in out:
        nb = b[:s] + new.encode() + b[e:]
        try:
            ast.parse(nb)
        except SyntaxError:
            continue
        res.append({"line": line, "what": what, "old": b[s:e].decode(), "new": new, "src": nb.decode()})
    return res


def props():
    m = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        for f in d["anchors"]["files"]:
            m.setdefault(f.replace("src/sigmaepsilon/math/", ""), []).append(d["id"])
    return m


lock = threading.Lock()


def run(job):
    k, file, m, ps, args = job
    d = f"/tmp/mut/{os.getpid()}_{k}"
    os.makedirs(d, exist_ok=True)
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        with open(f"{d}/src/sigmaepsilon/math/{file}", "w") as f:
            f.write(m["src"])
        env = dict(os.environ, VERIF_DEV_SRC=d + "/src", VERIF_PROCS=str(args.procs), VERIF_HANG="60", VERIF_OUT=d, VERIF_SHRINK="2")
        res = {"file": file, "line": m["line"], "what": m["what"], "old": m["old"], "new": m["new"], "caught": None, "by": {}}
        imp = subprocess.run(["/opt/venv/bin/python", "-c", "import sigmaepsilon.math.linalg, sigmaepsilon.math.optimize, sigmaepsilon.math.approx, sigmaepsilon.math.graph"],
                             env=dict(env, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=d + "/nb"), capture_output=True)
        if imp.returncode:
            res["caught"] = "import"
        else:
            for p in ps:
                r = subprocess.run(["/opt/venv/bin/python", "harness/run.py", p, "--tier", "quick", "--seed", str(args.check_seed)], cwd=HERE, env=env, capture_output=True, text=True)
                res["by"][p] = r.returncode
                if r.returncode == 1:
                    res["caught"] = p
                    break
                if r.returncode != 0:
                    res["error"] = r.stdout[-400:]
                    res["caught"] = p + "(error)"
                    break
        with lock:
            with open(args.out, "a") as f:
                f.write(json.dumps(res) + "\n")
            print(res["caught"], file, m["line"], m["what"], "|", m["old"][:60].replace("\n", " "), "=>", m["new"][:60].replace("\n", " "), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", nargs="*")
    ap.add_argument("--props", nargs="*")
    ap.add_argument("--count", type=int, default=20, help="per file")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--procs", type=int, default=2)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--check-seed", type=int, default=1)
    ap.add_argument("--lines", help="a-b")
    ap.add_argument("--out", default="/tmp/w/mut.jsonl")
    args = ap.parse_args()
    pm = props()
    rnd = random.Random(args.seed)
    jobs = []
    seen = set()
    if os.path.exists(args.out):
        for l in open(args.out):
            d = json.loads(l)
            seen.add((d["file"], d["line"], d["old"], d["new"]))
    for file in args.files or sorted(pm):
        ms = mutants_of(PKG + file)
        ms = [m for m in ms if (file, m["line"], m["old"], m["new"]) not in seen]
        if args.lines:
            a, b = map(int, args.lines.split("-"))
            ms = [m for m in ms if a <= m["line"] <= b]
        rnd.shuffle(ms)
        print(file, len(ms), pm.get(file), file=sys.stderr)
        for m in ms[: args.count]:
            jobs.append((len(jobs), file, m, args.props or pm[file], args))
    rnd.shuffle(jobs)
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
        list(ex.map(run, jobs))


if __name__ == "__main__":
    main()
