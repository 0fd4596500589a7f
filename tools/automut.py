#!/usr/bin/env python3
"""Systematic small changes to the library, each run against the checks of its
file until one objects: tools/automut.py OUT.jsonl [SHARD/OF] [FILES...].
Prints the survivors; a tool for finding blind spots, not a check."""
import ast
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "high_order_layers_torch"
CHECKS = {
    "Basis.py": "C27 C01 C02 C03 C05 C07 C04 C09 C24 C28 C11 C22",
    "LagrangePolynomial.py": "C27 C03 C24 C04 C01 C28 C09 C11",
    "PolynomialLayers.py": "C01 C02 C03 C24 C28 C05 C11 C12 C16 C15 C23 C13 C10 C04 C26 C06",
    "ProductLayer.py": "C05 C15 C13 C06",
    "FunctionalConvolution.py": "C07 C15 C04 C13 C27 C23 C18",
    "FunctionalConvolutionTranspose.py": "C08 C15 C13 C23 C18",
    "attentions.py": "C20 C06 C22",
    "layers.py": "C23 C17 C14 C19 C05 C18 C11 C12 C16 C15 C06",
    "modules.py": "C26 C23",
    "networks.py": "C17 C18 C19 C21 C11 C12 C16 C15 C23 C26 C13 C06",
    "positional_embeddings.py": "C25 C23",
    "utils.py": "C14 C13 C19 C18 C16 C15 C26",
    "sparse_optimizers/sparse_lion.py": "C10 C26",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.FloorDiv: [ast.Div], ast.Pow: [ast.Mult]}


def skip(node):
    s = ast.unparse(node)
    return s.startswith(("logger.", "print(", "warnings.")) or "logger" in s[:8]


def sites(tree):
    """(description, function that changes a copy in place by node index)"""
    out = []
    nodes = list(ast.walk(tree))
    doc = set()
    for nd in nodes:
        if isinstance(nd, (ast.FunctionDef, ast.ClassDef, ast.Module)) and nd.body and isinstance(nd.body[0], ast.Expr) and isinstance(nd.body[0].value, ast.Constant):
            doc.add(id(nd.body[0].value))
        if isinstance(nd, ast.Expr) and (isinstance(nd.value, ast.Constant) or skip(nd)):
            doc.update(id(q) for q in ast.walk(nd))
        if isinstance(nd, ast.Raise):
            doc.update(id(q) for q in ast.walk(nd))
        for f in ("annotation", "returns"):
            if getattr(nd, f, None) is not None:
                doc.update(id(q) for q in ast.walk(getattr(nd, f)))
    for i, nd in enumerate(nodes):
        if id(nd) in doc:
            continue
        ln = getattr(nd, "lineno", 0)
        if isinstance(nd, ast.Compare):
            for new in CMP.get(type(nd.ops[0]), []):
                out.append((ln, f"cmp {new.__name__}", i, lambda q, new=new: q.ops.__setitem__(0, new())))
        elif isinstance(nd, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(nd.op), []):
                out.append((ln, f"bin {new.__name__}", i, lambda q, new=new: setattr(q, "op", new())))
        elif isinstance(nd, ast.Constant) and not isinstance(nd.value, str) and nd.value is not None and nd.value is not Ellipsis:
            v = nd.value
            alts = [not v] if isinstance(v, bool) else [v + 1] + ([v - 1] if v else []) if isinstance(v, int) else [v * 2 + 0.25] if isinstance(v, float) else []
            for a in alts:
                out.append((ln, f"const {v}->{a}", i, lambda q, a=a: setattr(q, "value", a)))
        elif isinstance(nd, ast.BoolOp):
            out.append((ln, "and/or", i, lambda q: setattr(q, "op", ast.Or() if isinstance(q.op, ast.And) else ast.And())))
        elif isinstance(nd, ast.UnaryOp) and isinstance(nd.op, (ast.Not, ast.USub)):
            out.append((ln, "drop unary", i, lambda q: setattr(q, "op", ast.UAdd()) if isinstance(q.op, ast.USub) else (setattr(q, "op", ast.Not()), setattr(q, "operand", ast.UnaryOp(op=ast.Not(), operand=q.operand)))))
        elif isinstance(nd, ast.If):
            out.append((ln, "if True", i, lambda q: setattr(q, "test", ast.Constant(value=True))))
            out.append((ln, "if False", i, lambda q: setattr(q, "test", ast.Constant(value=False))))
        elif isinstance(nd, ast.Call):
            for k, kw in enumerate(nd.keywords):
                out.append((ln, f"drop keyword {kw.arg}", i, lambda q, k=k: q.keywords.pop(k)))
            if len(nd.args) >= 2 and not any(isinstance(a, ast.Starred) for a in nd.args):
                out.append((ln, "swap arguments", i, lambda q: q.args.__setitem__(slice(0, 2), q.args[1::-1])))
            if isinstance(nd.func, ast.Attribute) and isinstance(nd.func.value, (ast.Call, ast.Name, ast.Attribute)) and not nd.args and not nd.keywords and nd.func.attr not in ("__init__", "parameters", "modules", "items", "keys", "values"):
                out.append((ln, f"drop .{nd.func.attr}()", i, None))
        elif isinstance(nd, (ast.Expr, ast.Assign, ast.AugAssign)) and not isinstance(nd, ast.AugAssign):
            if isinstance(nd, ast.Expr) and isinstance(nd.value, ast.Call):
                out.append((ln, "drop statement", i, lambda q: setattr(q, "value", ast.Constant(value=None))))
    return out


class DropCall(ast.NodeTransformer):
    def __init__(self, target):
        self.t = target

    def visit_Call(self, n):
        self.generic_visit(n)
        return n.func.value if n is self.t else n


def mutant(src, site):
    tree = ast.parse(src)
    nd = list(ast.walk(tree))[site[2]]
    before = ast.unparse(nd)
    if site[3] is None:
        tree = DropCall(nd).visit(tree)
    else:
        site[3](nd)
    ast.fix_missing_locations(tree)
    new = ast.unparse(tree)
    compile(new, "m", "exec")
    return new, before


def main():
    out, shard, files = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "0/1", sys.argv[3:]
    k, of = map(int, shard.split("/"))
    work = []
    for f in CHECKS:
        if files and f not in files:
            continue
        src = open(f"/repo/{PKG}/{f}").read()
        for s in sites(ast.parse(src)):
            work.append((f, src, s))
    random.Random(1).shuffle(work)
    work = [w for i, w in enumerate(work) if i % of == k]
    part = float(os.environ.get("PART", "0.35"))  # share of every check's cases
    print(len(work), "mutants", flush=True)
    sys.path.insert(0, VERIF)
    from hol import core

    core.load_repo()
    sys.path.remove(core.REPO)
    done = open(out, "a")

    def child(w, d):
        core.REPO = d
        sys.path.insert(0, d)
        f = w[0]
        try:
            core.import_checked()
        except BaseException:
            return "import"
        for c in CHECKS[f].split():
            mod = importlib.import_module(f"hol.checks.{c.lower()}")
            tasks = [(n, i) for n, spec in mod.SCENARIOS.items() for i in range(spec[1])]
            random.Random(1).shuffle(tasks)
            for n, i in tasks[: int(len(tasks) * part) + 1]:
                r = core.run_one(c, mod, n, i, 1, "quick")
                if "violation" in r:
                    return c
                if "error" in r:
                    return c + " error " + r["error"][-200:]
        return None

    def start(w):
        f, src, s = w
        try:
            new, before = mutant(src, s)
        except Exception:
            return None
        if new == ast.unparse(ast.parse(src)):
            return None
        d = tempfile.mkdtemp(prefix="am", dir="/tmp/am")
        subprocess.run(f"git -C /repo archive HEAD {PKG} | tar x -C {d}", shell=True, check=True)
        open(f"{d}/{PKG}/{f}", "w").write(new)
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                resource.setrlimit(resource.RLIMIT_CPU, (900, 900))
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                r = child(w, d)
            except BaseException as e:
                r = "crash " + repr(e)[:100]
            with open(d + "/result", "w") as fh:
                json.dump(r, fh)
            os._exit(0)
        return pid, (w, d, before)

    running = {}
    jobs = int(os.environ.get("JOBS", "8"))
    work.reverse()
    while work or running:
        while work and len(running) < jobs:
            q = start(work.pop())
            if q:
                running[q[0]] = q[1]
        if not running:
            continue
        pid, status = os.wait()
        if pid not in running:
            continue
        (f, src, s), d, before = running.pop(pid)
        try:
            caught = json.load(open(d + "/result"))
        except Exception:
            caught = f"status {status}"
        shutil.rmtree(d, ignore_errors=True)
        done.write(json.dumps(dict(file=f, line=s[0], what=s[1], at=before[:160], caught=caught)) + "\n")
        done.flush()
        if caught is None or len(caught) > 6:
            print(caught or "SURVIVED", f, s[0], s[1], "|", before[:110].replace("\n", " "), flush=True)


if __name__ == "__main__":
    main()
