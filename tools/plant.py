#!/usr/bin/env python3
"""tools/plant.py [ids...]: confirm the planted bugs of tools/bugs.py in a scratch copy of /repo (patch applies, touches
original lines, stable tests pass, demo 0 without and non-zero with it) and write /verif/seeded/<id>/.
tools/plant.py --matrix [ids...] [--all-checks]: run the checks against each seeded bug (scratch copy, HOL_REPO)."""
import importlib.util, json, os, shutil, subprocess, sys, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PKG = "high_order_layers_torch/"
BASE = "2ef2074"

def load():
    out = []
    for f in sorted(os.listdir(os.path.join(ROOT, "tools"))):
        if f.startswith("bugs") and f.endswith(".py"):
            s = importlib.util.spec_from_file_location(f[:-3], os.path.join(ROOT, "tools", f))
            m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
            out += m.BUGS
    ids = [b["id"] for b in out]
    assert len(ids) == len(set(ids)), "duplicate id"
    return out

def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def copy(tag):
    d = f"/tmp/plant_{tag}"
    shutil.rmtree(d, ignore_errors=True)
    sh(f"git -C /repo worktree prune; mkdir -p {d} && git -C {os.environ.get("PLANT_REPO", "/repo")} archive HEAD | tar x -C {d}")
    return d

def edit(d, bug):
    for f, old, new in bug["edits"]:
        p = os.path.join(d, PKG + f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f"{bug['id']}: {s.count(old)} matches in {f} of: {old[:80]!r}")
        open(p, "w").write(s.replace(old, new))

def original_lines():
    return {f: subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{PKG}{f}"], capture_output=True, text=True).stdout.splitlines()
            for f in subprocess.check_output(["git", "-C", "/repo", "ls-tree", "-r", "--name-only", BASE, PKG], text=True).replace(PKG, "").split()}

def confirm(bug):
    i = bug["id"]
    d = copy(i)
    try:
        sh("git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x", cwd=d)
        out = os.path.join(SEEDED, i)
        tmp = f"/tmp/plantdemo_{i}"
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport CUDA_VISIBLE_DEVICES="" OMP_NUM_THREADS=2\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B -W ignore "$here/demo.py"\n')
        os.chmod(tmp + "/demo.sh", 0o755)
        rc0, o0 = sh(f"bash {tmp}/demo.sh", cwd=d)
        edit(d, bug)
        rc, diff = sh("git diff", cwd=d)
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = {l for f, *_ in bug["edits"] for l in ORIG[f]}
        touches = any(l in orig and l.strip() for l in removed)
        rc1, o1 = sh(f"bash {tmp}/demo.sh", cwd=d)
        env = dict(os.environ, PYTHONPATH=d + ":/opt/vp/plugins", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="2", PYTHONDONTWRITEBYTECODE="1")
        rct, ot = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p vp_seed --ignore=tests/test_examples.py tests 2>&1 | tail -5", cwd=d, env=env)
        passed = "1372 passed" in ot and "failed" not in ot
        good = rc0 == 0 and rc1 not in (0,) and passed and touches
        msg = f"{i}: {'ok' if good else 'BAD'} clean={rc0} bug={rc1} tests={ot.strip().splitlines()[-1] if ot.strip() else '?'} original={touches}"
        if not good:
            msg += "\n" + (o0[-600:] if rc0 else "") + (o1[-300:] if rc1 == 0 else "") + ("" if passed else ot[-500:])
            return False, msg
        msg += " | " + (o1.strip().splitlines()[-1][:140] if o1.strip() else "")
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(f"{tmp}/{f}", f"{out}/{f}")
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(tmp, ignore_errors=True)
        return True, msg
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f"/tmp/plantdemo_{i}", ignore_errors=True)

def matrix(ids, all_checks):
    checks = [f"C{k:02d}" for k in range(1, 29)]
    for i in ids:
        prop = json.load(open(f"{SEEDED}/{i}/meta.json"))["property"]
        d = copy("m_" + i)
        try:
            rc, o = sh(f"git init -q; git apply {SEEDED}/{i}/patch.diff", cwd=d)
            if rc: print(i, "patch does not apply", o); continue
            res = {}
            for c in (checks if all_checks else [prop]):
                rc, o = sh(f"/opt/venv/bin/python run.py {c} --tier quick --seed 1", cwd=ROOT, env=dict(os.environ, HOL_REPO=d))
                res[c] = rc
                if c == prop:
                    own = [l for l in o.splitlines() if l.startswith("  [")][:1] or o.splitlines()[-1:]
            caught = [c for c, r in res.items() if r == 1]
            odd = [f"{c}:{r}" for c, r in res.items() if r not in (0, 1)]
            print(f"{i} ({prop}): {'CAUGHT' if prop in caught else 'MISSED'} by {' '.join(caught)} {odd or ''} {own[0][:150]}", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if "--matrix" in a:
        ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEEDED))
        matrix(ids, "--all-checks" in a)
    else:
        ORIG = original_lines()
        bugs = load()
        want = a or [b["id"] for b in bugs if not os.path.exists(os.path.join(SEEDED, b["id"]))]
        with cf.ThreadPoolExecutor(4) as ex:
            for good, msg in ex.map(confirm, [b for b in bugs if b["id"] in want]):
                print(msg, flush=True)
