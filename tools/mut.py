"""Quick mutants: apply an edit to a scratch copy, run the checks, report what survives.
usage: mut.py FILE [ids...] [--tests] ; FILE defines MUTS = [(id, prop[s], file, old, new[, nth])]"""
import json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
muts = runpy.run_path(args[0])["MUTS"]
want = set(args[1:])
tests = "--tests" in sys.argv
sc = tempfile.mkdtemp(prefix="mut", dir="/tmp")
repo = sc + "/repo"
subprocess.run(["cp", "-a", "/repo", repo], check=True)
base = json.load(open("/opt/vp/BASELINE.json")) if tests else None
try:
    for m in muts:
        i, props, f, old, new = m[:5]
        nth = m[5] if len(m) > 5 else None
        if want and i not in want:
            continue
        p = f"{repo}/high_order_layers_torch/{f}"
        s = open(p).read()
        n = s.count(old)
        if n == 0 or (n > 1 and nth is None):
            print(f"{i}: BAD EDIT ({n} matches)", flush=True)
            continue
        if nth is None or n == 1:
            t = s.replace(old, new)
        else:
            parts = s.split(old)
            t = old.join(parts[: nth + 1]) + new + old.join(parts[nth + 1 :])
        open(p, "w").write(t)
        try:
            for prop in props.split():
                r = subprocess.run(["/opt/venv/bin/python", "run.py", prop, "--tier", "quick"], cwd=VERIF, env=dict(os.environ, HOL_REPO=repo, VERIF_SEED="1"), capture_output=True, text=True)
                out = (r.stdout + r.stderr).strip().splitlines()
                v = [l for l in out if "VIOLATION" in l]
                d = [l for l in out if l.strip().startswith("[")]
                print(f"{i} {prop}: {'caught' if r.returncode == 1 and v else 'SURVIVED rc=%d' % r.returncode} {(d[0][:150] if d else out[-1][:150]) if out else ''}", flush=True)
                if r.returncode == 0:
                    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-n", "8", "tests"], cwd=repo, capture_output=True, text=True) if tests else None
                    if r: print("    tests:", r.stdout.strip().splitlines()[-1])
        finally:
            open(p, "w").write(s)
finally:
    shutil.rmtree(sc)
