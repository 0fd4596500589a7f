"""Runner: shards the workload over forked workers, collects what the monitors
observed, writes evidence, prints VIOLATION / KNOWN-FINDING lines."""
import argparse
import collections
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HOL_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")
CASE_SECONDS = 150  # a case normally takes milliseconds


class Violation(Exception):
    def __init__(self, what, key=None, detail=None):
        super().__init__(what)
        self.what = what
        self.key = key
        self.detail = detail or {}


class CaseTimeout(BaseException):
    pass


class HarnessError(Exception):
    pass


class Overflowed(BaseException):
    """A deep network drove its own activations to NaN and a layer inside it
    objected to them: no property speaks about that."""


def overflowed(e):
    import torch

    tb, inner = e.__traceback__, 0
    while tb is not None:
        code = tb.tb_frame.f_code
        if code.co_name == "forward":
            inner += 1
            if inner > 1:  # the outermost one was handed the check's own inputs
                for name in code.co_varnames[: code.co_argcount]:
                    v = tb.tb_frame.f_locals.get(name)
                    if torch.is_tensor(v) and v.is_floating_point() and v.numel() and bool(torch.isnan(v).any()):
                        return True
        tb = tb.tb_next
    return False


def load_repo():
    """Import torch and the third party stack first, then the repository from
    its working tree, never from stale byte code."""
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import numpy  # noqa
    import torch

    torch.set_num_threads(1)
    try:
        import pytorch_lightning  # noqa
        import torchmetrics  # noqa
        import omegaconf  # noqa
        import lion_pytorch  # noqa
    except Exception:
        pass
    sys.pycache_prefix = "/nonexistent-hol-pycache"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def import_checked():
    """Import the package under test; a package that no longer imports cannot
    satisfy any property that is about calling it."""
    with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn):
        import high_order_layers_torch as pkg
        from hol import api

        api.load()
    where = os.path.abspath(pkg.__file__)
    if not where.startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError(f"package under test comes from {where}, not {REPO}")


class Ctx:
    """What one case sees: its own random stream and the monitors' ledger."""

    def __init__(self, prop, scenario, index, seed, tier):
        import numpy as np

        self.prop, self.scenario, self.index, self.seed, self.tier = (
            prop,
            scenario,
            index,
            seed,
            tier,
        )
        h = hashlib.sha256(f"{prop}/{scenario}/{index}/{seed}".encode()).digest()
        self.np = np.random.default_rng(list(h[:16]))
        self.tseed = int.from_bytes(h[16:20], "little")
        self.counts = collections.Counter()
        self.sigs = set()
        self.sample = None
        self.known = []
        self.in_cut = 0
        self.calls_made = 0

    # ------------------------------------------------------------ random helpers
    def choice(self, seq, p=None):
        if p is not None:
            import numpy as np

            p = np.asarray(p, float)
            p = p / p.sum()
        return seq[int(self.np.choice(len(seq), p=p))]

    def int(self, a, b):
        return int(self.np.integers(a, b + 1))

    def chance(self, p):
        return bool(self.np.random() < p)

    def uniform(self, a, b):
        return float(self.np.uniform(a, b))

    def torch_gen(self):
        import torch

        g = torch.Generator()
        g.manual_seed(int(self.np.integers(0, 2**31)))
        return g

    # ------------------------------------------------------------ ledger
    def see(self, kind, n=1):
        self.counts[kind] += int(n)

    def sig(self, *parts):
        self.sigs.add(repr(parts))

    def describe(self, **kw):
        if self.sample is None:
            self.sample = {}
        self.sample.update({k: _short(v) for k, v in kw.items()})

    def fail(self, what, key=None, **detail):
        raise Violation(what, key=key, detail={k: _short(v) for k, v in detail.items()})

    def expect(self, cond, what, key=None, **detail):
        self.see("assertions")
        if not cond:
            self.fail(what, key=key, **detail)

    def finding(self, key, what):
        """A defect listed in the known-findings file was seen again."""
        self.known.append((key, what))

    @contextlib.contextmanager
    def cut(self, label, key=None):
        """Run code under test inside its documented domain: an exception that
        it raises is a violation, not an error of the check."""
        self.in_cut += 1
        self.calls_made += 1
        try:
            with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn):
                yield
        except (Violation, HarnessError, CaseTimeout, Overflowed, KeyboardInterrupt):
            raise
        except MemoryError:
            raise
        except BaseException as e:  # noqa
            if overflowed(e):
                raise Overflowed() from e
            tb = traceback.extract_tb(e.__traceback__)
            raise Violation(
                f"{label}: raised {type(e).__name__}: {str(e)[:300]}",
                key=key,
                detail={
                    "trace": [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-6:]]
                },
            ) from e
        finally:
            self.in_cut -= 1

    def rejects(self, label, fn, types=(Exception,), key=None):
        """Code under test must refuse loudly."""
        self.see("rejections_required")
        try:
            with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn):
                out = fn()
        except types:
            return
        except Exception as e:
            self.fail(f"{label}: raised {type(e).__name__} ({str(e)[:200]}) where {[t.__name__ for t in types]} is expected", key=key)
        self.fail(f"{label}: accepted silently (returned {type(out).__name__})", key=key)


def _short(v, limit=400):
    try:
        json.dumps(v)
        s = v
        if isinstance(v, (list, dict, str)) and len(repr(v)) > limit:
            s = repr(v)[:limit] + "..."
        return s
    except Exception:
        s = repr(v)
        return s if len(s) <= limit else s[:limit] + "..."


def run_one(prop, mod, scenario, index, seed, tier):
    import numpy as np
    import torch
    from hol import monitor

    ctx = Ctx(prop, scenario, index, seed, tier)
    fn = mod.SCENARIOS[scenario][0]
    random.seed(ctx.tseed)
    np.random.seed(ctx.tseed & 0x7FFFFFFF)
    torch.manual_seed(ctx.tseed)
    torch.set_default_dtype(torch.float32)
    monitor.reset(ctx)

    def onalarm(sig, frm):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_SECONDS)
    res = {"scenario": scenario, "index": index}
    try:
        fn(ctx)
    except Violation as v:
        res["violation"] = {"what": v.what, "key": v.key, "detail": v.detail}
    except Overflowed:
        ctx.see("overflowed_networks")
    except CaseTimeout:
        if ctx.in_cut:
            res["violation"] = {
                "what": f"call into the library did not return within {CASE_SECONDS} s",
                "key": None,
                "detail": {},
            }
        else:
            res["error"] = "case timed out outside the code under test"
    except MemoryError:
        res["error"] = "out of memory"
    except HarnessError as e:
        res["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:]
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        if overflowed(e):
            ctx.see("overflowed_networks")
            frames = None
        inside = frames and any(f.filename.startswith(os.path.abspath(REPO) + os.sep) for f in frames)
        if frames is None:
            pass
        elif inside or ctx.calls_made:
            # raised by the library, or by the oracle on something the library
            # returned that cannot be read as the promised kind of result
            res["violation"] = {
                "what": f"{'library raised' if inside else 'result cannot be interpreted'}: {type(e).__name__}: {str(e)[:300]}",
                "key": None,
                "detail": {"trace": [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in frames[-6:]]},
            }
        else:
            res["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        monitor.disarm()
        torch.set_grad_enabled(True)
    res["counts"] = ctx.counts
    res["sigs"] = ctx.sigs
    res["sample"] = ctx.sample
    res["known"] = ctx.known
    return res


def worker(prop, modname, tasks, seed, tier, path, progress, deadline):
    import torch

    torch.set_num_threads(1)
    mod = importlib.import_module(modname)
    out = []
    agg = {
        "counts": collections.Counter(),
        "sigs": set(),
        "samples": [],
        "known": {},
        "violations": [],
        "errors": [],
        "done": collections.Counter(),
        "skipped": 0,
    }
    pf = open(progress, "w")
    for scenario, index in tasks:
        if time.time() > deadline:
            agg["skipped"] += 1
            continue
        pf.seek(0)
        pf.write(json.dumps([scenario, index]).ljust(120))
        pf.flush()
        r = run_one(prop, mod, scenario, index, seed, tier)
        agg["done"][scenario] += 1
        agg["counts"].update(r["counts"])
        agg["sigs"] |= r["sigs"]
        if r["sample"] and len(agg["samples"]) < 40 and not any(
            s["scenario"] == scenario for s in agg["samples"][-3:]
        ):
            agg["samples"].append({"scenario": scenario, "index": index, **r["sample"]})
        for k, w in r["known"]:
            agg["known"].setdefault(k, w)
        if "violation" in r:
            agg["violations"].append(
                {"scenario": scenario, "index": index, "sample": r["sample"], **r["violation"]}
            )
            if len(agg["violations"]) >= 25:
                break
        if "error" in r:
            agg["errors"].append({"scenario": scenario, "index": index, "error": r["error"]})
            if len(agg["errors"]) >= 5:
                break
    with open(path + ".tmp", "wb") as f:
        pickle.dump(agg, f)
    os.replace(path + ".tmp", path)


def load_known(prop):
    try:
        data = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in data.get("known", []) if e["property"] == prop}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("HOL_WORKERS", "0")))
    ap.add_argument("--scenario")
    ap.add_argument("--case")
    a = ap.parse_args(argv)
    t0 = time.time()
    prop, tier, seed = a.property, a.tier, a.seed
    modname = f"hol.checks.{prop.lower()}"
    load_repo()
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        import_checked()
    except HarnessError:
        raise
    except Exception as e:
        return report_import_failure(prop, tier, seed, e, t0)
    mod = importlib.import_module(modname)

    if a.replay:
        rp = json.load(open(a.replay))
        r = run_one(prop, mod, rp["scenario"], rp["index"], rp["seed"], rp["tier"])
        print(json.dumps({k: _short(v, 4000) for k, v in r.items()}, indent=1, default=str))
        return 1 if "violation" in r else (2 if "error" in r else 0)

    tasks = []
    for name, spec in mod.SCENARIOS.items():
        if a.scenario and name != a.scenario:
            continue
        n = spec[1] if tier == "quick" else spec[2]
        for i in range(n):
            if a.case is not None and i != int(a.case):
                continue
            tasks.append((name, i))
    W = a.workers or min(8, os.cpu_count() or 1)
    W = max(1, min(W, len(tasks)))
    # heavy scenarios are spread: round robin over a deterministic shuffle
    random.Random(seed).shuffle(tasks)
    deadline = t0 + (600 if tier == "quick" else 3300)
    tmp = tempfile.mkdtemp(prefix=f"hol_{prop}_")
    procs = []
    fctx = mp.get_context("fork")
    import torch  # noqa

    try:
        for w in range(W):
            path = os.path.join(tmp, f"r{w}")
            prog = os.path.join(tmp, f"p{w}")
            p = fctx.Process(
                target=worker,
                args=(prop, modname, tasks[w::W], seed, tier, path, prog, deadline),
            )
            p.start()
            procs.append((p, path, prog))
        for p, _, _ in procs:
            p.join(max(1, deadline + CASE_SECONDS + 60 - time.time()))
        total = {
            "counts": collections.Counter(),
            "sigs": set(),
            "samples": [],
            "known": {},
            "violations": [],
            "errors": [],
            "done": collections.Counter(),
            "skipped": 0,
        }
        for p, path, prog in procs:
            if p.is_alive():
                p.kill()
                p.join()
                total["errors"].append({"error": f"worker hung at {_read(prog)}"})
                continue
            if not os.path.exists(path):
                sig = -p.exitcode if p.exitcode and p.exitcode < 0 else None
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
                    sc = json.loads(_read(prog))
                    total["violations"].append(
                        {
                            "scenario": sc[0],
                            "index": sc[1],
                            "what": f"interpreter crashed with signal {sig} while running the library",
                            "key": None,
                            "detail": {},
                            "sample": None,
                        }
                    )
                else:
                    total["errors"].append({"error": f"worker exit {p.exitcode} at {_read(prog)}"})
                continue
            agg = pickle.load(open(path, "rb"))
            total["counts"].update(agg["counts"])
            total["sigs"] |= agg["sigs"]
            total["samples"] += agg["samples"]
            total["violations"] += agg["violations"]
            total["errors"] += agg["errors"]
            total["done"].update(agg["done"])
            total["skipped"] += agg["skipped"]
            for k, v in agg["known"].items():
                total["known"].setdefault(k, v)
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    return report(prop, tier, seed, mod, total, len(tasks), t0)


def _read(p):
    try:
        return open(p).read().strip()
    except OSError:
        return "?"


def write_evidence(prop, ev):
    path = os.path.join(EVIDENCE, f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)


def report_import_failure(prop, tier, seed, e, t0):
    os.makedirs(REPLAYS, exist_ok=True)
    rp = os.path.join(REPLAYS, f"{prop}-import.json")
    json.dump({"property": prop, "import_error": f"{type(e).__name__}: {e}"}, open(rp, "w"))
    write_evidence(
        prop,
        {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": 1,
                "distinct_nontrivial": 0,
                "rule": "the package under test did not import",
                "samples": [f"{type(e).__name__}: {e}"],
            },
            "wall_s": round(time.time() - t0, 2),
            "violations": 1,
        },
    )
    print(f"import of the package failed: {type(e).__name__}: {e}")
    print(f"VIOLATION property={prop} replay={rp}")
    return 1


def report(prop, tier, seed, mod, total, planned, t0):
    known = load_known(prop)
    seen_known = dict(total["known"])
    viol = []
    for v in total["violations"]:
        if v.get("key") and v["key"] in known:
            seen_known.setdefault(v["key"], v["what"])
        else:
            viol.append(v)
    done = sum(total["done"].values())
    errors = list(total["errors"])
    # monitors must have observed something in every scenario that ran
    need = getattr(mod, "MUST_SEE", [])
    if not viol and not errors:
        for k in need:
            if total["counts"].get(k, 0) == 0:
                errors.append({"error": f"inconclusive: the monitors never observed '{k}'"})
        if total["skipped"] > 0.5 * planned:
            errors.append({"error": "inconclusive: ran out of time before half of the workload"})
    samples = []
    seen = set()
    for s in total["samples"]:
        if s["scenario"] in seen:
            continue
        seen.add(s["scenario"])
        samples.append(s)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(total["sigs"]),
            "rule": mod.RULE,
            "samples": samples[:12] or ["none"],
            "cases_by_scenario": dict(total["done"]),
            "observed_by_monitors": dict(sorted(total["counts"].items())),
            "cases_planned": planned,
            "cases_skipped_for_time": total["skipped"],
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    write_evidence(prop, ev)
    for k in sorted(seen_known):
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    for k in sorted(set(seen_known) - set(known)):
        errors.append({"error": f"finding key {k} is not in the known-findings file"})
    print(
        f"{prop} {tier} seed={seed}: {done}/{planned} cases, {len(total['sigs'])} distinct, "
        f"observed {dict(total['counts'].most_common(6))}, {round(time.time()-t0,1)} s"
    )
    if viol:
        os.makedirs(REPLAYS, exist_ok=True)
        viol.sort(key=lambda v: (v["scenario"], v["index"]))
        first = viol[0]
        rp = os.path.join(REPLAYS, f"{prop}-{first['scenario']}-{first['index']}.json")
        with open(rp, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "scenario": first["scenario"],
                    "index": first["index"],
                    "seed": seed,
                    "tier": tier,
                    "what": first["what"],
                    "detail": first["detail"],
                    "case": first["sample"],
                    "command": f"/opt/venv/bin/python {VERIF}/run.py {prop} --replay {rp}",
                },
                f,
                indent=1,
                default=str,
            )
        for v in viol[:5]:
            print(f"  [{v['scenario']}#{v['index']}] {v['what']}  {json.dumps(v['detail'], default=str)[:500]}")
        print(f"{len(viol)} violating case(s)")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        for e in errors[:5]:
            print("CHECK-ERROR", json.dumps(e)[:3000])
        return 2
    return 0
