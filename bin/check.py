"""Run one property's check.   check.py C01 [--only NAME] [--verbose]"""
from __future__ import annotations

import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.setdefault("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import importlib
import json
import multiprocessing as mp
import resource
import signal
import time
import traceback
import warnings

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 4))))


def run_vc(vc, world, q, verbose):
    from pyvc import core, smt
    t0 = time.time()
    scale = 3 if THOROUGH else 1
    v = core.V(vc["name"], seed=SEED, max_paths=vc["max_paths"],
               timeout=vc["timeout"] * scale)
    v.debug = verbose > 1
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v.run(lambda vv: (world.restore(), vc["fn"](vv, world)))
        unsup = v.unsupported
        tb = getattr(v, "unsupported_tb", "")
    except Exception as e:      # noqa: BLE001  (a bug of the generator is not a verdict)
        unsup = f"generator error: {type(e).__name__}: {e}"
        tb = traceback.format_exc()
    obs = []
    for o in v.obligations:
        obs.append(dict(name=o.name, status=o.status, backend=o.backend, detail=o.detail,
                        model={str(k): str(x) for k, x in (o.model or {}).items()}
                        if o.status != "proved" else None))
    q.put(dict(kind="vc", name=vc["name"], functions=vc["functions"], obligations=obs,
               unsupported=unsup, tb=tb if unsup else "", paths=v.paths, covers=v.covers,
               assumptions=sorted(v.assumptions), wall=time.time() - t0,
               replays=getattr(v, "replays", []), conform=getattr(v, "conform_n", 0),
               smt=dict(smt.STATS)))


class CpuDeadline(BaseException):
    """the battery has used far more processor time than it takes (not wall time: a loaded
    machine must not matter)"""


def _deadline(signum, frame):
    raise CpuDeadline


def run_battery(b, q, verbose):
    from contracts.base import Battery
    t0 = time.time()
    B = Battery(b["name"], seed=SEED)
    err = None
    cpu = (3 if THOROUGH else 1) * float(os.environ.get("VERIF_BATTERY_CPU", "200"))
    signal.signal(signal.SIGPROF, _deadline)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            b["fn"](B)
        signal.setitimer(signal.ITIMER_PROF, 0)
    except CpuDeadline as e:
        fr = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in fr if "/modepy/" in f.filename]
        # failures recorded so far stand; without any, code of the package which does not
        # come back is one
        if not B.failures:
            if inrepo:
                B.fail("the calls terminate", {}, got=f"still running after {cpu:.0f} s",
                       where=" <- ".join(f"{f.name}:{f.lineno}" for f in reversed(fr[-6:])))
            else:
                err = f"no end after {cpu:.0f} s of processor time"
    except Exception as e:      # noqa: BLE001
        signal.setitimer(signal.ITIMER_PROF, 0)
        err = traceback.format_exc()
        fr = traceback.extract_tb(e.__traceback__)
        inrepo = any("/modepy/" in f.filename for f in fr)
        if inrepo:
            B.fail("no exception", {}, got=f"{type(e).__name__}: {e}"[:300],
                   where=" <- ".join(f"{f.name}:{f.lineno}" for f in reversed(fr[-6:])))
            err = None
        elif isinstance(e, (AttributeError, ImportError, KeyError, TypeError, ValueError,
                            IndexError)):
            B.fail("no exception in the contract's evaluation", {},
                   got=f"{type(e).__name__}: {e}"[:300], where=err[-600:])
            err = None
    q.put(dict(kind="battery", name=b["name"], functions=b["functions"], evals=B.evals,
               distinct=len(B.distinct), failures=B.failures, nfail=B.nfail,
               samples=B.samples, wall=time.time() - t0, error=err))


def schedule(tasks):
    """tasks: [(label, timeout, target, args)] -> results"""
    ctx = mp.get_context("fork")
    results = []
    pending = list(tasks)
    running = []
    end = time.time() + (6000 if THOROUGH else 750)
    while pending or running:
        if time.time() > end and running:
            # out of time: what is left is not decided (batteries run first)
            for label, *_ in pending:
                results.append(dict(kind="dead", name=label, label=label,
                                    why="not started in time"))
            pending = []
            running = [(lb, p, r, min(dl, time.time()), a) for lb, p, r, dl, a in running]
        while pending and len(running) < NPROC:
            label, timeout, target, args = pending.pop(0)
            q = ctx.SimpleQueue()
            r, w = ctx.Pipe(False)

            class Q:
                def __init__(self, c):
                    self.c = c

                def put(self, x):
                    self.c.send(x)
            p = ctx.Process(target=_child, args=(target, args, Q(w)))
            p.start()
            w.close()
            running.append((label, p, r, time.time() + timeout, args))
        still = []
        for label, p, r, dl, args in running:
            got = None
            if r.poll(0.02):
                try:
                    got = r.recv()
                except EOFError:
                    got = dict(kind="dead", name=label, why="the process died")
            elif time.time() > dl:
                p.kill()
                got = dict(kind="dead", name=label, why="time limit")
            if got is not None:
                p.join()
                r.close()
                got["label"] = label
                results.append(got)
            else:
                still.append((label, p, r, dl, args))
        running = still
    return results


def _child(target, args, q):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    target(*args[:-1], q, args[-1])


def load_known():
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: property="):
                rest = line[len("known: property="):]
                pid, rest = rest.split(" ", 1)
                known.setdefault(pid, []).append(rest)
    return known


def main():
    args = sys.argv[1:]
    pid = args[0]
    verbose = args.count("--verbose") + args.count("-v")
    only = args[args.index("--only") + 1] if "--only" in args else None
    t0 = time.time()
    mod = importlib.import_module(f"contracts.{pid.lower()}")
    chk = mod.CHECK
    from pyvc import smt
    world, werr = None, None
    if chk.vcs:
        try:
            from pyvc.loader import World
            world = World(REPO)
            world.load("modepy")
        except Exception as e:      # noqa: BLE001
            werr = f"{type(e).__name__}: {e}"
            world = None
    import modepy      # noqa: F401  the real package
    assert os.path.realpath(modepy.__file__).startswith(os.path.realpath(REPO) + "/"), \
        modepy.__file__
    tasks = []
    scale = 3 if THOROUGH else 1
    for b in chk.batteries:
        if only and only not in b["name"]:
            continue
        if b["thorough"] and not THOROUGH:
            continue
        tasks.append((b["name"], max(b["timeout"], 600) * scale, run_battery, (b, verbose)))
    for vc in chk.vcs:
        if only and only not in vc["name"]:
            continue
        if world is not None:
            tasks.append((vc["name"], vc["timeout"] * scale + 60, run_vc,
                          (vc, world, verbose)))
    results = schedule(tasks)
    order = {t[0]: i for i, t in enumerate(tasks)}
    results.sort(key=lambda r: order[r["label"]])
    return report(chk, results, werr, t0, verbose, only)


def report(chk, results, werr, t0, verbose, only):
    pid = chk.pid
    known = load_known().get(pid, [])
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    violations, knownhits = [], []
    obligations = discharged = 0
    backends = {}
    funcs = {}
    undecided = []
    errors = []
    failed = []
    evals = distinct = 0
    samples = []
    covers = {}
    assumptions = set(chk.assumptions)
    smts = {"z3_queries": 0, "z3_time": 0.0, "cvc5_queries": 0, "cvc5_time": 0.0}
    vcrows = []
    conform = 0
    batrows = []
    if werr:
        undecided.append(("*", f"instrumented package does not load: {werr}"))
    for r in results:
        if r["kind"] == "dead":
            if any(r["name"] == v["name"] for v in chk.vcs):
                undecided.append((r["name"], r["why"]))
            else:
                errors.append(f"battery {r['name']}: {r['why']}")
            continue
        if r["kind"] == "battery":
            evals += r["evals"]
            distinct += r["distinct"]
            samples += r["samples"][:2]
            batrows.append(dict(name=r["name"], evaluations=r["evals"],
                                failures=r["nfail"], wall_s=round(r["wall"], 2)))
            for f in r["failures"]:
                hit = [k for k in known if f["key"].startswith(k)]
                (knownhits if hit else violations).append((f, hit))
            if r["error"]:
                errors.append(f"battery {r['name']}: {r['error']}")
            if r["evals"] == 0 and not r["error"]:
                errors.append(f"battery {r['name']}: evaluated nothing")
            continue
        for k in smts:
            smts[k] += r["smt"][k]
        assumptions |= set(r["assumptions"])
        nob = len(r["obligations"])
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        conform += r["conform"]
        if r["unsupported"] is None and not r["covers"] and not any(
                o["status"] == "refuted" for o in bad):
            r["unsupported"] = "vacuous: no path reaches the end of the harness"
        if r["unsupported"] is None and nob == 0:
            r["unsupported"] = "vacuous: no obligation was generated"
        if r["unsupported"] is not None:
            undecided.append((r["name"], r["unsupported"]))
            if verbose:
                print(r["tb"])
            vcrows.append(dict(harness=r["name"], functions=r["functions"],
                               undecided=r["unsupported"], wall_s=round(r["wall"], 2)))
            continue
        for o in bad:
            if o["status"] == "agrees":
                undecided.append((r["name"], f"{o['name']}: {o['detail']}"))
        nprov = nob - len(bad)
        bad = [o for o in bad if o["status"] != "agrees"]
        obligations += nob
        discharged += nprov
        for o in r["obligations"]:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        vcrows.append(dict(harness=r["name"], functions=r["functions"], obligations=nob,
                           discharged=nprov, paths=r["paths"],
                           wall_s=round(r["wall"], 2)))
        for f in r["functions"]:
            funcs[f] = funcs.get(f, 0) + nob
        for o in bad:
            failed.append((r["name"], o))
    # ---- verdict
    lines = []
    nviol = 0
    for i, (f, _) in enumerate(violations[:3]):
        p = os.path.join(rdir, f"{pid}-{i}.json")
        json.dump(dict(property=pid, **f, seed=SEED, tier=TIER, repo=REPO,
                       failed_obligations=[dict(harness=h, **o) for h, o in failed[:5]],
                       rerun=f"/verif/check {pid} --only {f['battery']!r}"),
                  open(p, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={p}")
        print(f"  contract {f['contract']!r} fails on {json.dumps(f['inputs'])[:300]}: "
              f"got {f.get('got', f.get('info'))} want {f.get('want')}")
    nviol = len(violations)
    if failed and not violations:
        p = os.path.join(rdir, f"{pid}-obligation.json")
        json.dump(dict(property=pid, seed=SEED, tier=TIER, repo=REPO,
                       failed_obligations=[dict(harness=h, **o) for h, o in failed[:20]],
                       note="no failing input was found on the real code"),
                  open(p, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
        nviol = len(failed)
    for h, o in failed[:10]:
        print(f"  obligation not discharged [{h}] {o['name']}: {o['status']} {o['detail'][:300]}"
              f" {o['model'] if o['model'] else ''}")
    for k in sorted({k for _, hit in knownhits for k in hit}):
        print(f"KNOWN-FINDING: property={pid} {k}")
    for n, w in undecided:
        print(f"  not decided by the verifier (bounded contract evaluation stands in): {n}: {w}")
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f"/verif/check {pid}",
        trusted_base=["pyvc (AST rewriting, symbolic execution, normaliser, loop summariser)",
                      "z3 4.8/4.13 python binding, cvc5 1.1.2", "CPython 3.12"] + chk.trusted,
        functions_under_contract=funcs, backends=backends,
        solver=dict(z3_queries=smts["z3_queries"], z3_s=round(smts["z3_time"], 2),
                    cvc5_queries=smts["cvc5_queries"], cvc5_s=round(smts["cvc5_time"], 2)),
        harnesses=vcrows, undecided=[f"{n}: {w}" for n, w in undecided],
        conformance_runs=conform,
        evaluations=evals, distinct_nontrivial=distinct,
        rule="contract postconditions evaluated on the uninstrumented code of /repo at "
             "designed and seeded inputs (bounded; not counted as proved); distinct by "
             "contract and inputs",
        samples=samples[:8], batteries=batrows,
        bounded_standins=chk.bounded,
        explanation="Deductive part: obligations generated from /repo's current source, "
                    "discharged by the named back ends. Bounded part: the batteries.",
        known_findings=sorted({k for _, hit in knownhits for k in hit}),
    )
    ev = dict(property=pid, tier=TIER, seed=SEED, level=chk.level, coverage=cov,
              assumptions=sorted(assumptions), wall_s=round(time.time() - t0, 2),
              violations=nviol)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {discharged}/{obligations} obligations discharged over "
          f"{len(vcrows)} harnesses, {len(undecided)} undecided, {evals} contract evaluations, "
          f"{conform} conformance runs, {time.time() - t0:.1f}s")
    if verbose:
        for row in vcrows + batrows:
            print("   ", row)
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    if evals == 0 and obligations == 0:
        print("ERROR: nothing was checked")
        return 2
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
