"""Runs one property's check: seeded search, minimisation, replay, evidence."""
import argparse
import collections
import contextlib
import concurrent.futures
import gc
import importlib
import io
import json
import multiprocessing
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

from . import kernel, spec
from .kernel import InvalidPlan, SimKill, StepLimit, Violation, World, rng_for, sha, jdump

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT_S = 30
MEM_LIMIT = 3 << 30


class CpuLimit(BaseException):
    """A single run used far more CPU time than any run should."""


class HarnessError(Exception):
    pass


def import_target():
    """Import dustmaker from the current tree, never from cached bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "dustsim-no-such-pycache")
    if kernel.REPO not in sys.path:
        sys.path.insert(0, kernel.REPO)
    import dustmaker  # noqa: F401

    where = os.path.realpath(dustmaker.__file__)
    if where != os.path.realpath(os.path.join(kernel.REPO, "dustmaker", "__init__.py")):
        raise HarnessError(f"imported {where} instead of the tree in {kernel.REPO}")
    for m in ("bitio", "dfreader", "dfwriter", "level", "tile", "entity", "prop", "replay", "transform", "variable"):
        importlib.import_module("dustmaker." + m)
    argv, sys.argv = sys.argv, ["dustmaker"]
    try:  # only to have it loaded: the runs judge what the tools do
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            importlib.import_module("dustmaker.cmd.main")
    except (Exception, SystemExit):  # pylint: disable=broad-except
        pass
    finally:
        sys.argv = argv
    spec.entity_classes()


def load_check(prop):
    return importlib.import_module("sim.checks." + prop.lower())


def _through_target(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(kernel.PKG):
            return True
        tb = tb.tb_next
    return False


def _on_cpu(signum, frame):
    raise CpuLimit()


def execute(mod, plan, cpu=CPU_LIMIT_S):
    """Run one plan.  Returns (world, violation or None).  Raises InvalidPlan /
    HarnessError."""
    world = World(budget=getattr(mod, "OP_BUDGET", 6_000_000))
    old = signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, cpu, 3)
    try:
        try:
            mod.run(plan, world)
            return world, None
        finally:
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
    except Violation as v:
        return world, v
    except InvalidPlan:
        raise
    except StepLimit as e:
        return world, Violation("step-limit", f"does not end within its step budget: {e}")
    except CpuLimit:
        return world, Violation("hang", f"one run used more than {cpu} s of CPU time")
    except (Exception, SimKill, KeyboardInterrupt) as e:  # pylint: disable=broad-except
        if isinstance(e, KeyboardInterrupt) and not isinstance(e, kernel.SimInterrupt):
            raise
        if _through_target(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            v = Violation("unexpected-error", f"{type(e).__name__}: {str(e)[:160]} at {os.path.basename(last.filename)}:{last.lineno}")
            v.key = ("unexpected-error", type(e).__name__, last.filename, last.name)
            return world, v
        raise HarnessError(f"{type(e).__name__}: {e}\n{traceback.format_exc()}") from e


def worker_init():
    gc.disable()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run_chunk(args):
    prop, seed, tier, start, stop = args
    mod = load_check(prop)
    res = {
        "runs": 0, "ops": 0, "faults": collections.Counter(), "probes": collections.Counter(), "digests": [], "nontrivial": [],
        "violations": [], "samples": [], "replayed": 0, "same": 0, "invalid": 0, "error": None, "start": start,
    }
    for i in range(start, stop):
        plan = json.loads(jdump(mod.gen(rng_for(prop, seed, i), tier)))
        try:
            world, v = execute(mod, plan)
        except InvalidPlan:
            res["invalid"] += 1
            continue
        except HarnessError as e:
            res["error"] = res["error"] or f"run {i}: {e}"
            continue
        res["runs"] += 1
        res["ops"] += world.ops
        res["faults"].update(world.faults)
        res["probes"].update(world.probes)
        d = world.digest()
        res["digests"].append(d)
        if world.faults or world.probes:
            res["nontrivial"].append(d)
        if v is not None:
            res["violations"].append((i, v.cls, v.msg, jdump(plan), d))
            break
        if i % 97 == 0:
            w2, v2 = execute(mod, plan)
            res["replayed"] += 1
            res["same"] += w2.digest() == d and v2 is None
        if i % 997 == 3 or (i < 3 and tier == "quick"):
            res["samples"].append({"run": i, "plan": json.loads(jdump(plan)), "ops": world.ops, "faults": dict(world.faults), "digest": d})
        if i % 16 == 0:
            gc.collect()
    return res


# ---------------------------------------------------------------- minimisation
def _size(x):
    return len(jdump(x))


def _candidates(x):
    """Smaller variants of a JSON value, big steps first (generator)."""
    if isinstance(x, list):
        n = len(x)
        step = n
        while step >= 1:
            for i in range(0, n, step):
                yield x[:i] + x[i + step :]
            if step == 1:
                break
            step = (step + 1) // 2
        for i, e in enumerate(x):
            for c in _candidates(e):
                yield x[:i] + [c] + x[i + 1 :]
    elif isinstance(x, dict):
        for k in sorted(x):
            y = dict(x)
            del y[k]
            yield y
        for k in sorted(x):
            for c in _candidates(x[k]):
                y = dict(x)
                y[k] = c
                yield y
    elif isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        if x != 0:
            yield 0
            if abs(x) > 1:
                yield x // 2 if x > 0 else -(-x // 2)
                yield x - 1 if x > 0 else x + 1
    elif isinstance(x, float):
        if x != 0.0:
            yield 0.0
            if x != float(int(x)) and abs(x) < 1e15:
                yield float(int(x))
    elif isinstance(x, str):
        if len(x) > 0 and not x.isidentifier():
            yield ""
            if len(x) > 1:
                yield x[: len(x) // 2]
        elif len(x) > 1:
            yield x[: len(x) // 2]


def minimise(mod, plan, key, max_exec=1500, wall=90.0):
    """Greedy delta debugging over the plan, keeping the kind of violation."""
    t0 = time.monotonic()
    execs = 0
    best = json.loads(jdump(plan))
    kernel.SHRINKING = True

    def fails(p):
        nonlocal execs
        execs += 1
        try:
            _, v = execute(mod, p, cpu=10)
        except (InvalidPlan, HarnessError):
            return False
        except Exception:  # malformed plan
            return False
        return v is not None and v.key == key

    progress = True
    while progress and execs < max_exec and time.monotonic() - t0 < wall:
        progress = False
        cur = (_weight(best), _size(best))
        for c in _candidates(best):
            if execs >= max_exec or time.monotonic() - t0 > wall:
                break
            if (_weight(c), _size(c)) >= cur:
                continue
            if fails(c):
                best = c
                progress = True
                break
    kernel.SHRINKING = False
    return best, execs


def _weight(x):
    if isinstance(x, list):
        return 1 + sum(map(_weight, x))
    if isinstance(x, dict):
        return 1 + sum(map(_weight, x.values()))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, float)):
        return min(abs(x), 1e18)
    if isinstance(x, str):
        return len(x)
    return 0


# --------------------------------------------------------------------- findings
def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    # known: property=<id> class=<violation class> match=<substring> | <what fails>
                    head, _, what = line[7:].partition(" | ")
                    d = dict(p.split("=", 1) for p in head.split(" ", 2))
                    out.append((d["property"], d["class"], d["match"], what))
    return out


# -------------------------------------------------------------------------- main
QUICK_WALL = 600  # seconds after which the quick tier draws no further runs


def do_replay(prop, path):
    with open(path, encoding="utf-8") as f:
        rec = json.load(f)
    mod = load_check(rec.get("property", prop))
    world, v = execute(mod, rec["plan"])
    if v is None:
        print(f"replay {path}: no violation (digest {world.digest()}, recorded {rec['digest']})")
        return 0
    same = world.digest() == rec["digest"] and v.cls == rec["class"]
    print(f"{v.cls}: {v.msg}")
    print(f"digest {world.digest()} recorded {rec['digest']}: {'identical' if same else 'DIFFERENT'} execution")
    for line in world.tail:
        print("   ", line)
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def selftest(args):
    """Nothing has to be built; make sure that the framework works here at all."""
    import_target()
    bad = 0
    for name in sorted(os.listdir(os.path.join(VERIF, "sim", "checks"))):
        if name[0] != "c" or not name[1:-3].isdigit():
            continue
        prop = name[:-3].upper()
        mod = load_check(prop)
        n = 0
        for i in range(4):
            try:
                plan = json.loads(jdump(mod.gen(rng_for(prop, args.seed, i), "quick")))
                a, _ = execute(mod, plan)
                b, _ = execute(mod, json.loads(jdump(plan)))
            except InvalidPlan:
                continue
            n += 1
            if a.digest() != b.digest():
                print(f"{prop} run {i} does not repeat exactly", file=sys.stderr)
                bad = 1
        print(f"{prop}: {n} runs repeated exactly")
    return bad


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="import everything and check that a few runs per property repeat exactly")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=len(os.sched_getaffinity(0)))
    ap.add_argument("--replay")
    ap.add_argument("--no-minimise", action="store_true", help="store the first failing plan as it is")
    ap.add_argument("--digests", help="write all run digests to this file (determinism test)")
    args = ap.parse_args(argv)
    if args.selftest:
        return selftest(args)
    if not args.property:
        ap.error("which property?")
    prop = args.property.upper()
    t0 = time.monotonic()
    import_target()
    if args.replay:
        return do_replay(prop, args.replay)
    mod = load_check(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    total = args.runs or (mod.QUICK if args.tier == "quick" else mod.THOROUGH)
    chunk = max(1, min(getattr(mod, "CHUNK", 50), total // (args.workers * 4) or 1))
    jobs = [(prop, args.seed, args.tier, i, min(i + chunk, args.start + total)) for i in range(args.start, args.start + total, chunk)]
    agg = {"runs": 0, "ops": 0, "invalid": 0, "replayed": 0, "same": 0}
    faults, probes = collections.Counter(), collections.Counter()
    digests, nontrivial, samples = set(), set(), []
    all_digests = []
    found = []
    known_hit = collections.Counter()
    known = [k for k in known_findings() if k[0] == prop]
    ctx = multiprocessing.get_context("fork")
    sys.stdout.flush()
    ex = concurrent.futures.ProcessPoolExecutor(args.workers, mp_context=ctx, initializer=worker_init)
    error = None
    try:
        it = iter(jobs)
        pending = collections.deque()
        for job in it:
            if args.tier == "quick" and time.monotonic() - t0 > QUICK_WALL:
                print(f"stopped drawing runs after {QUICK_WALL} s (slow machine)")
                break
            pending.append(ex.submit(run_chunk, job))
            if len(pending) < args.workers * 6:
                continue
            if _absorb(pending.popleft().result(), agg, faults, probes, digests, nontrivial, samples, all_digests, found, known, known_hit):
                pending.clear()
                break
        while pending:
            if _absorb(pending.popleft().result(), agg, faults, probes, digests, nontrivial, samples, all_digests, found, known, known_hit):
                break
        error = agg.pop("error", None)
    except concurrent.futures.process.BrokenProcessPool as e:
        error = f"a worker process died: {e}"
    finally:
        for p in list(getattr(ex, "_processes", {}).values()) if (found or error) else ():
            p.terminate()
        ex.shutdown(wait=True, cancel_futures=True)
    if args.digests:
        with open(args.digests, "w", encoding="utf-8") as f:
            f.write("\n".join(all_digests))
    if error and not found:
        print(f"check error: {error}", file=sys.stderr)
        return 2

    rc = 0
    replay_path = None
    if found:
        idx, cls, msg, plan, digest = found[0]
        rc = 1
        _, v = execute(mod, json.loads(plan)) if cls != "hang" else (None, Violation(cls, msg))
        best, execs = json.loads(plan), 0
        if not args.no_minimise:
            best, execs = minimise(mod, best, v.key if v is not None else (cls,))
        world, v = execute(mod, best)
        if v is None or v.cls != cls:
            best = json.loads(plan)
            world, v = execute(mod, best)
        if v is None:
            v = Violation(cls, msg)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replays", f"{prop}-s{args.seed}-r{idx}.json")
        with open(replay_path, "w", encoding="utf-8") as f:
            json.dump(
                {
                    "property": prop, "seed": args.seed, "run": idx, "tier": args.tier, "class": v.cls, "message": v.msg, "digest": world.digest(),
                    "faults": dict(world.faults), "plan": best, "original_plan": json.loads(plan), "minimiser_executions": execs,
                    "event_tail": list(world.tail),
                    "how": f"python3 /verif/check.py {prop} --replay {replay_path}",
                },
                f, indent=1,
            )
        print(f"{prop} run {idx} (seed {args.seed}): {v.cls}: {v.msg}")
        print(f"minimised plan ({execs} executions): {jdump(best)[:1500]}")
        print(f"VIOLATION property={prop} replay={replay_path}")
    for k, n in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {k}")
    wall = time.monotonic() - t0
    write_evidence(mod, prop, args, agg, faults, probes, digests, nontrivial, samples, wall, len(found), known_hit)
    print(
        f"{prop} {args.tier}: {agg['runs']} simulated runs, {agg['ops']} simulated operations, {len(digests)} distinct histories, "
        f"{sum(faults.values())} faults of {len(faults)} kinds, {wall:.1f} s, {'VIOLATED' if rc else 'held'}"
    )
    return rc


def _absorb(res, agg, faults, probes, digests, nontrivial, samples, all_digests, found, known, known_hit):
    for k in ("runs", "ops", "invalid", "replayed", "same"):
        agg[k] += res[k]
    faults.update(res["faults"])
    probes.update(res["probes"])
    digests.update(res["digests"])
    nontrivial.update(res["nontrivial"])
    all_digests.extend(res["digests"])
    if len(samples) < 4:
        samples.extend(res["samples"])
    for v in res["violations"]:
        hit = next((w for _, c, m, w in known if c == v[1] and m in v[2]), None)
        if hit:
            known_hit[hit] += 1
        else:
            found.append(v)
    if res["error"]:
        agg.setdefault("error", res["error"])
    return bool(found)


def _clip(s, n=1200):
    t = jdump(s["plan"])
    if len(t) > n:
        s = dict(s)
        s["plan"] = t[:n] + f"... ({len(t)} chars)"
    return s


def write_evidence(mod, prop, args, agg, faults, probes, digests, nontrivial, samples, wall, violations, known_hit):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE + " Distinct = distinct digest of the run's complete event history (every simulated I/O call with position and data or length, every fault, every outcome); non-trivial = at least one fault fired or one recorded probe situation was reached.",
            "samples": [_clip(s) for s in samples[:4]],
            "distinct_histories": len(digests),
            "simulated_runs": agg["runs"],
            "runs_per_hour": int(agg["runs"] * 3600 / max(wall, 1e-6)),
            "simulated_operations": agg["ops"],
            "simulated_time": "the code under test reads no clock; progress is measured in simulated operations",
            "faults_injected": dict(sorted(faults.items())),
            "situations_reached": dict(sorted(probes.items())),
            "plans_rejected_as_meaningless": agg["invalid"],
            "determinism": {"runs_executed_twice": agg["replayed"], "identical_histories": agg["same"]},
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
            "first_run_index": args.start,
            "workers": args.workers,
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if known_hit:
        ev["coverage"]["known_findings_seen"] = dict(known_hit)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    tmp = path + f".{os.getpid()}.tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)
