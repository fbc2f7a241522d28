"""Machinery shared by all checks: arms, workers, shrinking, replays, evidence.

A *check* (one per property) is a module of pbt.checks with a list ARMS. An
*arm* is a Hypothesis strategy that builds a JSON-able case and a function
that decides the case:

    check(case) -> Result      (labels, whether the case is non-trivial)
    raises Violation(message)  when the property does not hold on the case

Everything that comes from the code under test is called through
pbt.sut, which turns unexpected exceptions and hangs into violations. Any
exception of a strategy is an error of the harness and ends with exit code 2.
"""

import hashlib
import importlib
import json
import os
import resource
import subprocess
import sys
import tempfile
import time
import traceback

from . import boot

VERIF = boot.VERIF
EVIDENCE = os.path.join(VERIF, "evidence")
QUICK = 2.5  # quick counts of the arms are multiplied by this
REPLAYS = os.path.join(VERIF, "evidence", "replays")


class Violation(Exception):
    """The property does not hold on a case."""


class Arm:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="", label=None):
        self.name = name
        self.strategy = strategy  # callable returning a Hypothesis strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 25
        self.rule = rule


def case_key(case):
    blob = json.dumps(case, sort_keys=True, default=str, ensure_ascii=True)
    return hashlib.blake2b(blob.encode(), digest_size=8).hexdigest()


def short(obj, limit=1500):
    s = obj if isinstance(obj, str) else json.dumps(obj, ensure_ascii=True, default=str)
    return s if len(s) <= limit else s[:limit] + f"... ({len(s)} chars)"


def load_check(prop):
    return importlib.import_module(f"pbt.checks.{prop.lower()}")


# --------------------------------------------------------------------------
# Worker
# --------------------------------------------------------------------------


def derive_seed(seed, prop, arm, worker):
    h = hashlib.blake2b(f"{seed}/{prop}/{arm}/{worker}".encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


def run_arm(prop, arm, n, seed, worker):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    try:  # bound the time spent in shrinking
        import hypothesis.internal.conjecture.engine as _engine

        _engine.MAX_SHRINKING_SECONDS = 25
    except Exception:  # pragma: no cover
        pass

    stats = {
        "arm": arm.name,
        "evaluations": 0,
        "nontrivial": set(),
        "labels": {},
        "samples": [],
        "violation": None,
        "failures": 0,
    }
    state = {"best": None}

    @hseed(derive_seed(seed, prop, arm.name, worker))
    @settings(
        max_examples=n,
        deadline=None,
        database=None,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
    )
    @given(arm.strategy())
    def test(case):
        stats["evaluations"] += 1
        try:
            result = arm.check(case)
        except Violation as exc:
            stats["failures"] += 1
            size = len(json.dumps(case, default=str))
            # Keep the simplest failing case: the last one of the
            # shrinking, or the smallest seen.
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, str(exc))
            raise
        except (OSError, MemoryError, ImportError):
            raise  # of the harness: the code under test is called through limited(), which converts these
        except Exception as exc:
            # Raised by the code under test, or by an oracle that cannot
            # make sense of what it returned.
            stats["failures"] += 1
            size = len(json.dumps(case, default=str))
            message = "unexpected exception: " + "".join(traceback.format_exception(exc))[-1500:]
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, message)
            raise Violation(message) from exc

        labels = {}
        nontrivial = True
        if result is not None:
            nontrivial, labels = result
        for label in labels:
            stats["labels"][label] = stats["labels"].get(label, 0) + 1
        if nontrivial:
            key = case_key(case)
            if key not in stats["nontrivial"]:
                stats["nontrivial"].add(key)
                if len(stats["samples"]) < 3 and (len(stats["nontrivial"]) % 7) == 3:
                    stats["samples"].append(short(case))

    try:
        test()
    except Violation:
        pass
    except (hypothesis.errors.Flaky, BaseExceptionGroup):
        # The same case behaved differently when repeated. Only what the
        # code under test did can differ, as harness randomness is all
        # Hypothesis'. The first observation stands.
        if state["best"] is None:
            raise

    if state["best"] is not None:
        _, case, message = state["best"]
        stats["violation"] = {"arm": arm.name, "case": case, "message": message}

    stats["nontrivial"] = sorted(stats["nontrivial"])
    return stats


def worker_main(prop, worker, workers, tier, seed, out):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    sys.setrecursionlimit(1000)
    module = load_check(prop)
    results = []
    factor = float(os.environ.get("VERIF_SCALE", "1"))
    with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
        os.chdir(scratch)
        for arm in module.ARMS:
            total = (arm.quick * QUICK if tier == "quick" else arm.thorough) * factor
            n = max(1, int(total // workers))
            start = time.time()
            stats = run_arm(prop, arm, n, seed, worker)
            stats["wall"] = round(time.time() - start, 2)
            results.append(stats)
            if stats["violation"]:
                break
        os.chdir("/")
    with open(out, "w") as f:
        json.dump(results, f, default=str)


# --------------------------------------------------------------------------
# Parent
# --------------------------------------------------------------------------


def child_env():
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.pop("PYTHONPATH", None)
    return env


def run_check(prop, tier, seed):
    from . import known

    start = time.time()
    module = load_check(prop)
    workers = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))

    os.makedirs(REPLAYS, exist_ok=True)

    merged = {}
    violation = None
    errors = []
    with tempfile.TemporaryDirectory(prefix="verif-run-") as tmp:
        procs = []
        for w in range(workers):
            out = os.path.join(tmp, f"w{w}.json")
            log = open(os.path.join(tmp, f"w{w}.log"), "w+", encoding="utf-8", errors="backslashreplace")
            p = subprocess.Popen(
                [sys.executable, os.path.join(VERIF, "pbt", "run.py"), prop,
                 "--worker", str(w), "--workers", str(workers),
                 "--tier", tier, "--seed", str(seed), "--out", out],
                stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=child_env(), cwd=tmp,
            )
            procs.append((p, out, log))
        for p, out, log in procs:
            rc = p.wait()
            if rc != 0 or not os.path.exists(out):
                log.seek(0)
                errors.append(f"worker exit {rc}: {log.read()[-4000:]}")
                log.close()
                continue
            log.close()
            with open(out) as f:
                for stats in json.load(f):
                    m = merged.setdefault(
                        stats["arm"],
                        {"evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "wall": 0},
                    )
                    m["evaluations"] += stats["evaluations"]
                    m["nontrivial"].update(stats["nontrivial"])
                    m["wall"] = max(m["wall"], stats["wall"])
                    for k, v in stats["labels"].items():
                        m["labels"][k] = m["labels"].get(k, 0) + v
                    m["samples"].extend(stats["samples"])
                    v = stats["violation"]
                    if v:
                        size = len(json.dumps(v["case"], default=str))
                        if violation is None or size < violation[0]:
                            violation = (size, v)

    # Known findings: each listed probe is run again on the current tree.
    for line in known.report(prop):
        print(line)

    wall = time.time() - start
    evaluations = sum(m["evaluations"] for m in merged.values())
    nontrivial = sum(len(m["nontrivial"]) for m in merged.values())
    samples = []
    for name, m in merged.items():
        for s in m["samples"][:2]:
            samples.append({"arm": name, "case": s})

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": " | ".join(f"{a.name}: {a.rule}" for a in module.ARMS),
            "samples": samples[:12],
            "arms": {
                name: {
                    "evaluations": m["evaluations"],
                    "distinct_nontrivial": len(m["nontrivial"]),
                    "labels": dict(sorted(m["labels"].items())),
                    "wall_s": m["wall"],
                }
                for name, m in merged.items()
            },
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True, default=str)

    if violation:
        v = violation[1]
        path = os.path.join(REPLAYS, f"{prop}-{v['arm']}-{case_key(v['case'])}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "arm": v["arm"], "case": v["case"], "message": v["message"]},
                      f, indent=1, ensure_ascii=True, default=str)
        print(f"{prop}: arm {v['arm']}: {short(v['message'], 4000)}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1

    if errors:
        print(f"{prop}: HARNESS ERROR", file=sys.stderr)
        for e in errors:
            print(e, file=sys.stderr)
        return 2

    print(f"{prop}: held on {evaluations} cases ({nontrivial} distinct non-trivial), {wall:.1f} s, tier {tier}, seed {seed}")
    return 0


def replay(path):
    with open(path) as f:
        data = json.load(f)
    module = load_check(data["property"])
    arm = next(a for a in module.ARMS if a.name == data["arm"])
    with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
        os.chdir(scratch)
        try:
            arm.check(data["case"])
        except Violation as exc:
            os.chdir("/")
            print(f"{data['property']}: arm {data['arm']}: {exc}")
            print(f"VIOLATION property={data['property']} replay={os.path.abspath(path)}")
            return 1
        os.chdir("/")
    print("the case passes")
    return 0


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--worker", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    args = ap.parse_args(argv)
    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(errors="backslashreplace")

    try:
        if args.replay:
            args.replay = os.path.abspath(args.replay)
            return replay(args.replay)
        if args.worker is not None:
            worker_main(args.property, args.worker, args.workers, args.tier, args.seed, args.out)
            return 0
        return run_check(args.property, args.tier, args.seed)
    except Exception:
        traceback.print_exc()
        return 2
