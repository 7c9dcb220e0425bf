"""
Runs the check of one property: python -m sym.main P01

Exit 0: property held on everything explored.  Exit 1: VIOLATION (replayed on the real code).  Exit 2: check error.
"""

import importlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from sym.core import Stats  # noqa: E402
from sym.zcompiler import SchemaRejected  # noqa: E402


def load_check(property_id):
    return importlib.import_module(f"checks.{property_id.lower()}")


def find_job(module, tier, name):
    for job in module.jobs(tier):
        if job.name == name:
            return job
    raise KeyError(name)


def load_known(property_id):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.isfile(path):
        return {}
    with open(path, encoding="utf-8") as file:
        data = json.load(file)
    return {item["id"]: item for item in data.get("findings", []) if item["property"] == property_id}


_JOBS = None
_DEADLINE = None
_KNOWN = None


def _init_worker(jobs, deadline, known):
    global _JOBS, _DEADLINE, _KNOWN
    _JOBS, _DEADLINE, _KNOWN = jobs, deadline, known


def _work(index):
    job = _JOBS[index]
    try:
        return index, job.engine.run_job(job, _DEADLINE, _KNOWN)
    except BaseException:  # pylint: disable=broad-except
        return index, {"job": job.name, "stats": Stats(), "violations": [], "samples": [], "functions": [],
                       "known_models": {}, "error": traceback.format_exc()[-3000:], "wall": 0.0}


def run(property_id, tier, only=None, verbose=False):
    global _JOBS, _DEADLINE, _KNOWN
    start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    module = load_check(property_id)
    prepare = getattr(module, "prepare", None)
    prepare_info = prepare(tier) if prepare else None
    jobs = module.jobs(tier)
    if only:
        jobs = [job for job in jobs if any(text in job.name for text in only)]
    budget = getattr(module, "BUDGET", {}).get(tier, 420 if tier == "quick" else 7200)
    if os.environ.get("VERIF_BUDGET"):
        budget = float(os.environ["VERIF_BUDGET"])
    deadline = time.monotonic() + budget
    known = load_known(property_id)
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1, max(1, len(jobs)))
    order = list(range(len(jobs)))
    random.Random(seed).shuffle(order)
    order.sort(key=lambda i: -getattr(jobs[i], "weight", 1))

    results = [None] * len(jobs)
    context = multiprocessing.get_context("fork")
    chunk = 1
    with context.Pool(workers, _init_worker, (jobs, deadline, known)) as pool:
        for index, result in pool.imap_unordered(_work, order, chunksize=chunk):
            results[index] = result
            if verbose:
                stats = result["stats"]
                print(f"{result['job']}: paths={stats.paths} q={stats.queries} obl={stats.obligations} "
                      f"viol={len(result['violations'])} unsup={stats.unsupported} cuts={stats.cuts} "
                      f"unk={stats.unknown} exh={stats.exhausted} t={result['wall']:.2f}"
                      + (" ERR " + result["error"] if result["error"] else ""), flush=True)

    total = Stats()
    functions = set()
    errors = []
    known_models = {}
    for job, result in zip(jobs, results):
        total.merge(result["stats"])
        functions |= set(result["functions"])
        if result["error"]:
            errors.append(f"{job.name}: {result['error']}")
        for key, inputs in result["known_models"].items():
            known_models.setdefault(key, (job, inputs))
        missing = [label for label in job.must_reach if label not in result["stats"].reached]
        if missing and not result["violations"] and not result["error"] and result["stats"].exhausted \
                and not result["stats"].unsupported:
            errors.append(f"{job.name}: vacuous, never reached {missing}")

    # replay of the counterexamples on the real code
    violations = []
    unreproduced = []
    by_engine = {}
    for job, result in zip(jobs, results):
        for label, inputs, detail in result["violations"][:3]:
            by_engine.setdefault(id(job.engine), (job.engine, []))[1].append((job, label, inputs, detail))
    for engine, items in by_engine.values():
        items = items[:60]
        replies = engine.replay(property_id, [(job.name, inputs) for job, _, inputs, _ in items], tier)
        for (job, label, inputs, detail), reply in zip(items, replies):
            if reply["status"] == "fail":
                violations.append((job, reply["label"], inputs, reply["detail"]))
            else:
                unreproduced.append((job, label, inputs, detail, reply))

    # validation of the engine: sampled paths re-run on the real code must give the same observations
    by_engine = {}
    for job, result in zip(jobs, results):
        for sample in result["samples"]:
            by_engine.setdefault(id(job.engine), (job.engine, []))[1].append((job, sample))
    validated = 0
    mismatches = []
    sample_cases = []
    max_validate = getattr(module, "MAX_VALIDATE", 1500)
    for engine, items in by_engine.values():
        random.Random(seed).shuffle(items)
        items = items[:max_validate]
        replies = engine.replay(property_id, [(job.name, sample["inputs"]) for job, sample in items], tier)
        for (job, sample), reply in zip(items, replies):
            if reply["status"] == "fail":
                if not any(v[0] is job for v in violations):
                    # the symbolic run of this very path passed (or could not be encoded): real code disagrees
                    if sample["obs"] is None:
                        violations.append((job, reply["label"], sample["inputs"], reply["detail"]))
                    else:
                        mismatches.append((job.name, sample, reply))
                continue
            if sample["obs"] is not None and reply["obs"] != sample["obs"]:
                if not result_has_violation(job, jobs, results):
                    mismatches.append((job.name, sample, reply))
                continue
            validated += 1
            if len(sample_cases) < 6:
                sample_cases.append({"job": job.name, "inputs": trim(sample["inputs"]), "obs": trim(sample["obs"])})

    code = 0
    replay_path = None
    out_dir = os.path.join(VERIF, "evidence", "replay")
    for job, label, inputs, detail in violations[:5]:
        os.makedirs(out_dir, exist_ok=True)
        safe = "".join(char if char.isalnum() else "_" for char in job.name)[:80]
        replay_path = os.path.join(out_dir, f"{property_id}_{safe}.json")
        with open(replay_path, "w", encoding="utf-8") as file:
            json.dump({"property": property_id, "tier": tier, "job": job.name, "label": label, "inputs": inputs,
                       "detail": detail}, file, indent=1)
        print(f"VIOLATION property={property_id} replay={replay_path}")
        print(f"  job={job.name} label={label} inputs={json.dumps(trim(inputs))}")
        if detail:
            print("  " + str(detail).replace("\n", "\n  ")[-1200:])
        code = 1
    for key, (job, inputs) in sorted(known_models.items()):
        print(f"KNOWN-FINDING: property={property_id} {known[key]['title']} (e.g. {json.dumps(trim(inputs))})")
    if code == 0:
        if unreproduced:
            for job, label, inputs, detail, reply in unreproduced[:5]:
                print(f"ERROR counterexample did not reproduce: {job.name} {label} {trim(inputs)} -> {reply}\n{detail}",
                      file=sys.stderr)
            code = 2
        if mismatches:
            for name, sample, reply in mismatches[:5]:
                print(f"ERROR engine mismatch: {name} {sample} -> {reply}"[:3000], file=sys.stderr)
            code = 2
        if errors:
            for text in errors[:5]:
                print("ERROR " + text, file=sys.stderr)
            code = 2

    wall = time.monotonic() - start
    level = getattr(module, "LEVEL", "model_checking")
    coverage = {
        "states": total.paths,
        "transitions": total.branches,
        "traces_validated_against_impl": validated,
        "samples": sample_cases or [{"job": jobs[0].name if jobs else None}],
        "explanation": "bounded symbolic execution of the real code: states = feasible execution paths explored, each "
                       "over all values of its symbolic inputs; transitions = decisions put to the SMT solver; traces "
                       "= sampled paths re-run on the unmodified code with identical observations",
        "jobs": len(jobs),
        "obligations": total.obligations,
        "discharged": total.discharged,
        "discharged_without_solver": total.trivial,
        "solver_queries": total.queries,
        "solver_seconds": round(total.solver_time, 2),
        "solver_unknown": total.unknown,
        "exhaustive": bool(total.exhausted and not total.cuts and not total.unsupported and not total.unknown),
        "bound_cuts": total.cuts,
        "unencodable": total.unsupported,
        "functions_encoded": sorted(functions),
        "bounds": getattr(module, "BOUNDS", ""),
        "reached": sorted(total.reached),
    }
    if prepare_info:
        coverage["prepare"] = prepare_info
    evidence = {
        "property": property_id,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{property_id}.json"), "w", encoding="utf-8") as file:
        json.dump(evidence, file, indent=1)
    print(f"{property_id}: jobs={len(jobs)} paths={total.paths} queries={total.queries} "
          f"obligations={total.obligations}/{total.discharged} validated={validated} exhaustive="
          f"{coverage['exhaustive']} unsupported={sum(total.unsupported.values())} cuts={sum(total.cuts.values())} "
          f"unknown={total.unknown} solver={total.solver_time:.1f}s wall={wall:.1f}s exit={code}")
    return code


def result_has_violation(job, jobs, results):
    return any(item is job and result["violations"] for item, result in zip(jobs, results))


def trim(value, limit=400):
    text = json.dumps(value)
    return value if len(text) <= limit else text[:limit] + "..."


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    argv = sys.argv[1:]
    if "--tier" in argv:
        where = argv.index("--tier")
        tier = argv[where + 1]
        del argv[where:where + 2]
    args = [arg for arg in argv if not arg.startswith("-")]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        return run(args[0], tier, only=args[1:], verbose="-v" in sys.argv)
    except SchemaRejected as exc:
        # deterministic concrete run of the real compiler: no code for a schema of the language
        out_dir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(out_dir, exist_ok=True)
        path = os.path.join(out_dir, f"{args[0]}_schema.json")
        with open(path, "w", encoding="utf-8") as file:
            json.dump({"property": args[0], "command": exc.command, "output": exc.output[-4000:]}, file, indent=1)
        print(f"VIOLATION property={args[0]} replay={path}")
        print("  the compiler rejects a valid schema: " + exc.output[-800:])
        return 1
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
