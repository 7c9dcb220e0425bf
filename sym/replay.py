"""Replays inputs on the real code. Usage: python -m sym.replay FILE.json | --batch (JSON on stdin)."""

import json
import sys

from .main import load_check, find_job, load_known


def main():
    if sys.argv[1] == "--batch":
        payload = json.load(sys.stdin)
        module = load_check(payload["property"])
        jobs = {job.name: job for job in module.jobs(payload["tier"])}
        out = []
        for name, inputs in payload["items"]:
            job = jobs[name]
            out.append(job.engine.replay_in_process(job, inputs, load_known(payload["property"])))
        sys.stdout.flush()
        print()
        print(json.dumps(out))
        return 0
    with open(sys.argv[1], encoding="utf-8") as file:
        data = json.load(file)
    module = load_check(data["property"])
    job = find_job(module, data["tier"], data["job"])
    results = job.engine.replay(data["property"], [(data["job"], data["inputs"])], data["tier"])
    print(json.dumps(results[0], indent=1))
    return 1 if results[0]["status"] == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())
