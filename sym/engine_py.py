"""Engine executing real Python code symbolically; replays on the unmodified modules in a separate process."""

import json
import os
import subprocess
import sys
import time

from . import terms
from .core import Explorer, Unsupported
from .ctx import SymCtx, ConcreteCtx, ReplayDone, AssumeFailed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY_RUNTIME = os.path.join(REPO, "compiler/extensions/python/runtime/src")


class SymEnv:
    def __init__(self, roots):
        from .pyload import Loader

        self.loader = Loader(roots)

    def module(self, name):
        return self.loader.load(name)


class RealEnv:
    """Real, unmodified modules (concrete runs)."""

    def __init__(self, roots):
        for root in reversed(roots):
            if root not in sys.path:
                sys.path.insert(0, root)

    def module(self, name):
        import importlib

        return importlib.import_module(name)


_ENV_CACHE = {}


def canon(value, model=None):
    """Canonical JSON form of an observed value; symbolic values are evaluated under the model."""
    from . import pyproxy as px
    from .pystr import SymStr

    if isinstance(value, px.SymInt):
        return model.eval(value.t, model_completion=True).as_signed_long()
    if isinstance(value, px.SymBool):
        import z3

        return z3.is_true(model.eval(value.c, model_completion=True))
    if isinstance(value, px.SymBytes):
        return ["b"] + [canon(item, model) for item in value.items]
    if isinstance(value, SymStr):
        return ["s"] + [canon(item, model) for item in value.cps]
    if isinstance(value, px.SymFloat):
        return _canon_float(model.eval(value.b, model_completion=True).as_long())
    if isinstance(value, bool) or value is None:
        return value
    if isinstance(value, float):
        import struct

        return _canon_float(int.from_bytes(struct.pack(">d", value), "big"))
    if isinstance(value, int):
        return int(value)
    if isinstance(value, (bytes, bytearray)):
        return ["b"] + list(value)
    if isinstance(value, str):
        return ["s"] + [ord(char) for char in value]
    if isinstance(value, BaseException):
        return ["exc", type(value).__name__]
    if isinstance(value, (list, tuple)):
        return ["l"] + [canon(item, model) for item in value]
    return ["o", type(value).__name__]


def _canon_float(bits):
    if (bits >> 52) & 0x7FF == 0x7FF and bits & ((1 << 52) - 1):
        return ["f", "nan"]
    return ["f", bits]


class PyEngine:
    name = "python"

    def __init__(self, roots=None):
        self.roots = roots or [PY_RUNTIME]

    def make_env(self, job, explorer):
        """Environment of the symbolic execution."""
        roots = job.roots or self.roots
        key = tuple(roots)
        if key not in _ENV_CACHE:
            Explorer.current = explorer
            _ENV_CACHE[key] = SymEnv(roots)
        return _ENV_CACHE[key]

    def make_tracer(self, job):
        """Collects the functions executed."""
        from .pyload import FunctionTracer

        return FunctionTracer(list(job.roots or self.roots))

    def run_job(self, job, deadline, known):
        sys.setrecursionlimit(20000)
        os.environ["ZSERIO_PYTHON_IMPLEMENTATION"] = "python"
        terms.clear()
        start = time.monotonic()
        explorer = Explorer(query_timeout_ms=job.query_timeout_ms, max_paths=job.max_paths, deadline=deadline,
                            logic=job.logic)
        explorer.loop_limit = job.loop_limit
        explorer.exact_str = job.exact_str
        samples = []
        state = {"ctx": None, "next": 1}

        def path_end(expl, outcome):
            if outcome == "unsupported":
                model = expl.model()
                if model is not None and len(samples) < 40:
                    samples.append({"inputs": expl.assignment(model), "obs": None})
                return
            number = expl.stats.paths
            if number < state["next"] or len(samples) >= job.max_samples:
                return
            state["next"] = number * 2
            model = expl.model()
            if model is None:
                return
            obs = [[label, canon(value, model)] for label, value in state["ctx"].observations]
            samples.append({"inputs": expl.assignment(model), "obs": obs})

        explorer.on_path_end = path_end
        tracer = self.make_tracer(job)
        tracer.start()
        error = None
        try:
            def harness(expl):
                ctx = SymCtx(expl, env, known)
                state["ctx"] = ctx
                try:
                    job.func(ctx, **job.params)
                except AssertionError as exc:
                    _unexpected(expl, exc)
                except Exception as exc:  # pylint: disable=broad-except
                    _unexpected(expl, exc)

            env = self.make_env(job, explorer)
            explorer.run(harness)
        except BaseException as exc:  # pylint: disable=broad-except
            import traceback

            error = "".join(traceback.format_exception(exc))[-3000:]
        finally:
            tracer.stop()
        return {
            "job": job.name,
            "stats": explorer.stats,
            "violations": [(v.label, v.inputs, str(v.detail)[:1500]) for v in explorer.violations],
            "samples": samples,
            "functions": sorted(tracer.functions),
            "known_models": getattr(explorer, "known_models", {}),
            "error": error,
            "wall": time.monotonic() - start,
        }

    # -------------------------------------------------------------------------------------------- concrete side
    def replay(self, property_id, items, tier):
        """Runs [(job name, inputs)] on the real code in a separate process."""
        payload = json.dumps({"property": property_id, "tier": tier, "items": items})
        env = dict(os.environ)
        env["ZSERIO_PYTHON_IMPLEMENTATION"] = "python"
        env["PYTHONPATH"] = VERIF
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        proc = subprocess.run([sys.executable, "-m", "sym.replay", "--batch"], input=payload, capture_output=True,
                              text=True, env=env, cwd=VERIF, timeout=600, check=False)
        if proc.returncode != 0:
            raise RuntimeError("replay process failed: " + proc.stderr[-2000:])
        return json.loads(proc.stdout.splitlines()[-1])

    def replay_in_process(self, job, inputs, known=None):
        """Concrete execution of one harness (called in the replay process)."""
        sys.setrecursionlimit(20000)
        return self.concrete_run(job, inputs, known, RealEnv(job.roots or self.roots))

    @staticmethod
    def concrete_run(job, inputs, known, env):
        """Runs the harness on concrete inputs."""
        ctx = ConcreteCtx(inputs, env)
        ctx.known = known or {}
        result = {"status": "ok", "obs": None, "label": None, "detail": ""}
        try:
            job.func(ctx, **job.params)
        except ReplayDone as exc:
            result.update(status="fail", label=exc.label, detail=exc.detail)
        except AssumeFailed as exc:
            result.update(status="assume", detail=str(exc))
        except Exception as exc:  # pylint: disable=broad-except
            import traceback

            result.update(status="fail", label=f"unexpected {type(exc).__name__}",
                          detail="".join(traceback.format_exception(exc))[-1500:])
        result["obs"] = [[label, canon(value)] for label, value in ctx.observations]
        return result


def _unexpected(explorer, exc):
    """The harness let an exception escape: a violation for every input on this path."""
    import traceback

    detail = "".join(traceback.format_exception(exc))[-1500:]
    explorer.check(False, f"unexpected {type(exc).__name__}", detail)
