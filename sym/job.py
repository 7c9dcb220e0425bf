"""Verification job: one harness with fixed parameters."""


class Job:
    def __init__(self, name, func, params=None, *, engine=None, roots=None, logic="QF_BV", loop_limit=4096,
                 max_paths=200000, query_timeout_ms=30000, exact_str=False, max_samples=6, must_reach=(), bounds=""):
        self.name = name
        self.func = func
        self.params = params or {}
        self.engine = engine
        self.roots = roots
        self.logic = logic
        self.loop_limit = loop_limit
        self.max_paths = max_paths
        self.query_timeout_ms = query_timeout_ms
        self.exact_str = exact_str
        self.max_samples = max_samples
        self.must_reach = tuple(must_reach)
        self.bounds = bounds
