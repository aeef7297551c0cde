class Job(object):
    """One symbolic-execution job: setup() builds concrete context (compiled PFA engines, ...) once; fn(c, env) is executed on every path."""

    def __init__(self, name, fn, setup=None, mode="real", limit=120.0, qms=10000, max_paths=100000, stubs=None, bound="", **kw):
        self.name, self.fn, self.setup, self.mode, self.limit, self.qms = name, fn, setup, mode, limit, qms
        self.max_paths, self.stubs, self.bound, self.kw = max_paths, stubs, bound, kw
