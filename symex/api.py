"""Harness declaration (importable without the solver)."""


class Harness:
    """One symbolic harness: fn(ctx, **params) from module `module`."""

    def __init__(self, fn, quick=None, thorough=None, bounds="", validate=1, path_timeout=60, preload=()):
        self.fn = fn if isinstance(fn, str) else fn.__name__
        self.quick = quick if quick is not None else {}
        self.thorough = thorough if thorough is not None else self.quick
        self.bounds = bounds
        self.validate = validate
        self.path_timeout = path_timeout
        self.preload = preload
