"""Path exploration core: symbolic execution by re-execution.

One *path* is one run of a harness.  Every time the code under analysis needs
the truth value of a symbolic condition the engine asks the solver which sides
are feasible under the path condition, follows one and queues the other.  A
path is identified by its list of decisions; replaying the prefix of decisions
reproduces the path deterministically.
"""
import time
import z3


class EngineStop(BaseException):
    """Base of the engine's own control flow (never caught by `except Exception`)."""


class Infeasible(EngineStop):
    pass


class SkipPath(EngineStop):
    """The harness could not bind to the code (anchor missing)."""


class PathDone(EngineStop):
    pass


class ReplayDivergence(EngineStop):
    pass


class State:
    """Per-process engine state; the current path lives here."""

    def __init__(self):
        self.active = False
        self.js_funcs = set()
        self.solver = None
        self.reset_stats()
        self.stack = []  # constraints currently asserted in the solver (as z3 asts)
        self.solver_timeout_ms = 20000

    def reset_stats(self):
        self.stats = dict(queries=0, solver_s=0.0, unknown=0, branches=0, decisions=0,
                          paths=0, infeasible=0, concretised=0, obligations=0)

    # ---- path life cycle
    def begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []      # entries: (choice, payload)
        self.alts = []           # prefixes to explore later
        self.pc = []             # asserted constraints (z3)
        self.inputs = {}         # name -> symbolic value
        self.known_bools = {}    # ast id -> (ast, bool): decided on this path
        self.model = None
        self.observed = []
        self.violations = []
        self.notes = []
        self.truncated = False
        self.counter = 0
        self.sym_keys = False
        self.active = True
        self.env = {}
        self.deadline = None

    def fresh(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    # ---- solver
    def _sync(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.solver_timeout_ms)
            self.stack = []
        st, pc = self.stack, self.pc
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n].eq(pc[n]):
            n += 1
        if len(st) > n:
            self.solver.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def query(self, *extra):
        """sat / unsat / unknown of path condition plus extra; sets last_model."""
        self._sync()
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t
        self.last_model = None
        if r == z3.sat:
            self.last_model = self.solver.model()
            return "sat"
        if r == z3.unsat:
            return "unsat"
        # one fresh attempt, outside the incremental solver
        t = time.perf_counter()
        s = z3.Solver()
        s.set("timeout", self.solver_timeout_ms * 3)
        s.add(*self.pc)
        s.add(*extra)
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t
        if r == z3.sat:
            self.last_model = s.model()
            return "sat"
        if r == z3.unsat:
            return "unsat"
        self.stats["unknown"] += 1
        return "unknown"

    def add(self, c):
        """Assert a constraint on the current path (assumption already known feasible)."""
        self.pc.append(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def get_model(self):
        if self.model is None:
            r = self.query()
            if r == "unsat":
                raise Infeasible()
            if r == "unknown":
                raise Infeasible()
            self.model = self.last_model
        return self.model

    # ---- decisions
    def branch(self, cond):
        """Decide a z3 Bool on this path."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.stats["branches"] += 1
        k = cond.get_id()
        hit = self.known_bools.get(k)
        if self.pos < len(self.prefix):
            choice, forced = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((choice, forced))
            if hit is not None and hit[1] != choice:
                raise RuntimeError("replay went another way: " + str(cond)[:300])
            if forced is not True:
                self.add(cond if choice else z3.Not(cond))
            self.known_bools[k] = (cond, choice)
            return choice
        if hit is not None:
            # recorded like a decision: whether an equal condition is recognised may differ between processes
            self.decisions.append((hit[1], True))
            self.pos = len(self.decisions)
            return hit[1]
        if self.deadline is not None and time.monotonic() > self.deadline:
            self.truncated = True
        m = self.model
        tf = ff = None
        if m is None:
            # find any model of the path condition first
            r = self.query(cond)
            if r == "sat":
                tf = True
                m = self.model = self.last_model
            elif r == "unsat":
                tf = False
            else:
                tf = None
        else:
            if z3.is_true(m.eval(cond, model_completion=True)):
                tf = True
            else:
                ff = True
        if tf is True and ff is None:
            r = self.query(z3.Not(cond))
            ff = {"sat": True, "unsat": False, "unknown": None}[r]
            fmodel = self.last_model
            tmodel = m
        elif ff is True and tf is None:
            r = self.query(cond)
            tf = {"sat": True, "unsat": False, "unknown": None}[r]
            tmodel = self.last_model
            fmodel = m
        elif tf is False:
            r = self.query(z3.Not(cond))
            if r == "unsat":
                raise Infeasible()
            ff = True if r == "sat" else None
            tmodel, fmodel = None, self.last_model
        else:
            r = self.query(z3.Not(cond))
            ff = {"sat": True, "unsat": False, "unknown": None}[r]
            tmodel, fmodel = None, self.last_model
        if tf is not False and ff is not False:
            # genuine fork
            self.stats["decisions"] += 1
            choice = True
            self.alts.append(self.decisions + [(False, None)])
            self.decisions.append((choice, None))
            self.model = tmodel
            self.add(cond)
        else:
            choice = tf is not False
            self.decisions.append((choice, True))
            self.model = tmodel if choice else fmodel
        self.pos = len(self.decisions)
        self.known_bools[k] = (cond, choice)
        return choice

    def pick_value(self, expr, limit=None):
        """Concretise an integer expression, forking over all its feasible values
        (or over `limit` of them, in which case the path is marked incomplete)."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                choice, payload = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append((choice, payload))
                v = payload[1]
                if choice:
                    self.add(expr == v)
                    return v
                self.add(expr != v)
                n += 1
                continue
            m = self.get_model()
            v = m.eval(expr, model_completion=True).as_long()
            r = self.query(expr != v)
            self.pos += 1
            if r != "unsat":
                n += 1
                if limit is not None and n >= limit:
                    self.stats["concretised"] += 1
                    self.truncated = True
                else:
                    self.stats["decisions"] += 1
                    self.alts.append(self.decisions + [(False, ("v", v))])
            self.decisions.append((True, ("v", v)))
            self.add(expr == v)
            return v

    def assume(self, cond):
        """Restrict the path to cond (no alternative explored)."""
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.add(cond)
        if self.model is None:
            if self.pos >= len(self.prefix):
                r = self.query()
                if r == "unsat":
                    raise Infeasible()
                self.model = self.last_model


S = State()
