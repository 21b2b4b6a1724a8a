"""Path-exploring symbolic execution engine for Python code, decided by Z3.

The code under test is executed by the ordinary Python interpreter on *symbolic
proxies* (see values.py).  Every truth test on a symbolic value calls
Engine.branch(), which forks the path; the solver decides which sides are
feasible, and every property assertion is a query "path condition and not
property".  Exploration is by deterministic re-execution along a decision
prefix, with the solver's scope stack kept aligned with the decision stack, so
re-executing a prefix costs no solver call.
"""
import signal
import time
import z3
from . import terms as tm


class SxAbort(BaseException):
    """Steers the exploration; a BaseException so code under test cannot catch it."""


class Infeasible(SxAbort):
    pass


class PathCut(SxAbort):
    """The decision or step budget of one path ran out."""


class Unsupported(SxAbort):
    """An operation the encoding does not cover."""


class Hang(SxAbort):
    """The path has been computing for long without meeting a symbolic value."""


class SolverUnknown(SxAbort):
    pass


class StopPath(SxAbort):
    """The path ends here: a violation has been recorded."""


class Decision:
    __slots__ = ("cond", "value", "alt_open", "cval")

    def __init__(self, cond, value, alt_open, cval=None):
        self.cond = cond          # z3 Bool (None: seeded, not met yet)
        self.value = value        # side taken
        self.alt_open = alt_open  # other side not explored yet
        self.cval = cval          # candidate value, when made by concretize()


class Stats:
    FIELDS = ("paths", "infeasible", "cut", "unsupported", "unknown", "decisions",
              "queries", "checks")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.notes = {}
        self.reached = {}

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.notes.items():
            self.note(k, v)
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v


_CUR = None  # the engine of this process
HANG_S = 4      # CPU seconds between looks at a path's progress


def _on_timer(signum, frame):
    e = _CUR
    if e is None or not e.running:
        return
    t = (e.n_paths, e.pos, e.stats.queries, e.stats.decisions)
    if t != e.last_tick:
        e.last_tick, e.idle = t, 0
        return
    e.idle += 1
    if e.idle >= 3:
        e.idle = 0
        raise Hang("no progress")


def arm_timer():
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_S, HANG_S)


def cur():
    return _CUR


class Engine:
    def __init__(self, max_decisions=400, timeout_ms=60000):
        global _CUR
        _CUR = self
        self.max_decisions = max_decisions
        self.timeout_ms = timeout_ms
        self.stats = Stats()
        self.on_cut = None
        self.decisions = []
        self.pos = 0
        self.known = {}
        self.sx = None
        self.running = False
        self.n_paths = 0
        self.last_tick, self.idle = None, 0

    def _new_solver(self):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", self.timeout_ms)
        self.n_scopes = 0
        self.model = None

    # ---- solver access -------------------------------------------------
    def _check(self):
        t = time.perf_counter()
        r = self.solver.check()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
            raise SolverUnknown(self.solver.reason_unknown())
        return r == z3.sat

    def _refresh(self):
        """Make self.model a model of everything asserted; abort if there is none."""
        if not self._check():
            raise Infeasible()
        self.model = tm.Model(self.solver.model())

    # ---- constraints ---------------------------------------------------
    def assume(self, cond):
        """Add an assumption or a definitional axiom to the path condition."""
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        if cond.op == "and":
            for c in cond.a:
                self.assume(c)
            return
        neg = cond.op == "not"
        base = cond.a if neg else cond
        k = self.known.get(base.uid)
        if k is not None:
            if k == neg:
                raise Infeasible()
            return
        self.known[base.uid] = not neg
        if self.pos < self.n_replay:
            return
        self.solver.add(tm.to_z3(cond))
        if not self.seeding and not tm.ev(cond, self.model):
            self._refresh()

    def lookup(self, cond):
        """True/False if cond is decided by facts already on the path, else None."""
        if cond is True or cond is False:
            return cond
        if cond.op == "not":
            r = self.lookup(cond.a)
            return None if r is None else not r
        k = self.known.get(cond.uid)
        if k is not None:
            return k
        if cond.op == "and":
            r = True
            for c in cond.a:
                v = self.lookup(c)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        return None

    def branch(self, cond, cval=None):
        """Truth value of cond on this path; forks when both are feasible."""
        if cval is None:
            k = self.lookup(cond)
            if k is not None:
                return k
        elif cond is True or cond is False:
            return cond
        neg = False
        if cond.op == "not":
            cond = cond.a
            neg = True
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            if d.cond is None:           # seeded prefix: assert now, check at its end
                d.cond = cond
                self.solver.push()
                self.n_scopes += 1
                self.solver.add(tm.to_z3(cond if d.value else tm.not_(cond)))
            elif d.cond is not cond:
                raise RuntimeError("non-deterministic re-execution: %s vs %s" % (d.cond, cond))
            self.pos += 1
            self.known[cond.uid] = d.value
            if self.seeding and self.pos == len(self.decisions):
                self.seeding = False
                self.n_replay = self.pos
                self._refresh()
            return d.value != neg
        if self.sx is not None and self.sx.pending:
            self.sx.flush()
        if len(self.decisions) >= self.max_decisions:
            raise PathCut("decisions")
        v = tm.ev(cond, self.model)
        self.decisions.append(Decision(cond, v, True, cval))
        self.solver.push()
        self.n_scopes += 1
        self.solver.add(tm.to_z3(cond if v else tm.not_(cond)))
        self.pos += 1
        self.n_replay = self.pos
        self.known[cond.uid] = v
        self.stats.decisions += 1
        return v != neg

    def concretize(self, expr):
        """Fork over the feasible concrete values of an Int expression."""
        if type(expr) is not tm.T:
            return expr
        v = self.conc.get(expr.uid)
        if v is not None:
            return v
        while True:
            if self.pos < len(self.decisions):
                v = self.decisions[self.pos].cval
                if v is None:
                    raise RuntimeError("non-deterministic re-execution (concretize)")
            else:
                v = tm.ev(expr, self.model)
            c = tm.eq(expr, v)
            if c is False:
                raise RuntimeError("concretize")
            if c is True or self.branch(c, cval=v):
                self.conc[expr.uid] = v
                return v

    def in_prefix(self):
        """True while re-executing decisions already taken (checks there are done)."""
        return self.pos < len(self.decisions)

    def refute(self, cond):
        """None if cond holds on every value of this path, else a model falsifying it."""
        k = self.lookup(cond)
        if k is True:
            return None
        if k is False or not tm.ev(cond, self.model):
            return self.model
        self.solver.push()
        try:
            self.solver.add(tm.to_z3(tm.not_(cond)))
            if self._check():
                return tm.Model(self.solver.model())
        finally:
            self.solver.pop()
        return None

    # ---- exploration ---------------------------------------------------
    def run_tree(self, run_path, prefix=(), max_paths=None, max_s=None, stop=None):
        """Explore the subtree under a decision prefix [(value, cval), ...].

        Returns the prefixes left unexplored when the budget ended.
        """
        self._new_solver()
        self.decisions = [Decision(None, v, False, c) for v, c in prefix]
        seed_len = len(prefix)
        first = True
        n = 0
        t0 = time.time()
        while True:
            self.seeding = first and seed_len > 0
            self.n_replay = 0 if first else len(self.decisions)
            self.pos = 0
            self.known = {}
            self.conc = {}
            was_first, first = first, False
            try:
                if was_first:
                    self._refresh()
                self.n_paths += 1
                self.running = True
                try:
                    run_path()
                finally:
                    self.running = False
                self.stats.paths += 1
            except Infeasible:
                self.stats.infeasible += 1
            except StopPath:
                self.stats.paths += 1
            except (PathCut, Hang) as e:
                self.stats.cut += 1
                self.stats.note("cut: %s" % e)
                if self.on_cut is not None and not self.seeding:
                    self.on_cut("cut: %s" % e)
            except SolverUnknown as e:
                self.stats.note("unknown: %s" % e)
            except Unsupported as e:
                self.stats.unsupported += 1
                self.stats.note("unsupported: %s" % e)
                if self.on_cut is not None and not self.seeding:
                    self.on_cut("unsupported: %s" % e)
            n += 1
            if self.seeding:        # the seeded prefix was infeasible before its end
                return []
            if stop is not None and stop():
                return []
            while True:             # backtrack
                while self.decisions and not self.decisions[-1].alt_open:
                    self._pop_to(len(self.decisions) - 1)
                if len(self.decisions) <= seed_len:
                    return []
                if (max_paths is not None and n >= max_paths) or \
                        (max_s is not None and time.time() - t0 > max_s):
                    return self._leftover(seed_len)
                d = self.decisions[-1]
                self._pop_to(len(self.decisions) - 1)
                self.decisions.append(Decision(d.cond, not d.value, False, d.cval))
                self.solver.push()
                self.n_scopes += 1
                self.solver.add(tm.to_z3(d.cond if not d.value else tm.not_(d.cond)))
                try:
                    if self._check():
                        self.model = tm.Model(self.solver.model())
                        break
                except SolverUnknown as e:
                    self.stats.note("unknown: %s" % e)

    def _pop_to(self, k):
        m = self.n_scopes - k
        if m > 0:
            self.solver.pop(m)
            self.n_scopes = k
        del self.decisions[k:]

    def _leftover(self, seed_len):
        out = []
        ds = self.decisions
        for i in range(seed_len, len(ds)):
            if ds[i].alt_open:
                out.append([(x.value, x.cval) for x in ds[:i]] + [(not ds[i].value, ds[i].cval)])
        return out
