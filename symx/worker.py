"""One exploration process: runs harness cases symbolically."""
import importlib
import os
import resource
import sys
import time
import traceback
from . import engine as E
from . import terms as tm
from . import values as V
from . import loader
from . import api

_SUBJECT = None


def subject():
    global _SUBJECT
    if _SUBJECT is None:
        _SUBJECT = loader.Subject()
        _SUBJECT.install_tables()
    return _SUBJECT


def _plain_regroup(self, *a, **k):
    """Contract of regrouping where only the elements of a list matter (see C17): the
    elements stay as they are; which groups they form is left aside."""
    self.clear_groups()


class CaseRun:
    def __init__(self, module, func, case, opts):
        self.module, self.func, self.case, self.opts = module, func, case, opts
        self.s = subject()
        self.f = getattr(importlib.import_module("harness." + module), func)
        tm.reset()
        self.eng = E.Engine(max_decisions=opts.get("max_decisions", 600),
                            timeout_ms=opts.get("solver_ms", 60000))
        real = None
        if opts.get("real"):
            d = self.s.default
            real = ([d["max_verses"][b] for b in d["order"]],
                    {i: d["verse_0s"][b] for i, b in enumerate(d["order"]) if b in d["verse_0s"]})
        self.t = V.Tables(len(self.s.space.members), real=real,
                          max_ch=opts.get("max_ch", 150), max_v=opts.get("max_v", 200))
        V.set_tables(self.t)
        self.eng.on_cut = self.on_cut
        self.fails = []
        self.cuts = []
        self.samples = []
        self.funcs = set()
        self.profiled = 0
        self.n_sample = opts.get("samples", 2)
        self.seen_labels = {}

    def model_job(self, m):
        def ev(e):
            return tm.ev(e, m)
        vals = {}
        for n, e in self.sx.vars:
            vals[n] = ev(e)
        tabs = {"nch": [], "mv": [], "v0": []}
        for kind, o, c, t in self.t.log:
            if kind == "nch":
                tabs["nch"].append([ev(o), ev(t)])
            else:
                tabs[kind].append([ev(o), ev(c), ev(t)])
        return {"module": self.module, "func": self.func, "case": self.case, "values": vals,
                "tables": tabs, "real": bool(self.opts.get("real"))}

    def fail(self, label, m, info):
        k = self.seen_labels.get(label, 0)
        self.seen_labels[label] = k + 1
        if k < 6:
            job = self.model_job(m)
            job["label"] = label
            self.fails.append(job)

    def on_cut(self, why):
        if len(self.cuts) < 6:
            try:
                job = self.model_job(self.eng.model)
                job["label"] = why
                self.cuts.append(job)
            except Exception:
                pass

    def restore(self):
        """The package as it was when it had just been imported."""
        V.ACTIVE[0] = False
        self.s.snap.restore()
        if self.opts.get("stub_regroup"):
            c = self.s.bibleref.BibleRangeList
            if "regroup" in c.__dict__:
                c.regroup = _plain_regroup

    def path(self):
        self.restore()
        V.MARKERS.reset()
        self.t.reset()
        self.sx = sx = api.Sym(self.s, self.eng, self.t, self.case)
        sx.restore = self.restore
        sx.on_fail = self.fail
        V.ACTIVE[0] = True
        if self.profiled < 6:
            self.profiled += 1
            sys.setprofile(self._prof)
        try:
            self.f(sx, **self.case)
            sx.flush()
        except Exception as e:
            sys.setprofile(None)
            sx.flush()
            if self.eng.in_prefix():
                raise RuntimeError("exception inside a replayed prefix: %r" % e) from e
            self.fail("exception:%s" % type(e).__name__, self.eng.model, {})
            if self.opts.get("debug"):
                traceback.print_exc()
            return
        finally:
            sys.setprofile(None)
            V.ACTIVE[0] = False
        if len(self.samples) < self.n_sample and not self.eng.in_prefix():
            self.samples.append(self.model_job(self.eng.model))

    def _prof(self, frame, event, arg):
        if event == "call":
            c = frame.f_code
            if c.co_filename.startswith(loader.SRC):
                self.funcs.add("%s:%s" % (os.path.basename(c.co_filename), c.co_qualname))

    def go(self, prefix, max_s):
        left = self.eng.run_tree(self.path, prefix, max_s=max_s,
                                 stop=(lambda: len(self.fails) >= 12))
        return left


def run_task(task):
    """task: dict(module, func, case, opts, prefix, max_s) -> dict"""
    t0 = time.time()
    try:
        run = CaseRun(task["module"], task["func"], task["case"], task["opts"])
        if task.get("prefix"):
            run.n_sample = 0
        left = run.go(task["prefix"], task["max_s"])
        st = run.eng.stats
        return {"left": left, "stats": st, "fails": run.fails, "cuts": run.cuts,
                "samples": run.samples, "funcs": run.funcs, "s": time.time() - t0, "error": None}
    except Exception:
        return {"left": [], "stats": E.Stats(), "fails": [], "cuts": [], "samples": [],
                "funcs": set(), "s": time.time() - t0, "error": traceback.format_exc()}


def main_loop(inq, outq):
    sys.setrecursionlimit(3000)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    E.arm_timer()
    while True:
        t = inq.get()
        if t is None:
            return
        outq.put((t["id"], run_task(t)))
