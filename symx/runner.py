"""Runs one property's check: explores all its cases on worker processes, replays
counterexamples on the unmodified package, writes the evidence file."""
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class ReplayServer:
    def __init__(self):
        self.p = None

    def ask(self, job, timeout=20):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([PY, "-B", os.path.join(ROOT, "symx", "replay.py"), "--serve"],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                      stderr=subprocess.DEVNULL,
                                      cwd=ROOT, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        self.p.stdin.write(json.dumps(dict(job, timeout=timeout)) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("replay server died")
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait(timeout=30)


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" | ")
                out.append((key.strip(), text.strip()))
    return out


class Pool:
    """Explores decision trees on worker processes, splitting the work as it goes."""

    def __init__(self, n):
        from . import worker
        ctx = mp.get_context("fork")
        self.inq, self.outq = ctx.Queue(), ctx.Queue()
        self.ps = [ctx.Process(target=worker.main_loop, args=(self.inq, self.outq), daemon=True)
                   for _ in range(n)]
        for p in self.ps:
            p.start()
        self.n = n

    def close(self):
        for p in self.ps:
            p.kill()
        for p in self.ps:
            p.join(5)


class Exploration:
    def __init__(self, pid, pool, replay, seed, deadline, known):
        self.pid, self.pool, self.replay = pid, pool, replay
        self.rng = random.Random(seed)
        self.deadline = deadline
        self.known = known
        self.known_hit = {}
        self.violation = None
        self.spurious = []
        self.n_replays = 0
        self.validated = 0
        self.samples = []
        self.errors = []
        self.funcs = set()
        self.per_case = {}
        self.unexplored = 0
        self.inconclusive = 0
        from .engine import Stats
        self.stats = Stats()
        self.sample_budget = 60
        self.n_id = 0

    def confirm(self, job, from_cut=False):
        """Replay; sets self.violation when it reproduces and is not a known finding."""
        self.n_replays += 1
        r = self.replay.ask(job)
        if r["status"] == "violation":
            key = "%s/%s/%s" % (job["func"], json.dumps(job["case"], sort_keys=True), r["label"])
            for k, text in self.known:
                if k == key or (k.endswith("*") and key.startswith(k[:-1])):
                    self.known_hit[k] = text
                    return "known"
            if self.violation is None:
                self.violation = (job, r)
            return "violation"
        if r["status"] == "ok" and from_cut:
            self.validated += 1
        elif not from_cut:
            self.spurious.append((job, r))
        return r["status"]

    def explore(self, tasks):
        """tasks: list of (module, func, case, opts)"""
        # one queue per case; the case that has used the least time goes next, so that a
        # large case cannot keep the others from being explored
        queues, spent, order = {}, {}, {}
        tasks = list(tasks)
        self.rng.shuffle(tasks)
        for i, (m, f, c, o) in enumerate(tasks):
            queues[i] = [{"module": m, "func": f, "case": c, "opts": o, "prefix": [], "case_id": i}]
            spent[i] = 0.0
        out = 0
        n_id = self.n_id
        n_todo = len(tasks)
        queued = {}
        slice_s = 2.0
        while (n_todo or out) and self.violation is None:
            now = time.time()
            if now > self.deadline:
                break
            while n_todo and out < self.pool.n + 2:
                ci = min((i for i in queues if queues[i]), key=lambda i: spent[i])
                t = queues[ci].pop()
                n_todo -= 1
                n_id += 1
                # short slices while there is little to share, longer ones later
                ms = 0.7 if n_todo < self.pool.n else slice_s
                t = dict(t, id=n_id, max_s=min(ms, max(0.2, self.deadline - now)))
                spent[ci] += 0.05
                queued[n_id] = t
                self.pool.inq.put(t)
                out += 1
            try:
                i, r = self.pool.outq.get(timeout=max(0.1, min(5.0, self.deadline - time.time())))
            except Exception:
                continue
            if i not in queued:
                continue            # left over from an exploration that ran out of time
            out -= 1
            t = queued.pop(i)
            if r["error"]:
                self.errors.append(r["error"])
                if len(self.errors) > 5:
                    break
            key = "%s %s" % (t["func"], json.dumps(t["case"], sort_keys=True))
            pc = self.per_case.setdefault(key, [0, 0, 0.0])
            pc[0] += r["stats"].paths
            pc[1] += r["stats"].checks
            pc[2] += r["s"]
            self.stats.merge(r["stats"])
            self.funcs |= r["funcs"]
            left = [dict(t, prefix=p) for p in r["left"]]
            self.rng.shuffle(left)
            queues[t["case_id"]].extend(left)
            n_todo += len(left)
            spent[t["case_id"]] += r["s"]
            done = {}
            for job in r["fails"]:
                # a few tries per label: the first confirmed one ends the check
                if self.violation is None and done.get(job["label"], 0) < 2 and len(self.spurious) < 40:
                    s = self.confirm(job)
                    done[job["label"]] = done.get(job["label"], 0) + 1
            for job in r["cuts"][:2]:
                if self.violation is None:
                    self.confirm(job, from_cut=True)
            for job in r["samples"]:
                if self.violation is None and self.sample_budget > 0:
                    self.sample_budget -= 1
                    self.n_replays += 1
                    v = self.replay.ask(job)
                    if v["status"] == "ok":
                        self.validated += 1
                        if len(self.samples) < 6:
                            self.samples.append({"case": job["case"], "inputs": job["values"],
                                                 "harness": job["func"]})
                    elif v["status"] == "violation":
                        # the encoding said this path is fine, the real code says it is not
                        job["label"] = "model replay"
                        self.confirm(job)
                    else:
                        self.errors.append("sample replay: %s %s" % (json.dumps(job)[:600], v))
        self.unexplored += n_todo + out
        self.n_id = n_id


def run_check(pid, tier, workers=None, budget=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("harness." + pid.lower())
    plan = mod.plan(tier)
    if budget is None:
        budget = plan.get("budget", 400 if tier == "quick" else 3600)
    workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    known = known_findings(pid)
    replay = ReplayServer()
    pool = Pool(workers)
    ex = Exploration(pid, pool, replay, seed, t0 + budget, known)
    modes = ["given"]
    try:
        ex.explore([(pid.lower(), f, c, o) for f, c, o in plan["cases"]])
        if ex.violation is None and ex.spurious and not any(o.get("real") for _, _, o in plan["cases"]):
            # some counterexample did not reproduce: the abstract tables do not fit this
            # tree; decide again with the tables pinned to the package's own data
            modes.append("pinned tables")
            first = len(ex.spurious)
            ex.deadline = time.time() + budget * 0.6
            ex.explore([(pid.lower(), f, c, dict(o, real=True)) for f, c, o in plan["cases"]])
            ex.notes = "first pass: %d counterexamples did not reproduce" % first
        extra = None
        if ex.violation is None and "extra" in plan:
            extra = plan["extra"](tier, ex)
    finally:
        pool.close()
        replay.close()
    st = ex.stats
    missing = [l for l in plan.get("witnesses", []) if not st.reached.get(l)]
    wall = time.time() - t0
    complete = (ex.unexplored == 0 and st.cut == 0 and st.unsupported == 0 and st.unknown == 0
                and not ex.spurious and "a symbolic string was made concrete" not in st.notes)
    cov = {
        "states": st.paths,
        "transitions": st.decisions,
        "traces_validated_against_impl": ex.validated,
        "samples": ex.samples or [{"note": "no path completed"}],
        "exhaustive": bool(complete),
        "functions_encoded": sorted(ex.funcs),
        "bounds": plan["bounds"],
        "outside_the_bounds": plan.get("outside", ""),
        "cases": len(plan["cases"]),
        "assertions_checked": st.checks,
        "solver_queries": st.queries,
        "solver_s": round(st.solver_s, 2),
        "infeasible_paths": st.infeasible,
        "paths_cut": st.cut,
        "paths_unsupported": st.unsupported,
        "solver_unknown": st.unknown,
        "unexplored_subtrees": ex.unexplored,
        "counterexamples_not_reproduced": len(ex.spurious),
        "replays": ex.n_replays,
        "notes": dict(list(st.notes.items())[:20]),
        "reached": st.reached,
        "modes": modes,
        "slowest_cases": sorted(([k] + v for k, v in ex.per_case.items()), key=lambda x: -x[3])[:8],
    }
    if extra:
        cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": plan.get("level", "model_checking"),
          "coverage": cov, "assumptions": plan.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": 0 if ex.violation is None else 1}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d paths, %d decisions, %d assertions, %d queries (%.1fs solver), %d replays, "
          "%d validated, unexplored %d, cut %d, unsupported %d, spurious %d, %.1fs" %
          (pid, tier, st.paths, st.decisions, st.checks, st.queries, st.solver_s, ex.n_replays,
           ex.validated, ex.unexplored, st.cut, st.unsupported, len(ex.spurious), wall))
    for k, text in sorted(ex.known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if ex.violation is not None:
        job, r = ex.violation
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", "%s.violation.json" % pid)
        with open(path, "w") as f:
            json.dump(dict(job, property=pid, verdict=r), f, indent=1)
        print("  harness %s case %s" % (job["func"], json.dumps(job["case"])))
        print("  inputs %s" % json.dumps(job["values"]))
        print("  real code: %s: %s" % (r["label"], r["detail"]))
        print("  replay with: %s %s/symx/replay.py %s" % (PY, ROOT, path))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for s, r in ex.spurious[:3]:
        print("  not reproduced: %s %s %s -> %s" % (s["label"], json.dumps(s["case"]),
                                                   json.dumps(s["values"]), r))
    if ex.errors:
        for e in ex.errors[:2]:
            print("  error: %s" % e)
    if ex.errors or st.paths == 0:
        print("ERROR: the check could not decide the property")
        return 2
    if missing and (ex.unexplored or not complete):
        print("NOTE: not reached within the time: %s" % missing)
    elif missing:
        print("ERROR: vacuous: never reached %s" % missing)
        return 2
    return 0
