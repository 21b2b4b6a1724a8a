"""Replays solver models on the unmodified package (run with the repository's interpreter).

  replay.py FILE.json            one replay, human-readable; exit 1 if the violation shows
  replay.py --serve              JSON jobs on stdin, JSON verdicts on stdout
"""
import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
SRC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
sys.path.insert(0, SRC)
sys.path.insert(1, ROOT)
sys.dont_write_bytecode = True

from symx import concrete  # noqa: E402


def run_job(job):
    """Verdict: dict(status=ok|violation|assume, label, detail)."""
    mod = importlib.import_module("harness." + job["module"])
    import bibleref
    assert os.path.abspath(bibleref.__file__).startswith(SRC), bibleref.__file__
    sx = concrete.Conc(job["values"], job["tables"], job["case"], job["real"])
    f = getattr(mod, job["func"])
    try:
        f(sx, **job["case"])
    except concrete.AssumeFailed as e:
        return {"status": "assume", "label": "", "detail": str(e)}
    except concrete.CheckFailed as e:
        return {"status": "violation", "label": e.label, "detail": json.dumps(e.info)}
    except RecursionError as e:
        return {"status": "violation", "label": "exception:RecursionError", "detail": str(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d %s" % (os.path.basename(x.filename), x.lineno, x.name) for x in tb][-4:]
        # an exception in the harness itself means that the package gave it something that is
        # not what it promises (None for a range, say): on the unchanged tree there is none
        return {"status": "violation",
                "label": "exception:" + type(e).__name__,
                "detail": "%s at %s" % (e, " < ".join(reversed(where)))}
    return {"status": "ok", "label": "", "detail": "", "reached": sx.reached, "checks": sx.n_checks}


def forked(job, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            try:
                out = run_job(job)
            except MemoryError:
                out = {"status": "violation", "label": "exception:MemoryError", "detail": "memory exhausted"}
            os.write(w, json.dumps(out).encode()[:60000])
        except BaseException as e:
            try:
                os.write(w, json.dumps({"status": "harness-error", "label": type(e).__name__,
                                        "detail": traceback.format_exc()[-1500:]}).encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"status": "violation", "label": "nontermination",
                    "detail": "no result within %gs" % timeout}
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else {"status": "harness-error", "label": "died", "detail": ""}


def main():
    if sys.argv[1] == "--serve":
        import bibleref  # noqa: F401  (loaded once, each job runs in a fork)
        for line in sys.stdin:
            job = json.loads(line)
            print(json.dumps(forked(job, job.get("timeout", 20))), flush=True)
        return
    job = json.load(open(sys.argv[1]))
    out = forked(job, 60)
    print(json.dumps({"property": job.get("property"), "case": job["case"], "inputs": job["values"],
                      "verdict": out}, indent=1))
    sys.exit(1 if out["status"] == "violation" else 0)


if __name__ == "__main__":
    main()
