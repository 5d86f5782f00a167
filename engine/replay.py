"""Runs harnesses on the real package with concrete values (started with the repository's interpreter)."""
import importlib
import json
import sys
import traceback
import warnings


def run(check, job):
    from engine.ctx import ConcCtx
    mod = importlib.import_module("checks." + check)
    inst = None
    for t in ("quick", "thorough"):
        for i in mod.instances(t):
            if i["name"] == job["instance"]:
                inst = i
                break
        if inst:
            break
    if inst is None:
        return dict(status="error", detail="no instance " + job["instance"])
    ctx = ConcCtx(job["values"], job["instance"])
    r = _run(ctx, mod, inst, job)
    if ctx.jitter is not None:
        r["values"] = ctx.values
    return r


def _run(ctx, mod, inst, job):
    from engine.ctx import Abandon, Cut, Failure
    import numpy
    ctx.keep_going = bool(job.get("keep"))
    ctx.jitter = job.get("jitter")
    numpy.random.seed(0)
    try:
        with warnings.catch_warnings(), numpy.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            getattr(mod, inst["fn"])(ctx, **inst.get("kw", {}))
        if ctx.failures:
            return dict(status="fail", label=ctx.failures[0][0], detail="%s: %s" % ctx.failures[0], obs=ctx.obs_values())
        return dict(status="ok", checks=ctx.nchecks, obs=ctx.obs_values())
    except Abandon as ctx_end:
        if ctx.failures:
            return dict(status="fail", label=ctx.failures[0][0], detail="%s: %s" % ctx.failures[0])
        if isinstance(ctx_end, Cut):
            return dict(status="ok", checks=ctx.nchecks, obs=ctx.obs_values())
        return dict(status="abandon", detail="assumption not met or path cut", obs=ctx.obs_values())
    except Failure as f:
        return dict(status="fail", label=f.label, detail=str(f))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inpkg = any("/diamondback/" in t.filename for t in tb)
        return dict(status="fail" if inpkg or getattr(e, "_expected_in_code", False) else "error", label="exception " + type(e).__name__,
                    detail="%s: %s at %s:%d" % (type(e).__name__, str(e)[:300], tb[-1].filename, tb[-1].lineno))
    finally:
        ctx.close_env()


def main(jf, of):
    d = json.load(open(jf))
    out = []
    def late(*a):
        raise TimeoutError("replay of one input took more than 20 s")
    import signal
    signal.signal(signal.SIGALRM, late)
    import time
    end, hits = time.time() + d.get("budget", 1e9), set()
    for job in d["jobs"]:
        if job.get("group") in hits or time.time() > end:
            out.append(dict(status="skipped"))
            continue
        try:
            signal.alarm(20)
            r = run(d["check"], job)
            out.append(r)
            if r["status"] == "fail" and "group" in job:
                hits.add(job["group"])
        except BaseException as e:
            out.append(dict(status="error", detail=repr(e)))
    signal.alarm(0)
    json.dump(out, open(of + ".tmp", "w"))
    import os
    os.rename(of + ".tmp", of)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
