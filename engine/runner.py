"""Runs the instances of one check, replays what they report on the real code and writes the evidence."""
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import resource
import shlex
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def explore(check, inst, seedv):
    """Symbolic exploration of one instance; returns a JSON-able result."""
    from . import core
    from .ctx import SymCtx, witness
    stats = core.Stats()
    t0 = time.time()
    res = dict(name=inst["name"], problems=[], found=[], witnesses=[], functions=[], labels={}, sample=None)
    funcs = set()
    pkgdir = os.path.join(REPO, "diamondback") + os.sep
    mon = sys.monitoring
    tid = 3
    mon.use_tool_id(tid, "verif")

    def on_start(code, off):
        if code.co_filename.startswith(pkgdir) and not code.co_name.startswith("<"):
            funcs.add(os.path.relpath(code.co_filename, REPO) + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, on_start)
    mon.set_events(tid, mon.events.PY_START)
    rng = random.Random("%s/%s/%d" % (check, inst["name"], seedv))
    stack = [[]]
    budget = inst["budget"]
    deadline = t0 + budget
    mod = importlib.import_module("checks." + check)
    fn = getattr(mod, inst["fn"])
    nwit = 0
    core.STRICT_DIV = False
    marks = {}
    while stack:
        if stats.paths >= inst["max_paths"]:
            res["problems"].append("path limit %d reached, %d prefixes open" % (inst["max_paths"], len(stack)))
            break
        prefix = stack.pop()
        st = core.State(prefix, stats, deadline, inst["timeout_ms"], seedv)
        core.CUR = st
        ctx = SymCtx(st, inst["name"])
        stats.paths += 1
        done = stop = False
        try:
            fn(ctx, **inst["kw"])
            done = True
        except core.PathCut:
            done = True
            stats.cut += 1
        except core.Infeasible:
            stats.infeasible += 1
        except core.CheckFailed:
            pass
        except (core.BudgetExceeded, Late) as e:
            res["problems"].append("budget: %s" % e)
            stop = True
            try:
                # an input of this path: if the code does not end on it either, that is a violation
                signal.alarm(40)
                st.deadline = None
                r, m = st.solve([], full=True, timeout_ms=8000)
                if r == "sat":
                    ctx._cex("termination", m or {}, [], "sat")
                    res["late"] = ctx.found.pop()
            except (core.EngineStop, Late):
                pass
            signal.alarm(0)
        except core.Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(pkgdir)]
            res["problems"].append("unsupported: %s%s" % (e, " at %s:%d" % (where[-1].filename, where[-1].lineno) if where else ""))
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
        except RecursionError as e:
            res["problems"].append("recursion: %s" % e)
        except MemoryError as e:
            res["problems"].append("memory: %s" % e)
            stop = True
        except Exception as e:
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            try:
                r, m = st.solve([], full=True)
                if r != "unsat":
                    label = "exception %s" % type(e).__name__
                    ctx._cex(label, m or {}, [], "sat")
                    ctx.found[-1]["detail"] = str(e)[:300]
            except core.EngineStop as e2:
                res["problems"].append("exception %r on a path without a model (%s)" % (e, e2))
        for k, v in getattr(stats, "marks", {}).items():
            marks[k] = v
        for f in ctx.found:
            res["found"].append(f)
        for u in ctx.unknown:
            res["problems"].append("solver gave no answer for %s" % u)
        for k, v in ctx.labels.items():
            res["labels"][k] = res["labels"].get(k, 0) + v
        if done and not ctx.found and nwit < inst["witnesses"] and time.time() < deadline:
            try:
                w = witness(ctx, rng)
                if isinstance(w, dict):
                    nwit += 1
                    res["witnesses"].append(dict(values=w, obs=ctx.eval_obs(w)[:200], path=stats.paths))
                elif w == "unknown" and nwit == 0:
                    res.setdefault("nowit", []).append(stats.paths)
            except core.EngineStop:
                pass
        if stop or len(res["found"]) >= 6:
            if len(res["found"]) >= 6 and stack:
                res["stopped"] = True
            break
        stack.extend(reversed([list(a) for a in st.alts]))
    core.CUR = None
    mon.set_events(tid, 0)
    res.update(paths=stats.paths, decisions=stats.decisions, queries=stats.queries, sat=stats.sat, unsat=stats.unsat, unknown=stats.unknown,
               checks=stats.checks, solver_s=round(stats.solver_s, 3), wall_s=round(time.time() - t0, 3), infeasible=stats.infeasible,
               cut=stats.cut, rounding_covered=stats.rounding_covered, rounding_open=stats.rounding_open, functions=sorted(funcs),
               maxvars=stats.maxvars, marks=marks, symbolic_queries=stats.symbolic_queries)
    if not res["witnesses"] and not res["found"]:
        res["problems"].append("no witness: no path of this instance could be completed with a model")
    return res


class Late(Exception):
    pass


def _late(*a):
    raise Late("no end within the time budget")


def _worker(check, inst, seedv, path):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import numpy
    numpy.seterr(all="ignore")
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(int(inst["budget"]) + 10)
    try:
        r = explore(check, inst, seedv)
        signal.alarm(0)
    except BaseException as e:
        r = dict(name=inst["name"], problems=["engine: %s" % "".join(traceback.format_exception_only(type(e), e)).strip()], found=[], witnesses=[],
                 functions=[], labels={}, crash=traceback.format_exc()[-2000:])
    with open(path + ".tmp", "w") as f:
        json.dump(r, f)
    os.rename(path + ".tmp", path)
    os._exit(0)


def killgroup(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


def confirmed(check, r, tmp, kn):
    """Does a counterexample of this instance that is not a known finding fail on the real code?"""
    jobs = [dict(instance=r["name"], values=c, keep=False) for f in r["found"] + ([r["late"]] if r.get("late") else []) for c in f["candidates"][:3]]
    for o in replay(check, jobs, tmp):
        if o["status"] == "fail" and not any(r["name"] == d.get("instance") and (d.get("label") is None or o["label"].startswith(d["label"])) for d in kn):
            return True
    return False


def run_instances(check, insts, seedv, tmp, jobs=8, total=800.0):
    import z3  # noqa: loaded once before forking
    from . import arr, core, ctx, loader, shims  # noqa
    todo = sorted(enumerate(insts), key=lambda t: -t[1]["budget"])
    running, out = {}, [None] * len(insts)
    kn, start, why = known(check), time.time(), None
    while todo or running:
        if why is None and time.time() - start > total:
            why = "time budget of the check used up"
        if why:
            for pid, (i, inst, path, t0) in running.items():
                killgroup(pid)
                os.waitpid(pid, 0)
            for i, inst in todo + [(i, inst) for i, inst, _, _ in running.values()]:
                out[i] = dict(name=inst["name"], problems=[why], found=[], witnesses=[], functions=[], labels={})
            break
        while todo and len(running) < jobs:
            i, inst = todo.pop(0)
            path = os.path.join(tmp, "i%d.json" % i)
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    _worker(check, inst, seedv, path)
                finally:
                    os._exit(1)
            running[pid] = (i, inst, path, time.time())
        time.sleep(0.01)
        for pid in list(running):
            i, inst, path, t0 = running[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            if p == 0:
                if time.time() - t0 > inst["budget"] + 60:
                    killgroup(pid)
                    os.waitpid(pid, 0)
                    st = -1
                else:
                    continue
            del running[pid]
            if os.path.exists(path):
                out[i] = json.load(open(path))
                if (out[i]["found"] or out[i].get("late")) and why is None and not os.environ.get("VERIF_FULL") and confirmed(check, out[i], tmp, kn):
                    why = "not run: a violation was found first"
            else:
                out[i] = dict(name=inst["name"], problems=["worker ended without a result (status %s)" % st], found=[], witnesses=[], functions=[], labels={})
    return out


def replay(check, jobs, tmp, timeout=300, budget=1e9):
    """jobs: list of dict(instance, values, keep). Returns list of results from the real code."""
    if not jobs:
        return []
    jf, of = os.path.join(tmp, "jobs.json"), os.path.join(tmp, "out.json")
    json.dump(dict(check=check, jobs=jobs, budget=budget), open(jf, "w"))
    if os.path.exists(of):
        os.remove(of)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO + ":" + ROOT, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        p = subprocess.run([PY, "-W", "ignore", "-m", "engine.replay", jf, of], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        return [dict(status="error", detail="replay did not end in time") for _ in jobs]
    if not os.path.exists(of):
        return [dict(status="error", detail="replay process failed: " + p.stdout[-1500:]) for _ in jobs]
    return json.load(open(of))


def near(a, b, rel=1e-6):
    a = a if isinstance(a, list) else [a]
    b = b if isinstance(b, list) else [b]
    if len(a) != len(b):
        a = a + [0.0] * (2 - len(a))
        b = b + [0.0] * (2 - len(b))
    for x, y in zip(a, b):
        if math.isnan(x) or math.isnan(y):
            if math.isnan(x) != math.isnan(y):
                return False
            continue
        if x == y:
            continue
        if abs(x - y) > rel * (1.0 + abs(x) + abs(y)):
            return False
    return True


def known(check):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % check):
                d = dict(kv.split("=", 1) for kv in shlex.split(l[9:].split(" :: ")[0]) if "=" in kv)
                d["text"] = l.split(" :: ", 1)[1] if " :: " in l else l
                out.append(d)
    return out


def main(check):
    t0 = time.time()
    tv, sv = tier(), seed()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module("checks." + check)
    insts = []
    for i in mod.instances(tv):
        d = dict(budget=120 if tv == "quick" else 1500, max_paths=4000 if tv == "quick" else 200000, timeout_ms=20000 if tv == "quick" else 120000,
                 witnesses=2, kw={}, bounds="")
        d.update(i)
        insts.append(d)
    only = os.environ.get("VERIF_ONLY")
    if only:
        insts = [i for i in insts if only in i["name"]]
    names = [i["name"] for i in insts]
    assert len(set(names)) == len(names), "instance names"
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % check)
    try:
        return _main(check, mod, insts, tv, sv, t0, tmp, evdir)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(check, mod, insts, tv, sv, t0, tmp, evdir):
    results = run_instances(check, insts, sv, tmp, total=700.0 if tv == "quick" else 1e9)
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r.get("wall_s", 0))[:15]:
            print("TIME %.1fs solver %.1fs paths %s queries %s %s" % (r.get("wall_s", 0), r.get("solver_s", 0), r.get("paths"), r.get("queries"), r["name"]))
    jobs, meta = [], []
    for r in results:
        for f in r["found"]:
            for k, c in enumerate(f["candidates"]):
                jobs.append(dict(instance=r["name"], values=c, keep=False))
                meta.append(("cex", r, f, k))
        for c in r.get("late", {}).get("candidates", [])[:2]:
            jobs.append(dict(instance=r["name"], values=c, keep=False))
            meta.append(("late", r, r["late"], 0))
        for w in r["witnesses"]:
            jobs.append(dict(instance=r["name"], values=w["values"], keep=True))
            meta.append(("wit", r, w, 0))
    outs = replay(check, jobs, tmp)
    problems, violations, validated, mism = [], [], 0, []
    for r in results:
        for p in r["problems"]:
            problems.append("%s: %s" % (r["name"], p))
        if r.get("crash") and os.environ.get("VERIF_TRACE"):
            print(r["crash"])
    repro = {}
    for (kind, r, x, k), j, o in zip(meta, jobs, outs):
        if kind == "cex":
            key = (r["name"], x["label"], id(x))
            repro.setdefault(key, [x, None, []])
            if o["status"] == "fail" and repro[key][1] is None:
                repro[key][1] = (j, o)
            repro[key][2].append(o)
        elif kind == "late":
            if o["status"] == "fail":
                violations.append((r["name"], o["label"], j, o, "found when replaying an input of a path that did not end in time"))
        else:
            if o["status"] == "ok":
                sym, con = dict_obs(x["obs"]), dict_obs(o["obs"])
                bad = [n for n in sym if n in con and not near(sym[n], con[n])]
                miss = [n for n in sym if n not in con]
                if bad:
                    mism.append("%s: encoding and code disagree on %s (%s vs %s) for %s" % (r["name"], bad[0], sym[bad[0]], con[bad[0]], x["values"]))
                elif miss and len(x["obs"]) < 200:
                    mism.append("%s: code did not reach %s for %s" % (r["name"], miss[0], x["values"]))
                else:
                    validated += 1
            elif o["status"] == "fail":
                violations.append((r["name"], o["label"], j, o, "found when replaying a witness"))
            else:
                mism.append("%s: witness replay ended with %s: %s" % (r["name"], o["status"], o.get("detail", "")[:300]))
    # a counterexample of an abstraction (exponentials, angles, rounding) may only be near one of the code
    open_ = [k for k in repro if repro[k][1] is None and repro[k][0]["candidates"]]
    if open_ and not any(v[1] for v in repro.values()):
        tries, share = [], {}
        for k in open_:
            share.setdefault(k[0], []).append(k)
        share = [ks[0] for ks in share.values()][:12]
        for g, k in enumerate(share):
            cs = repro[k][0]["candidates"]
            tries += [dict(instance=k[0], values=cs[n % len(cs)], keep=False, jitter=n, group=g) for n in range(80)]
        for j, o in zip(tries, replay(check, tries, tmp, 200, 90)):
            if o["status"] == "fail":
                repro[share[j["group"]]][1] = (dict(j, values=o["values"]), o)
    for (name, label, _), (x, hit, all_o) in repro.items():
        if hit:
            violations.append((name, hit[1]["label"], hit[0], hit[1], x.get("detail", "")))
            validated += 1
        else:
            problems.append("%s: counterexample for %s did not reproduce on the code (%s) values %s" % (
                name, label, "; ".join("%s %s" % (o["status"], o.get("detail", "")[:120]) for o in all_o)[:400], json.dumps(x["candidates"][0])[:300] if x["candidates"] else ""))
    problems += mism
    kn = known(check)
    reported, knownhit = [], set()
    for v in violations:
        hit = None
        for n, d in enumerate(kn):
            if v[0] == d.get("instance") and (d.get("label") in (None, v[1]) or v[1].startswith(d.get("label", "\0"))):
                hit = n
        if hit is None:
            reported.append(v)
        else:
            knownhit.add(hit)
    for n in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (check, kn[n]["text"]))
    rp = os.path.join(evdir, check + ".replay.json")
    if reported:
        name, label, j, o, extra = reported[0]
        json.dump(dict(property=check, instance=name, label=label, values=j["values"], observed=o.get("detail"), note=extra,
                       replay="cd /verif && %s run.py --replay %s" % ("python3-vt", rp),
                       others=[dict(instance=v[0], label=v[1], values=v[2]["values"], observed=v[3].get("detail")) for v in reported[1:20]]), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (check, rp))
        print("  instance %s, %s: %s" % (name, label, str(o.get("detail"))[:400]))
    elif os.path.exists(rp):
        os.remove(rp)
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    funcs = sorted(set(f for r in results for f in r["functions"]))
    samples = []
    for r in results:
        for w in r["witnesses"][:1]:
            samples.append(dict(instance=r["name"], values={k: w["values"][k] for k in list(w["values"])[:12]}))
    samples = samples[:6]
    cov = dict(
        states=tot("paths"), transitions=tot("decisions"), traces_validated_against_impl=validated, samples=samples or ["none"],
        paths_explored=tot("paths"), paths_infeasible=tot("infeasible"), paths_cut_by_harness=tot("cut"), solver_queries=tot("queries"),
        queries_unsat=tot("unsat"), queries_sat=tot("sat"), queries_unknown=tot("unknown"), assertions_checked=tot("checks"),
        solver_seconds=round(tot("solver_s"), 2), functions_encoded=funcs[:80], rounding_error_covered=tot("rounding_covered"),
        rounding_error_not_covered=tot("rounding_open"),
        meaning="states = execution paths explored symbolically; transitions = branch decisions taken on them; each path stands for every input that follows it",
        instances=[dict(name=i["name"], bounds=i["bounds"][:200], paths=r.get("paths"), queries=r.get("queries"), assertions=r.get("checks"), solver_s=r.get("solver_s"),
                        wall_s=r.get("wall_s")) for i, r in zip(insts, results)][:120],
        bounds=getattr(mod, "BOUNDS", ""), inconclusive=problems[:20], counterexamples_reproduced=len(violations))
    ev = dict(property=check, tier=tv, seed=sv, level=getattr(mod, "LEVEL", "model_checking"), coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "binary64 values are modelled by exact reals; the accumulated rounding error of straight-line arithmetic is bounded alongside and subtracted from the tolerance where counted as covered",
                  "numpy and scipy are represented by the stand-ins in engine/ (validated on every run by replaying solver models on the real code)"],
              wall_s=round(time.time() - t0, 2), violations=len(reported))
    txt = json.dumps(ev, indent=1, default=str)
    while len(txt) > 60000 and cov["instances"]:
        cov["instances"] = cov["instances"][:len(cov["instances"]) // 2]
        cov["samples"] = cov["samples"][:2]
        txt = json.dumps(ev, indent=1, default=str)
    open(os.path.join(evdir, check + ".json"), "w").write(txt)
    print("%s tier=%s instances=%d paths=%d queries=%d (unsat %d, sat %d, unknown %d) assertions=%d solver=%.1fs replayed=%d wall=%.1fs" % (
        check, tv, len(insts), tot("paths"), tot("queries"), tot("unsat"), tot("sat"), tot("unknown"), tot("checks"), tot("solver_s"), validated, time.time() - t0))
    if reported:
        for v in reported[1:6]:
            print("  also: instance %s, %s: %s" % (v[0], v[1], str(v[3].get("detail"))[:200]))
        return 1
    if problems:
        for p in problems[:12]:
            print("INCONCLUSIVE " + p)
        return 2
    return 0


def dict_obs(obs):
    d, n = {}, {}
    for name, v in obs:
        k = n.get(name, 0)
        n[name] = k + 1
        d["%s#%d" % (name, k)] = v
    return d
