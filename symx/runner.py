"""Runs the harnesses of a property: symbolic exploration, replay, evidence."""
import importlib.util
import gc
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
import types
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("HDF5STORAGE_SRC", "/repo/src")
EVID = os.path.join(ROOT, "evidence")
NPROC = int(os.environ.get("SYMX_PROCS", "8"))
TIME = {"quick": 45, "thorough": 600}

KEEP_GOING = bool(os.environ.get("SYMX_KEEP_GOING"))

REAL = None
INST = None


def load_real():
    """The unmodified package, imported in the usual way."""
    global REAL
    if REAL is None:
        if SRC not in sys.path[:1]:
            sys.path.insert(0, SRC)
        import hdf5storage  # noqa: F401

        got = os.path.dirname(os.path.dirname(os.path.abspath(hdf5storage.__file__)))
        if got != SRC:
            raise RuntimeError("imported %s, not %s" % (got, SRC))
        REAL = {k: v for k, v in sys.modules.items()
                if k == "hdf5storage" or k.startswith("hdf5storage.")}
        from . import sched

        sched.own_locks(SRC, REAL.values())
    return REAL


def load_inst():
    global INST
    if INST is None:
        load_real()
        from . import instr, rt

        INST = instr.load(SRC, rt.RUNTIME)[1]
        from . import sched

        sched.own_locks(SRC, INST.values())
    return INST


def harness_file(prop):
    return os.path.join(ROOT, "props", prop.lower() + ".py")


def load_harness(prop, symbolic):
    fn = harness_file(prop)
    name = "props_%s_%s" % (prop, "s" if symbolic else "c")
    if name in sys.modules:
        return sys.modules[name]
    m = types.ModuleType(name)
    m.__file__ = fn
    m.LIB = load_lib(symbolic)
    with open(fn) as f:
        src = f.read()
    if symbolic:
        from . import instr, rt

        m.__dict__[instr.RT] = rt.RUNTIME
        code = instr.transform(src, fn)
    else:
        code = compile(src, fn, "exec", dont_inherit=True)
    exec(code, m.__dict__)
    sys.modules[name] = m
    return m


def load_lib(symbolic):
    """props/lib.py: helpers that the harnesses share."""
    name = "props_lib_%s" % ("s" if symbolic else "c")
    if name in sys.modules:
        return sys.modules[name]
    fn = os.path.join(ROOT, "props", "lib.py")
    m = types.ModuleType(name)
    m.__file__ = fn
    if os.path.exists(fn):
        with open(fn) as f:
            src = f.read()
        if symbolic:
            from . import instr, rt

            m.__dict__[instr.RT] = rt.RUNTIME
            code = instr.transform(src, fn)
        else:
            code = compile(src, fn, "exec", dont_inherit=True)
        exec(code, m.__dict__)
    sys.modules[name] = m
    return m


def reset_state():
    from . import arr, files, h5, records, terms

    arr.reset()
    h5.reset()
    terms.DIGITS.clear()
    records.reset()
    files.reset()
    terms.HASHES[0] = 0


PATIENCE = 30
ENDLESS = "does not end"


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


def concrete(prop, fn, params, values, tier="quick", limit=60, fill=None):
    """Run a harness on concrete values with the real package.

    ('ok'|'skip'|'fail'|'timeout', label, detail, observed, nchecks)"""
    from . import ctx as C

    mods = load_real()
    h = load_harness(prop, False)
    c = C.ConcCtx(mods, values, tier, fill)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        try:
            getattr(h, fn)(c, **params)
            return ("ok", "", "", c.observed, c.nchecks)
        except C.Skip:
            return ("skip", "", "", c.observed, c.nchecks)
        except C.CheckFailed as e:
            return ("fail", e.label, e.detail, c.observed, c.nchecks)
        except Timeout:
            return ("timeout", "", "", [], 0)
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                               for f in reversed(tb[-4:]))
            return ("fail", "unexpected %s" % type(e).__name__, "%s @ %s" % (str(e)[:300], where),
                    c.observed, c.nchecks)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            try:
                c.finish()
            except Exception:  # noqa: BLE001
                pass
    except Timeout:
        return ("timeout", "", "", [], 0)


def evaluate(v, m):
    """The concrete value of an observed one under a model (or NotImplemented)."""
    from . import terms as T
    from .strs import SymBytes, SymStr, codes_of

    import z3

    def bv(t):
        if isinstance(t, int):
            return t
        return m.eval(t, model_completion=True).as_long()

    if isinstance(v, T.SymBool):
        return z3.is_true(m.eval(v.t, model_completion=True))
    if isinstance(v, T.SymInt):
        x = bv(v.t)
        return x - (1 << T.W) if x >= 1 << (T.W - 1) else x
    if isinstance(v, SymStr):
        return "".join(chr(bv(c)) for c in codes_of(v))
    if isinstance(v, SymBytes):
        return bytes(bv(c) for c in codes_of(v))
    if isinstance(v, (str, bytes, int, bool, type(None))):
        return v
    if type(v) in (tuple, list):
        out = [evaluate(x, m) for x in v]
        return NotImplemented if any(x is NotImplemented for x in out) else type(v)(out)
    return NotImplemented


def plain(v):
    import numpy as np

    if isinstance(v, np.generic):
        return v.item()
    return v


def run_job(job):
    """Explore one harness instance. Returns a plain dict."""
    prop, fn, params, tier, deadline = (job["prop"], job["fn"], job["params"], job["tier"],
                                        job["deadline"])
    from . import core, ctx as C

    warnings.simplefilter("ignore")
    mods = load_inst()
    h = load_harness(prop, True)
    eng = core.Engine(timeout_ms=15000, deadline=deadline,
                      seed=os.environ.get("VERIF_SEED", "1") + fn + json.dumps(params))
    core.set_engine(eng)
    res = {"fn": fn, "params": params, "paths": 0, "aborted": 0, "checks": 0, "replays": 0,
           "inexact": {}, "exhausted": False, "violation": None, "unconfirmed": [],
           "mismatch": [], "skipped": 0, "timeouts": 0, "errors": []}
    t0 = time.time()
    f = getattr(h, fn)
    sample = None
    while True:
        if res["paths"] % 8 == 0:
            # not at any other time, as it may run the package's code
            gc.collect()
        eng.start_path()
        reset_state()
        c = C.SymCtx(mods, eng, tier)
        kind = "done"
        label = detail = ""
        values = None
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(max(1, int(deadline - time.time())) + PATIENCE)
        try:
            f(c, **params)
            signal.alarm(0)
        except Timeout:
            kind, label = "stuck", "does not end"
        except core.PathAbort:
            kind = "abort"
        except core.PathDone:
            pass
        except core.Budget:
            c.finish()
            break
        except core.Violation as v:
            kind, label, values = "violation", v.label, v.values
        except core.Unsupported as u:
            if os.environ.get("SYMX_TRACE"):
                traceback.print_exc()
            kind, label = "unsupported", str(u)
        except C.Skip:
            kind = "abort"
        except RecursionError:
            kind, label = "unsupported", "recursion"
        except MemoryError:
            kind, label = "unsupported", "memory"
        except Exception as e:  # noqa: BLE001
            kind, label = "exception", "unexpected %s: %s" % (type(e).__name__, str(e)[:200])
            detail = "".join(traceback.format_exception(e)[-6:])[-1500:]
        signal.alarm(0)
        try:
            c.finish()
        except Exception:  # noqa: BLE001
            pass
        if kind == "abort":
            res["aborted"] += 1
        else:
            res["paths"] += 1
            res["checks"] += c.nchecks
            if values is None:
                try:
                    m = eng.get_model()
                    values = c.values(m)
                except core.Unsupported:
                    values = None
                    m = None
            else:
                m = None
            if values is not None:
                if sample is None:
                    sample = dict(values)
                st, lb, dt, obs, nch = concrete(prop, fn, params, values, tier)
                res["replays"] += 1
                if st == "fail":
                    res["violation"] = {"label": lb, "detail": dt, "values": values,
                                        "found": kind, "symbolic": label}
                    break
                if st == "skip":
                    res["skipped"] += 1
                if st == "timeout":
                    res["timeouts"] += 1
                    res["violation"] = {"label": ENDLESS, "detail": "", "values": values, "found": kind, "symbolic": label}
                    break
                if st == "ok" and kind == "done":
                    if len(obs) != len(c.observed):
                        res["mismatch"].append("number of observations")
                    else:
                        for (l1, a), (l2, b) in zip(c.observed, obs):
                            x = evaluate(a, m)
                            if x is NotImplemented:
                                continue
                            if plain(x) != plain(b):
                                res["mismatch"].append("%s: %r / %r" % (l1, x, b))
                if st == "ok" and kind == "done" and nch != c.nchecks:
                    res["mismatch"].append("checks %d/%d %s %s %s" % (c.nchecks, nch, fn, json.dumps(params), str(values)[:300]))
            if kind in ("violation", "exception"):
                if len(res["unconfirmed"]) < 5:
                    res["unconfirmed"].append({"label": label, "detail": detail, "values": values, "fn": fn, "params": params})
                res["n_unconfirmed"] = res.get("n_unconfirmed", 0) + 1
            if kind == "unsupported":
                res["inexact"][label] = res["inexact"].get(label, 0) + 1
                if extra(c, res, prop, fn, params, tier, deadline):
                    break
        if not eng.next_path():
            res["exhausted"] = True
            break
        if time.time() > deadline:
            break
    C.drop_scratch()
    s = eng.stats
    res.update(decisions=s.decisions, queries=s.queries, solver_time=s.solver_time,
               assertions=s.assertions, assert_queries=s.assert_queries, unknown=s.unknown,
               wall=time.time() - t0, sample=sample, functions=sorted(FUNCS_SEEN()))
    core.set_engine(None)
    return res


def extra(c, res, prop, fn, params, tier, deadline):
    """More replays of a path with a step that is not encoded (the solver did not decide it)."""
    import random

    k = sum(res["inexact"].values())
    n = 6 if k <= 12 else 2 if k <= 60 else 0
    rng = random.Random(k)
    for _ in range(n):
        if time.time() > deadline:
            return False
        try:
            values = c.diverse(rng)
        except Exception:  # noqa: BLE001
            return False
        if values is None:
            continue
        st, lb, dt, _, _ = concrete(prop, fn, params, values, tier, fill=rng)
        res["replays"] += 1
        if st == "fail":
            res["violation"] = {"label": lb, "detail": dt, "values": values,
                                "found": "unsupported", "symbolic": "another model of the path"}
            return True
    return False


def FUNCS_SEEN():
    from . import rt

    return {s for s in rt.SEEN if s.startswith("hdf5storage")}


def worker(conn):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    gc.collect()
    gc.freeze()
    gc.disable()
    lim = 7 << 29
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    from . import ctx as C

    C.SCRATCH = None
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        try:
            r = run_job(job)
        except BaseException as e:  # noqa: BLE001
            C.drop_scratch()
            r = {"fn": job["fn"], "params": job["params"], "errors":
                 ["".join(traceback.format_exception(e))[-3000:]]}
        conn.send(r)
    C.drop_scratch()


def run_jobs(jobs, total, nproc=None):
    """Run the jobs on worker processes; a dead or stuck worker is replaced."""
    nproc = nproc or NPROC
    ctx = mp.get_context("fork")
    start = time.time()
    pending = list(jobs)
    results = []
    ws = []

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b,), daemon=True)
        p.start()
        b.close()
        return {"p": p, "c": a, "job": None, "kill": None}

    stop = False
    for _ in range(min(nproc, len(pending))):
        ws.append(spawn())
    from multiprocessing.connection import wait

    while True:
        for w in ws:
            if w["job"] is None and pending and not stop:
                job = pending.pop(0)
                now = time.time()
                left = max(0.0, start + total - now)
                share = left * min(nproc, len(ws)) / (len(pending) + len(ws))
                # most jobs end early, so they get more than an equal share
                share = min(3 * share, 0.8 * left)
                share = max(share, job.get("min", 1.0))
                job["deadline"] = now + share
                w["job"], w["kill"] = job, now + share + 90 + PATIENCE
                w["c"].send(job)
        busy = [w for w in ws if w["job"] is not None]
        if not busy:
            break
        ready = wait([w["c"] for w in busy], timeout=1.0)
        now = time.time()
        if pending and now > start + total + 200 + sum(j.get("min", 1.0) for j in jobs) / nproc:
            for j in pending:
                results.append({"fn": j["fn"], "params": j["params"], "notrun": True})
            pending = []
        for w in list(busy):
            if w["c"] in ready:
                try:
                    r = w["c"].recv()
                    results.append(r)
                    if r.get("violation") and not KEEP_GOING:
                        stop = True
                        pending_left = len(pending)
                        for j in pending:
                            results.append({"fn": j["fn"], "params": j["params"], "notrun": True})
                        pending = []
                except EOFError:
                    results.append({"fn": w["job"]["fn"], "params": w["job"]["params"],
                                    "errors": ["worker died"]})
                    ws[ws.index(w)] = spawn()
                w["job"] = None
            elif now > w["kill"] or (stop and now > w["job"]["deadline"] + 5) or not w["p"].is_alive():
                w["p"].kill()
                w["p"].join()
                results.append({"fn": w["job"]["fn"], "params": w["job"]["params"],
                                "errors": ["worker killed (stuck)" if w["p"].exitcode == -9
                                           else "worker died"]})
                w["job"] = None
                ws[ws.index(w)] = spawn()
    for w in ws:
        try:
            w["c"].send(None)
        except OSError:
            pass
    for w in ws:
        w["p"].join(5)
        if w["p"].is_alive():
            w["p"].kill()
    return results


def confirm(path):
    """Replay in a fresh process on the unmodified package."""
    r = subprocess.run([sys.executable, os.path.join(ROOT, "run.py"), "--replay", path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, text=True)
    return r.returncode, r.stdout


def replay(path):
    with open(path) as f:
        d = json.load(f)
    from . import ctx as C

    warnings.simplefilter("ignore")
    st, lb, dt, obs, n = concrete(d["property"], d["fn"], d["params"], d["values"],
                                  d.get("tier", "quick"), 150)
    C.drop_scratch()
    print("replay of %s %s: %s %s %s" % (d["property"], d["fn"], st, lb, dt))
    return 1 if st == "fail" or st == "timeout" and d["label"] == ENDLESS else 0


def known_findings(prop):
    fn = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        d = json.load(f)
    return [x for x in d.get("known", []) if x["property"] == prop]


def main(prop, tier, only=None, budget=None, verbose=False, nproc=None):
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(EVID, "replay", f))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    warnings.simplefilter("ignore")
    load_inst()
    hc = load_harness(prop, False)
    load_harness(prop, True)
    from . import instr

    jobs = []
    for j in hc.jobs(tier):
        fn, params = j[0], j[1]
        if only and only not in "%s%s" % (fn, json.dumps(params)):
            continue
        d = {"prop": prop, "fn": fn, "params": params, "tier": tier}
        if len(j) > 2:
            d["min"] = j[2]
        jobs.append(d)
    total = budget or getattr(hc, "TIME", TIME).get(tier, TIME[tier])
    results = run_jobs(jobs, total, nproc)
    viol = []
    # known findings are reproduced on their own recorded inputs
    for k in known_findings(prop):
        st, lb, dt, _, _ = concrete(prop, k["fn"], k["params"], k["values"], tier)
        if st == "fail":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    unconf = []
    seen = set()
    for r in results:
        v = r.get("violation")
        unconf += r.get("unconfirmed", [])
        if v:
            key = (r["fn"], v["label"])
            if key in seen or len(viol) > 8:
                continue
            seen.add(key)
            p = os.path.join(EVID, "replay", "%s-%d.json" % (prop, len(viol) + 1))
            with open(p, "w") as f:
                json.dump({"property": prop, "fn": r["fn"], "params": r["params"], "tier": tier,
                           "values": v["values"], "label": v["label"], "detail": v["detail"],
                           "found": v["found"]}, f, indent=1)
            try:
                rc, out = confirm(p)
            except subprocess.TimeoutExpired:
                rc, out = 0, "timeout"
            if rc == 1:
                viol.append((p, v, r))
            else:
                unconf.append({"label": v["label"], "detail": "not reproduced in a fresh process: "
                               + out[-300:], "values": v["values"]})
                os.unlink(p)
    S = lambda k: sum(r.get(k, 0) or 0 for r in results)  # noqa: E731
    inexact = {}
    errors = []
    mism = []
    funcs = set()
    for r in results:
        for k, n in r.get("inexact", {}).items():
            inexact[k] = inexact.get(k, 0) + n
        errors += r.get("errors", [])
        mism += r.get("mismatch", [])
        funcs |= set(r.get("functions", []))
    n_inexact = sum(inexact.values())
    done = [r for r in results if r.get("exhausted")]
    complete = len(done) == len(jobs) and not n_inexact and not unconf
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("decisions"),
            "traces_validated_against_impl": S("replays"),
            "exhausted": complete,
            "jobs": len(jobs), "jobs_exhausted": len(done),
            "paths": S("paths"), "paths_infeasible": S("aborted"),
            "paths_with_unencoded_step": n_inexact,
            "unencoded_steps": inexact,
            "assertions_checked": S("checks"), "assertion_queries": S("assert_queries"),
            "queries_discharged": S("queries"), "solver_time_s": round(S("solver_time"), 3),
            "solver_unknown": S("unknown"),
            "encoding_mismatches": len(mism), "unconfirmed_counterexamples": len(unconf),
            "functions_encoded": sorted(funcs),
            "source_sha256": instr.source_digest(SRC),
            "bounds": getattr(hc, "BOUNDS", ""),
            "outside_the_bounds": getattr(hc, "OUTSIDE", ""),
            "samples": [{"harness": r["fn"], "params": r["params"], "paths": r.get("paths"),
                         "exhausted": r.get("exhausted", False),
                         "values_of_first_path": {k: v for k, v in list((r.get("sample") or {}).items())[:12]}}
                        for r in results[:40]],
        },
        "assumptions": list(getattr(hc, "ASSUMPTIONS", [])) + COMMON,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "violation_details": [{"replay": p, "label": v["label"], "detail": v["detail"]}
                       for p, v, r in viol],
    }
    if mism:
        ev["coverage"]["mismatch_examples"] = mism[:5]
    if unconf:
        ev["coverage"]["unconfirmed_examples"] = json.loads(json.dumps(unconf[:5], default=str))
    if errors:
        ev["coverage"]["errors"] = errors[:5]
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("%s %s: %d jobs (%d exhausted), %d paths, %d assertions, %d queries, solver %.1fs, "
          "%d replays, %d inexact, %d unconfirmed, %d mismatches, %d errors, wall %.1fs"
          % (prop, tier, len(jobs), len(done), c["states"], c["assertions_checked"],
             c["queries_discharged"], c["solver_time_s"], c["traces_validated_against_impl"],
             n_inexact, len(unconf), len(mism), len(errors), ev["wall_s"]))
    from .instr import PLAIN

    for x in PLAIN:
        print("not transformed:", x)
    if PLAIN:
        ev["coverage"]["not_transformed"] = PLAIN
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if verbose:
        show = [r for r in results if not r.get("exhausted") and not r.get("notrun")]
        show = show[:int(os.environ.get("SHOW", "12"))]
        for r in sorted(results, key=lambda r: -r.get("wall", 0))[:6]:
            if r not in show:
                show.append(r)
        for r in show:
            print("  %-14s %-60s paths %4d ab %4d checks %5d dec %5d q %5d solver %6.1f wall %6.1f %s%s"
                  % (r["fn"], json.dumps(r["params"])[:60], r.get("paths", 0), r.get("aborted", 0),
                     r.get("checks", 0), r.get("decisions", 0), r.get("queries", 0),
                     r.get("solver_time", 0), r.get("wall", 0),
                     "" if r.get("exhausted") else "NOT EXHAUSTED",
                     " VIOL" if r.get("violation") else ""))
        for k, n in sorted(inexact.items(), key=lambda t: -t[1])[:20]:
            print("  inexact %4d  %s" % (n, k))
        for m in mism[:10]:
            print("  mismatch", m)
        for u in unconf[:6]:
            print("  unconfirmed", u["label"], "\n", u["detail"], "\n", str(u["values"])[:600])
        for e in errors[:5]:
            print("  error", e)
    for p, v, r in viol:
        print("  %s %s: %s %s (found: %s)" % (r["fn"], json.dumps(r["params"])[:200], v["label"],
                                             v["detail"], v["found"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if viol:
        return 1
    if c["assertions_checked"] == 0 and c["traces_validated_against_impl"]:
        print("no path was decided to its end, only replayed with inputs that the solver chose")
    elif c["assertions_checked"] == 0 or (errors and len(errors) == len(jobs)):
        print("no assertion was reached: the check is vacuous")
        return 2
    return 0


COMMON = [
    "CPython, numpy, h5py/HDF5 and the standard library behave as encoded in /verif/symx (the "
    "models of their operations on symbolic values); every completed path is replayed on the real "
    "code with a model of its path condition and the outcomes compared.",
    "HDF5 stores and returns the bytes of Datasets and Attributes unchanged (their structure is "
    "stored in real HDF5 files, their symbolic contents beside them).",
]
