"""Runtime-monitoring runner.

A check module (checks/<id>.py) declares *families* of executions of the real
code under /repo.  Every case of a family drives the code with a workload drawn
from a PRNG keyed by (VERIF_SEED, property, family, index); monitors inside the
case compare what was observed with an oracle.  Verdicts are three-valued:

  exit 0  held on everything observed (every declared monitor was reached)
  exit 1  violated  ->  "VIOLATION property=<id> replay=<path>"
  exit 3  inconclusive (monitor never reached, harness error, watchdog)

Replay one case:  ./run.sh <id> --replay <replay.json>
"""
import contextlib
import hashlib
import importlib
import io
import json
import ctypes
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import logging
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
MAXVIOL = 5  # witnesses kept per family


def _seed_int(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "little")


class Skip(Exception):
    """The drawn workload is outside the domain of the property."""


class Overtime(BaseException):
    """A case did not come to an end."""


class Abort(Exception):
    """First violation in a case ends the case."""


class Case:
    """Recorder handed to a case; the monitors report through it."""

    def __init__(self, prop, family, index, seed, tier):
        import numpy as np

        self.prop, self.family, self.index = prop, family, index
        self.seed, self.tier = seed, tier
        self.rng = np.random.default_rng(_seed_int(seed, prop, family, index))
        self.params = {}
        self.observed = {}      # monitor -> number of evaluations
        self.worst = {}         # monitor -> largest err/tol seen
        self.events = 0         # hook / trace events observed
        self.violation = None
        self.finding = None
        self.trivial = False
        self.classes = set()

    # -- description ------------------------------------------------------
    def desc(self, **kw):
        self.params.update(kw)

    def mark_trivial(self):
        self.trivial = True

    def cls(self, *labels):
        self.classes.update(str(x) for x in labels)

    # -- monitors ---------------------------------------------------------
    def ok(self, cond, monitor, msg="", n=1, **wit):
        self.observed[monitor] = self.observed.get(monitor, 0) + n
        if not bool(cond):
            self.fail(monitor, msg, **wit)

    def close(self, a, b, monitor, atol=1e-9, rtol=0.0, msg="", **wit):
        import numpy as np

        self.observed[monitor] = self.observed.get(monitor, 0) + 1
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.fail(monitor, f"shape {a.shape} != {b.shape} {msg}", **wit)
        if a.size == 0:
            return
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
            lim = atol + rtol * np.abs(b)
            bad = ~(d <= lim)
            r = float(np.max(d / lim)) if np.all(np.isfinite(d)) else float("inf")
        self.worst[monitor] = max(self.worst.get(monitor, 0.0), r)
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape) if d.ndim else ()
            self.fail(
                monitor,
                f"max |diff|={float(np.nanmax(d)) if not np.all(np.isnan(d)) else float('nan'):.6g}"
                f" at {tuple(int(x) for x in i)}: got {a[i]!r} expected {b[i]!r}"
                f" (atol={atol:g}, rtol={rtol:g}) {msg}",
                **wit,
            )

    def fail(self, monitor, msg, **wit):
        self.violation = {
            "monitor": monitor,
            "message": str(msg)[:2000],
            "witness": {k: _js(v) for k, v in wit.items()},
        }
        raise Abort()

    def raises(self, exc, fn, monitor, msg=""):
        self.observed[monitor] = self.observed.get(monitor, 0) + 1
        try:
            fn()
        except exc:
            return
        except Exception as e:  # noqa
            self.fail(monitor, f"raised {type(e).__name__}: {e} instead of {exc} {msg}")
        self.fail(monitor, f"did not raise {exc} {msg}")


def _js(v):
    try:
        import numpy as np

        if isinstance(v, np.ndarray):
            if v.size > 64:
                return {"shape": list(v.shape), "head": repr(v.ravel()[:8].tolist())}
            return repr(v.tolist())
        if isinstance(v, (np.integer,)):
            return int(v)
        if isinstance(v, (np.floating,)):
            return float(v)
        if isinstance(v, (np.bool_,)):
            return bool(v)
    except Exception:
        pass
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return [_js(x) for x in v][:64]
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    return repr(v)[:400]


def _through_repo(tb, exc=None):
    """Was the exception raised while a frame of the code under test was running?"""
    pre = os.path.join(REPO, "")
    names = set()
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.abspath(fn).startswith(pre):
            names.add(fn)
        tb = tb.tb_next
    return bool(names)


def _overtime(*_):
    raise Overtime("the case did not come to an end")


def _diis_breakdown(e):
    """the extrapolation of the SCF library met an exactly singular matrix (its handler names numpy.linalg.linalg, which is gone)"""
    hit = any(type(x).__name__ == "LinAlgError" for x in (e, e.__context__))
    return hit and any(f.filename.endswith("pyscf/lib/diis.py") for f in traceback.extract_tb(e.__traceback__))


def _run_case(fn, prop, family, index, seed, tier):
    c = Case(prop, family, index, seed, tier)
    out = {"index": index, "family": family}
    t0 = time.time()
    buf = io.StringIO()
    limit = float(os.environ.get("VERIF_CASE_SECONDS", 300 if tier == "quick" else 1200))
    signal.signal(signal.SIGALRM, _overtime)
    try:
        signal.setitimer(signal.ITIMER_REAL, limit, 5)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(buf):
                fn(c)
    except Abort:
        pass
    except Skip:
        out["skip"] = True
    except (Exception, Overtime) as e:  # noqa
        signal.setitimer(signal.ITIMER_REAL, 0)
        tb = traceback.format_exc()
        if _diis_breakdown(e):
            out["skip"] = True
        elif _through_repo(e.__traceback__):
            c.violation = {
                "monitor": "no-exception-in-domain",
                "message": f"{type(e).__name__}: {e}",
                "witness": {"traceback": tb[-3000:]},
            }
        else:
            out["error"] = tb[-4000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out.update(
        params={k: _js(v) for k, v in c.params.items()},
        observed=c.observed,
        worst=c.worst,
        violation=c.violation,
        trivial=c.trivial,
        classes=sorted(c.classes),
        events=c.events,
        wall=time.time() - t0,
    )
    return out


_FAM = None


class Reach:
    """which lines of the code under test the workload executed (each line reports once per process)"""

    def __init__(self):
        self.new = []
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        here = os.path.realpath(REPO) + os.sep

        def line(code, no):
            f = code.co_filename
            if f.startswith(here) or f.startswith(REPO):
                self.new.append((os.path.relpath(os.path.realpath(f), here), no))
            return mon.DISABLE

        try:
            mon.use_tool_id(4, "verif-reach")
            mon.register_callback(4, mon.events.LINE, line)
            mon.set_events(4, mon.events.LINE)
        except ValueError:
            pass

    def take(self):
        out, self.new = self.new, []
        return out


_REACH = None


def _body_lines(path):
    """first lines of the statements inside functions"""
    out = set()
    try:
        todo = [compile(open(path, "rb").read(), path, "exec")]
    except (OSError, SyntaxError):
        return out
    while todo:
        c = todo.pop()
        todo += [k for k in c.co_consts if hasattr(k, "co_code")]
        if c.co_flags & 1:    # functions, not module or class bodies
            out |= {n for _, _, n in c.co_lines() if n and n != c.co_firstlineno}
    return out


def _worker_init(modname, quiet):
    global _FAM, _REACH
    _REACH = Reach()
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(modname)
    _FAM = {f.name: f for f in mod.FAMILIES}
    sys.setrecursionlimit(10000)
    # runaway allocations shall fail in the worker, not take the machine down
    # (sanitized programs reserve far more address space than they use)
    if not getattr(mod, "NATIVE", False):
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _worker(job):
    prop, fam, indices, seed, tier = job
    out = []
    for i in indices:
        if _NOTES:
            with open(os.path.join(_NOTES, str(os.getpid())), "w") as fo:
                fo.write(f"{fam} {i}")
        out.append(_run_case(_FAM[fam].fn, prop, fam, i, seed, tier))
    return out, _REACH.take()


_NOTES = None
CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL)


def _crashed(procs, prop, seed, tier):
    """results of cases whose process was ended by a fault signal"""
    out = []
    for p in procs:
        if p.exitcode is not None and -p.exitcode in CRASHES:
            try:
                fam, i = open(os.path.join(_NOTES, str(p.pid))).read().split()
            except (OSError, ValueError):
                continue
            out.append(dict(index=int(i), family=fam, params={}, observed={}, worst={}, trivial=False, classes=[], events=0, wall=0.0,
                            violation={"monitor": "no-exception-in-domain", "message": f"the process died by {signal.Signals(-p.exitcode).name}", "witness": {}}))
    return out


class Lost:
    def __init__(self, proc):
        self.proc = proc


def _crew_member(conn, modname):
    ctypes.CDLL(None, use_errno=True).prctl(1, signal.SIGKILL)    # ends with its master
    _worker_init(modname, True)
    while True:
        job = conn.recv()
        try:
            conn.send(_worker(job))
        except Exception:
            conn.send(traceback.format_exc())


class Crew:
    """worker processes, each with a pipe of its own: no lock is shared, so ending them at any moment cannot block the master
    (multiprocessing.Pool.terminate can)"""

    def __init__(self, n, modname):
        ctx = mp.get_context("fork")
        self.procs = {}
        for _ in range(n):
            here, there = ctx.Pipe()
            p = ctx.Process(target=_crew_member, args=(there, modname), daemon=True)
            p.start()
            there.close()
            self.procs[here] = p

    def serve(self, work):
        """yields the result of every job, None when nothing arrived for a while, Lost when a worker died"""
        work = list(reversed(work))
        busy = set()
        for conn in self.procs:
            if work:
                conn.send(work.pop())
                busy.add(conn)
        while busy:
            ready = mp.connection.wait(list(busy), timeout=2)
            if not ready:
                yield None
            for conn in ready:
                try:
                    r = conn.recv()
                except (EOFError, OSError):
                    p = self.procs[conn]
                    p.join(10)
                    busy.discard(conn)
                    yield Lost(p)
                    continue
                if isinstance(r, str):
                    raise RuntimeError(r)
                if work:
                    conn.send(work.pop())
                else:
                    busy.discard(conn)
                yield r

    def end(self):
        for p in self.procs.values():
            p.kill()
        for p in self.procs.values():
            p.join(10)


class Family:
    """name; fn(case); number of cases per tier; monitors that must be reached."""

    def __init__(self, name, fn, quick, thorough=None, monitors=(), chunk=1, serial=False):
        self.name, self.fn = name, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.monitors = tuple(monitors)
        self.chunk = chunk
        self.serial = serial


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def _match_known(known, prop, v):
    for k in known:
        if k.get("status") != "open" or k["property"] != prop:
            continue
        if k["family"] != v["family"] or k["monitor"] != v["violation"]["monitor"]:
            continue
        if all(v["params"].get(a) == b for a, b in k.get("when", {}).items()) and (
            k.get("message_contains", "") in v["violation"]["message"]
        ):
            return k
    return None


def run(prop, tier, seed, only=None, jobs=None, replay=None):
    t0 = time.time()
    modname = f"checks.{prop.lower()}"
    mod = importlib.import_module(modname)
    fams = {f.name: f for f in mod.FAMILIES}
    if replay:
        r = json.load(open(replay))
        f = fams[r["family"]]
        _worker_init(modname, False)
        res = _run_case(f.fn, prop, r["family"], r["index"], r["seed"], r["tier"])
        print(json.dumps(res, indent=1)[:6000])
        return 1 if res["violation"] else (3 if "error" in res else 0)

    budget = float(os.environ.get("VERIF_BUDGET", getattr(mod, "BUDGET", {}).get(tier, 600 if tier == "quick" else 7200)))
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    work = []
    for f in mod.FAMILIES:
        if only and f.name not in only:
            continue
        n = f.quick if tier == "quick" else f.thorough
        idx = list(range(n))
        ch = f.chunk if not f.serial else max(n, 1)
        for i in range(0, n, ch):
            work.append((prop, f.name, idx[i : i + ch], seed, tier))
    # interleave families so that every one makes progress inside the budget
    work.sort(key=lambda w: (w[2][0] / max(1, (fams[w[1]].quick if tier == "quick" else fams[w[1]].thorough))))
    results, timed_out, reach, lost = [], False, {}, None
    global _NOTES
    _NOTES = tempfile.mkdtemp(prefix="notes")
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    crew = Crew(jobs, modname)
    try:
        for rs in crew.serve(work):
            if rs is None:
                if time.time() - t0 > budget:
                    timed_out = True
                    break
                continue
            if isinstance(rs, Lost):    # its job never comes back
                results.extend(_crashed([rs.proc], prop, seed, tier))
                lost = f"a worker ended with status {rs.proc.exitcode}"
                break
            results.extend(rs[0])
            for fn, no in rs[1]:
                reach.setdefault(fn, set()).add(no)
            if sum(1 for r in results if r["violation"]) >= 40:
                break
            if time.time() - t0 > budget:
                timed_out = len(results) < sum(len(w[2]) for w in work)
                break
    finally:
        crew.end()
        shutil.rmtree(_NOTES, ignore_errors=True)

    known = load_known()
    viol, kf, errors = [], {}, []
    for r in results:
        if r.get("violation"):
            k = _match_known(known, prop, r)
            if k:
                kf.setdefault(k["id"], (k, r))
            else:
                viol.append(r)
        if "error" in r:
            errors.append(r)
    observed, worst, classes, events = {}, {}, {}, 0
    distinct = set()
    for r in results:
        for m, n in r["observed"].items():
            key = f"{r['family']}/{m}"
            observed[key] = observed.get(key, 0) + n
        for m, w in r["worst"].items():
            key = f"{r['family']}/{m}"
            worst[key] = max(worst.get(key, 0.0), w)
        for cl in r["classes"]:
            key = f"{r['family']}/{cl}"
            classes[key] = classes.get(key, 0) + 1
        events += r["events"]
        if not r.get("skip") and not r["trivial"] and r["observed"]:
            distinct.add((r["family"], json.dumps(r["params"], sort_keys=True)))
    missing = []
    for f in mod.FAMILIES:
        if only and f.name not in only:
            continue
        for m in f.monitors:
            if not observed.get(f"{f.name}/{m}"):
                missing.append(f"{f.name}/{m}")

    samples = []
    seenf = set()
    for r in results:
        if r["family"] not in seenf and not r.get("skip"):
            seenf.add(r["family"])
            samples.append({"family": r["family"], "index": r["index"], "params": r["params"], "observed": r["observed"]})
    lines = {}
    for fn in sorted(reach):
        body = _body_lines(os.path.join(REPO, fn))
        if reach[fn] & body:
            lines[fn] = f"{len(reach[fn] & body)} of {len(body)}"
    if os.environ.get("VERIF_REACH"):
        with open(os.path.join(os.environ["VERIF_REACH"], f"{prop}-{seed}.json"), "w") as fo:
            json.dump({fn: sorted(v) for fn, v in reach.items()}, fo)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(1 for r in results if not r.get("skip")),
            "distinct_nontrivial": len(distinct),
            "rule": getattr(mod, "RULE", "").strip()
            or "one case = one PRNG-drawn execution of the real code; non-trivial when at least one monitor evaluated it and the case did not mark itself degenerate; distinct by its drawn parameters",
            "samples": samples[:12],
            "monitor_evaluations": observed,
            "worst_error_over_tolerance": {k: round(v, 6) for k, v in worst.items()},
            "workload_classes_seen": classes,
            "hook_events": events,
            "statements_of_repo_executed": lines,
            "skipped_out_of_domain": sum(1 for r in results if r.get("skip")),
            "timed_out": timed_out,
            "slowest_case_s": round(max((r["wall"] for r in results), default=0), 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fo:
            json.dump(ev, fo, indent=1)

    for k, r in kf.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(
        f"[{prop}] tier={tier} seed={seed} cases={ev['coverage']['evaluations']} distinct={len(distinct)} "
        f"monitor-evals={sum(observed.values())} events={events} wall={ev['wall_s']}s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        for k in sorted(observed):
            print(f"   {k}: n={observed[k]} worst err/tol={worst.get(k, 0):.3g}")
        fw = {}
        for r in results:
            fw.setdefault(r["family"], []).append(r["wall"])
        for k, v in fw.items():
            print(f"   time {k}: n={len(v)} sum={sum(v):.1f}s max={max(v):.2f}s")
    if viol:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        viol.sort(key=lambda r: (r["family"], r["index"]))
        seen = {}
        for r in viol:
            key = (r["family"], r["violation"]["monitor"])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1:
                continue
            path = os.path.join(rdir, f"{prop}-{r['family']}-{r['index']}-{seed}.json")
            with open(path, "w") as fo:
                json.dump(
                    dict(property=prop, family=r["family"], index=r["index"], seed=seed, tier=tier,
                         params=r["params"], violation=r["violation"]), fo, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   family={r['family']} case={r['index']} monitor={r['violation']['monitor']}: "
                  f"{r['violation']['message'][:600]}")
            print(f"   params={json.dumps(r['params'])[:600]}")
        return 1
    if errors:
        print(f"INCONCLUSIVE property={prop}: harness error in {errors[0]['family']}#{errors[0]['index']}\n{errors[0]['error']}")
        return 3
    if lost:
        print(f"INCONCLUSIVE property={prop}: {lost}")
        return 3
    if timed_out:
        print(f"INCONCLUSIVE property={prop}: watchdog of {budget}s fired")
        return 3
    if missing:
        print(f"INCONCLUSIVE property={prop}: monitors never reached: {missing}")
        return 3
    return 0


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    sys.path.insert(0, ROOT)
    sys.path.insert(0, REPO)
    import openms

    got = os.path.dirname(os.path.dirname(os.path.abspath(openms.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        print(f"INCONCLUSIVE: imported openms from {got}, expected {REPO}")
        return 3
    return run(a.prop, a.tier, a.seed, a.only, a.jobs, a.replay)


if __name__ == "__main__":
    # one module object only: the checks import Skip/Family from harness.vp
    sys.path.insert(0, ROOT)
    from harness.vp import main as _main

    sys.exit(_main(sys.argv[1:]))
