"""
Runs many simulated executions of one property, in parallel processes, and reports.

The parent (zygote) imports the tree under test once. Every run happens in a process forked for it, from a plan that
is a pure function of (VERIF_SEED, property, run index), so a run never sees what another left behind.
"""
import gc
import json
import mmap
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import env
from .core import Ctx, HarnessError, Injected, OutOfBudget, Violation, rnd

CPU_LIMIT = 200          # processor seconds for one run; runs take well under three
WALL_LIMIT = 400        # real seconds before a run is given up as a harness problem


def plan_for(prop, seed, index, tier):
    r = rnd("plan", seed, prop.ID, index)
    plan = prop.gen(r, index, tier)
    return json.loads(json.dumps(plan))      # exactly what a replay file would hold


def _bartpy_frame(tb):
    out = None
    while tb is not None:
        if env.is_bartpy_file(tb.tb_frame.f_code.co_filename):
            out = "%s:%d" % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)
        tb = tb.tb_next
    return out


def execute(prop, plan):
    """One run, in this process. Returns a result dictionary."""
    from . import sim
    ctx = Ctx(plan)
    out = {"status": "ok", "kind": None, "message": None}
    saved = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = sim.Sink("stdout"), sim.Sink("stderr")
    try:
        prop.run(ctx, plan)
    except Violation as e:
        out.update(status="violation", kind=e.kind, message=e.message)
    except OutOfBudget as e:
        out.update(status="violation", kind="no-progress", message=str(e))
    except HarnessError as e:
        out.update(status="harness", kind="harness", message="%s\n%s" % (e, traceback.format_exc()))
    except BaseException as e:      # noqa
        where = _bartpy_frame(e.__traceback__)
        if isinstance(e, Injected) or where is None:
            out.update(status="harness", kind="harness", message=traceback.format_exc())
        else:
            out.update(status="violation", kind="crash-%s" % type(e).__name__,
                       message="%s: %s at %s" % (type(e).__name__, str(e)[:300], where), trace=traceback.format_exc())
    finally:
        sim.CURRENT = None
        sys.stdout, sys.stderr = saved
    out.update(counts=ctx.counts, faults=ctx.faults, states=sorted(ctx.states), digest=ctx.digest.hex(),
               events=ctx.digest.n, sim_seconds=ctx.sim_seconds, made=ctx.made, sample=ctx.sample)
    return out


def fork_run(prop, plan):
    """One run in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)

            def too_long(signum, frame):
                res = {"status": "violation", "kind": "no-progress", "counts": {}, "faults": {}, "states": [],
                       "digest": "", "events": 0, "sim_seconds": 0, "made": None, "sample": None,
                       "message": "one run used %d seconds of processor time" % CPU_LIMIT}
                _send(w, res)
                os._exit(0)
            signal.signal(signal.SIGPROF, too_long)
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
            _send(w, execute(prop, plan))
            code = 0
        except BaseException:       # noqa
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    res = _receive(r, WALL_LIMIT)
    os.close(r)
    if res is None:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    if res is None:
        res = {"status": "harness", "kind": "harness", "message": "run ended without a result (status %s)" % status,
               "counts": {}, "faults": {}, "states": [], "digest": "", "events": 0, "sim_seconds": 0, "made": None,
               "sample": None}
    return res


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read_exact(fd, n, deadline):
    buf = b""
    while len(buf) < n:
        if deadline is not None:
            left = deadline - env.real_monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                return None
        chunk = os.read(fd, min(1 << 20, n - len(buf)))
        if not chunk:
            return None
        buf += chunk
    return buf


def _receive(fd, limit=None):
    deadline = None if limit is None else env.real_monotonic() + limit
    head = _read_exact(fd, 8, deadline)
    if head is None:
        return None
    body = _read_exact(fd, struct.unpack("<Q", head)[0], deadline)
    return None if body is None else pickle.loads(body)


def pristine(fn):
    """The value of fn() computed in a process forked right now (nothing it does is visible here)."""
    from . import sim
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
            sim.CURRENT = None
            try:
                res = ("ok", fn())
            except Violation as e:
                res = ("violation", (e.kind, e.message))
            except OutOfBudget as e:
                res = ("violation", ("no-progress", str(e)))
            except BaseException as e:      # noqa
                where = _bartpy_frame(e.__traceback__)
                if where is None or isinstance(e, Injected):
                    res = ("harness", traceback.format_exc())
                else:
                    res = ("violation", ("crash-%s" % type(e).__name__, "in a fresh process: %s: %s at %s" % (
                        type(e).__name__, str(e)[:300], where)))
            _send(w, res)
        finally:
            os._exit(0)
    os.close(w)
    res = _receive(r, WALL_LIMIT)
    os.close(r)
    if res is None:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        raise Violation("no-progress", "a run in a fresh process did not end within %d processor seconds" % CPU_LIMIT)
    os.waitpid(pid, 0)
    if res[0] == "violation":
        raise Violation(*res[1])
    if res[0] == "harness":
        raise HarnessError("reference run failed: " + res[1])
    return res[1]


# ------------------------------------------------------------------------------------------------- batches

def pin(w):
    """One processor per worker: the baton then passes between threads without waking another processor."""
    try:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, [cpus[w % len(cpus)]])
    except OSError:
        pass


def batch(prop, seed, tier, indices, workers, deadline, stop_on_failure=True):
    """Yields (index, result) as they come. Workers take the next index from a common counter."""
    procs = []
    counter = mmap.mmap(-1, 8)
    gate_r, gate_w = os.pipe()          # holds one byte: who reads it may use the counter
    os.write(gate_w, b"x")

    def take():
        os.read(gate_r, 1)
        k = struct.unpack("<q", counter[:8])[0]
        counter[:8] = struct.pack("<q", k + 1)
        os.write(gate_w, b"x")
        return indices[k] if k < len(indices) else None
    for w in range(min(workers, len(indices))):
        up_r, up_w = os.pipe()
        down_r, down_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(up_r)
                os.close(down_w)
                pin(w)
                limit = 1 << 60
                while True:
                    i = take()
                    if i is None:
                        break
                    while select.select([down_r], [], [], 0)[0]:
                        msg = os.read(down_r, 8)
                        if len(msg) < 8:
                            os._exit(0)
                        limit = min(limit, struct.unpack("<q", msg)[0])
                    if i > limit or env.real_monotonic() > deadline:
                        break
                    t0 = env.real_monotonic()
                    res = fork_run(prop, plan_for(prop, seed, i, tier))
                    res["wall"] = env.real_monotonic() - t0
                    _send(up_w, (i, res))
            except BaseException:   # noqa
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        os.close(up_w)
        os.close(down_r)
        procs.append([pid, up_r, down_w])
    live = {p[1]: p for p in procs}
    while live:
        ready, _, _ = select.select(list(live), [], [], 5.0)
        for fd in ready:
            got = _receive(fd)
            if got is None:
                pid, _, down = live.pop(fd)
                os.close(fd)
                os.close(down)
                os.waitpid(pid, 0)
                continue
            yield got
            if got[1]["status"] != "ok" and stop_on_failure:
                for p in live.values():
                    try:
                        os.write(p[2], struct.pack("<q", got[0]))
                    except OSError:
                        pass
    counter.close()
    os.close(gate_r)
    os.close(gate_w)


# ------------------------------------------------------------------------------------------------- shrinking

def generic_candidates(plan):
    """Smaller plans, most drastic first. Every plan key is optional here."""
    def put(path, value):
        q = json.loads(json.dumps(plan))
        at = q
        for k in path[:-1]:
            at = at[k]
        if value is DROP:
            del at[path[-1]]
        else:
            at[path[-1]] = value
        return q
    for key in ("faults", "abandon", "ops", "history"):
        items = plan.get(key)
        if items:
            yield put([key], [])
            for size in (len(items) // 2, len(items) // 4):
                if size > 1:
                    for s in range(0, len(items), size):
                        yield put([key], items[:s] + items[s + size:])
            for i in range(len(items)):
                yield put([key], items[:i] + items[i + 1:])
    sch = plan.get("schedule")
    if sch and sch.get("switches"):
        sw = sch["switches"]
        yield put(["schedule"], {"switches": []})
        size = len(sw) // 2
        while size >= 1:
            for s in range(0, len(sw), size):
                yield put(["schedule"], {"switches": sw[:s] + sw[s + size:]})
            if len(sw) // max(size, 1) > 24:
                break
            size //= 2
    for key in ("sweeps", "n_trees", "n_chains", "n_samples", "n_burn"):
        v = plan.get(key)
        if isinstance(v, int):
            low = 0 if key == "n_burn" else 1
            for new in sorted(set([low, v // 2, v - 1])):
                if low <= new < v:
                    yield put([key], new)
    params = plan.get("params")
    if isinstance(params, dict):
        for key in ("n_trees", "n_chains", "n_samples", "n_burn"):
            v, low = params[key], 0 if key == "n_burn" else 1
            for new in sorted(set([low, v // 2, v - 1])):
                if low <= new < v:
                    yield put(["params", key], new)
        for key, simple in (("init", None), ("p_grow", None), ("thin", 1.0), ("alpha", 0.95), ("beta", 2.0),
                            ("sigma_a", 0.001), ("sigma_b", 0.001), ("store", True), ("store_acc", False)):
            if params[key] != simple:
                yield put(["params", key], simple)
    world = plan.get("world")
    if isinstance(world, dict):
        for key, simple in (("clock", []), ("readonly", False), ("batch", 1), ("mode", "isolated")):
            if world.get(key) != simple:
                yield put(["world", key], simple)
        sch = world.get("schedule")
        if sch and (sch.get("rate") or sch.get("slow")) and not plan.get("schedule"):
            yield put(["world", "schedule"], {"seed": 0, "rate": 0.0})
    for f, fault in enumerate(plan.get("faults") or []):
        if fault.get("k", 0) > 0:
            for new in (0, fault["k"] // 2, fault["k"] - 1):
                yield put(["faults", f, "k"], new)
    if plan.get("init"):
        yield put(["init"], None)
    for key in ("data", "data2", "data3"):
        d = plan.get(key)
        if isinstance(d, dict):
            for new in sorted(set([1, 2, d["n"] // 2, d["n"] - 1])):
                if 1 <= new < d["n"]:
                    yield put([key, "n"], new)
            for j in range(len(d["cols"])):
                if len(d["cols"]) > 1:
                    yield put([key, "cols"], d["cols"][:j] + d["cols"][j + 1:])
    for key, simple in (("alpha", 0.95), ("beta", 2.0), ("k", 2.0), ("sigma_a", 0.001), ("sigma_b", 0.001),
                        ("p_grow", 0.5), ("thin", 1.0), ("u", "accept"), ("observe", 1.0)):
        if key in plan and plan[key] != simple:
            yield put([key], simple)


DROP = object()


def minimise(prop, plan, result, seconds=45.0, tries=250):
    """Greedy shrinking while a violation of the same kind persists."""
    kind = result["kind"]
    t_end = env.real_monotonic() + seconds
    n = [0]

    def attempt(q):
        n[0] += 1
        res = fork_run(prop, q)
        return res if res["status"] == "violation" and res["kind"] == kind else None
    best, best_res = plan, result
    if kind == "no-progress":
        return best, best_res, 0
    seeded = best.get("schedule") or (best.get("world") or {}).get("schedule")
    if seeded and "switches" not in seeded and result.get("made") is not None and len(result["made"]) < 4000:
        q = json.loads(json.dumps(best))
        q["schedule"] = {"switches": result["made"]}
        res = attempt(q)
        if res is not None:
            best, best_res = q, res
    cands = getattr(prop, "shrink", generic_candidates)
    progress = True
    while progress and env.real_monotonic() < t_end and n[0] < tries:
        progress = False
        for q in cands(best):
            if env.real_monotonic() > t_end or n[0] >= tries:
                break
            res = attempt(q)
            if res is not None:
                best, best_res, progress = q, res, True
                break
    return best, best_res, n[0]


# ------------------------------------------------------------------------------------------------- reporting

def write_replay(prop, plan, res, seed, index, tier):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-run%d.json" % (prop.ID, seed, index))
    with open(path, "w") as f:
        json.dump({"property": prop.ID, "seed": seed, "run": index, "tier": tier, "kind": res["kind"],
                   "message": res["message"], "digest": res["digest"], "events": res["events"], "plan": plan}, f, indent=1)
        f.write("\n")
    return path


def replay(prop, path):
    with open(path) as f:
        doc = json.load(f)
    res = fork_run(prop, doc["plan"])
    same = res["status"] == "violation" and res["kind"] == doc["kind"] and res["digest"] == doc["digest"]
    print("replay of %s: %s %s" % (path, res["status"], res["kind"]))
    if res["message"]:
        print("  " + res["message"].replace("\n", "\n  "))
    if res.get("trace"):
        print(res["trace"])
    print("  events %d, digest %s (%s)" % (res["events"], res["digest"][:16],
                                          "as recorded" if same else "recorded: %s %s" % (doc["kind"], doc["digest"][:16])))
    if res["status"] == "violation":
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        return 1 if same else 4
    return 0 if res["status"] == "ok" else 2


def main(prop, tier, seed, workers=8, runs=None, start=0, seconds=None, keep_going=False, quiet=False):
    t0 = env.real_monotonic()
    total = runs if runs is not None else prop.RUNS[tier]
    limit = seconds or (420 if tier == "quick" else 3 * 3600)
    gc.collect()
    gc.freeze()
    counts, faults, states, digests = {}, {}, set(), set()
    nontrivial = done = 0
    sim_seconds = cpu = 0.0
    slowest = (0.0, -1)
    failures, harness, samples = [], [], []
    indices = list(range(start, start + total))
    for i, res in batch(prop, seed, tier, indices, workers, t0 + limit, not keep_going):
        done += 1
        cpu += res["wall"]
        slowest = max(slowest, (res["wall"], i))
        for k, v in res["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in res["faults"].items():
            faults[k] = faults.get(k, 0) + v
        states.update(res["states"])
        digests.add(res["digest"])
        nontrivial += 1 if res["states"] else 0
        sim_seconds += res["sim_seconds"]
        if res["status"] == "violation":
            failures.append((i, res))
        elif res["status"] == "harness":
            harness.append((i, res))
        elif len(samples) < 3 and i < start + 40:
            samples.append((i, res))
    wall_runs = env.real_monotonic() - t0
    violations = len(failures)
    code, lines = 0, []
    if failures:
        i, res = min(failures, key=lambda x: x[0])
        plan = plan_for(prop, seed, i, tier)
        small, sres, n = minimise(prop, plan, res)
        path = write_replay(prop, small, sres, seed, i, tier)
        again = subprocess.run([sys.executable, os.path.join(env.VERIF, "check.py"), prop.ID, "--replay", path],
                               capture_output=True, text=True)
        if again.returncode != 1:
            # fall back on the plan as generated
            path = write_replay(prop, plan, res, seed, i, tier)
            again = subprocess.run([sys.executable, os.path.join(env.VERIF, "check.py"), prop.ID, "--replay", path],
                                   capture_output=True, text=True)
            small, sres = plan, res
        lines.append("run %d (VERIF_SEED=%d): %s: %s" % (i, seed, sres["kind"], sres["message"]))
        lines.append("minimised in %d attempts; replay in a fresh process: %s" % (
            n, "reproduced" if again.returncode == 1 else "exit %d" % again.returncode))
        lines.append("minimised plan: %s" % json.dumps(small)[:1500])
        if again.returncode in (1, 4):
            code = 1
            lines.append("VIOLATION property=%s replay=%s" % (prop.ID, path))
        else:
            code = 2
            lines.append("ERROR: the failure did not replay:\n" + again.stdout[-2000:] + again.stderr[-2000:])
    elif harness:
        code = 2
        i, res = min(harness, key=lambda x: x[0])
        lines.append("ERROR in the harness, run %d: %s" % (i, res["message"]))
    elif done < min(total, getattr(prop, "MIN_RUNS", 30)):
        code = 2
        lines.append("ERROR: only %d of %d runs were possible in the time allowed" % (done, total))
    wall = env.real_monotonic() - t0
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(states),
        "rule": prop.RULE,
        "samples": [{"run": i, "plan": plan_for(prop, seed, i, tier), "digest": res["digest"][:16],
                     "result": res.get("sample")} for i, res in sorted(samples)],
        "runs_reaching_a_nontrivial_state": nontrivial,
        "distinct_executions": len(digests),
        "runs_per_hour": int(done / wall_runs * 3600) if wall_runs > 0 else 0,
        "seeds_per_hour": int(done / wall_runs * 3600) if wall_runs > 0 else 0,
        "simulated_seconds": round(sim_seconds, 3),
        "faults_injected": dict(sorted(faults.items())),
        "counters": dict(sorted(counts.items())),
        "real_components": prop.REAL,
        "stubbed_components": prop.STUBS,
        "minutes_of_processor_time": round(cpu / 60.0, 2),
        "slowest_run": {"seconds": round(slowest[0], 2), "run": slowest[1]},
    }
    evidence = {"property": prop.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                "assumptions": prop.ASSUMES, "wall_s": round(wall, 2), "violations": violations}
    if code != 2 or done:
        d = os.path.join(env.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop.ID + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    print("%s %s seed=%d: %d runs in %.1fs (%d/h, slowest %.1fs: run %s), %d distinct states, %d distinct executions, faults %s" % (
        prop.ID, tier, seed, done, wall_runs, cov["runs_per_hour"], slowest[0], slowest[1], len(states), len(digests), json.dumps(faults)))
    if not quiet:
        print("  " + ", ".join("%s=%d" % kv for kv in sorted(counts.items())))
    if keep_going and failures:
        kinds = {}
        for i, res in sorted(failures, key=lambda x: x[0]):
            kinds.setdefault(res["kind"], []).append(i)
            if len(kinds[res["kind"]]) == 1:
                print("  first %s at run %d: %s" % (res["kind"], i, res["message"]))
        print("  kinds: %s" % {k: len(v) for k, v in kinds.items()})
    for line in lines:
        print(line)
    return code
