"""A failed fit is all-or-nothing."""
import numpy as np

from .. import datasets, estim
from ..core import Ctx, Injected, derive
from ..runner import pristine
from ..sim import Sim, fresh_state, set_state
from .common import EST_REAL as REAL, EST_STUBS as STUBS, EST_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 480, "thorough": 12000}
RULE = ("A run takes one estimator through a sequence of fits, most of them with faults injected in workers, transport, progress "
        "output or the waiting caller, or with unusable data. distinct_nontrivial counts distinct (worker arrangement, sequence "
        "of attempts with their outcomes, faults fired, scheduling decisions) combinations.")

BAD = ["no_rows", "no_columns", "short_y", "long_y", "text", "none", "flat_X"]


def gen_fault(r, n_chains, op, serial):
    chain = "main" if serial else "chain%d" % r.randrange(n_chains)
    where = r.choice(["draw"] * 6 + ["write", "write"] + ([] if serial else ["result", "submit", "sleep", "sleep"]))
    f = {"on": where, "op": op, "task": chain}
    if where == "draw":
        f["k"] = r.choice([0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 150, 250])
        f["exc"] = r.choice(["RuntimeError", "KeyboardInterrupt", "MemoryError", "ValueError", "SystemExit", "OSError"]
                            + ([] if serial else ["die", "die", "stall"]))
    elif where == "write":
        f["k"] = r.randint(0, 8)
        f["exc"] = "OSError"
        f["errno"] = r.choice([28, 32, 5])
        f["task"] = None
    elif where == "result":
        f["k"] = 0
        f["exc"] = r.choice(["MemoryError", "OSError", "die", "RuntimeError"])
    elif where == "submit":
        f["task"] = None
        f["k"] = r.randrange(n_chains)
        f["exc"] = r.choice(["MemoryError", "OSError", "RuntimeError"])
    else:
        f["task"] = "main"
        f["k"] = r.randint(0, 6)
        f["exc"] = r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "RuntimeError"])
    return f


def gen(r, index, tier):
    p = estim.gen_params(r, chains=r.choice([1, 2, 2, 3, 4]), big=0.03)
    w = estim.gen_world(r, ("isolated", "isolated", "threads", "threads", "serial"))
    if w["mode"] == "serial":
        p["n_jobs"] = 1
    elif p["n_jobs"] == -1 and w["cpu"] == 1:
        w["cpu"] = 3
    ops, faults = [], []
    for k in range(r.randint(1, 4)):
        u = r.random()
        if u < 0.2:
            ops.append(["bad", r.choice(BAD), r.randrange(3)])
        elif u < 0.3:
            ops.append(["fit", None, r.randrange(3)])
        else:
            ops.append(["fit", None, r.randrange(3)])
            for _ in range(r.choice([1, 1, 1, 2])):
                faults.append(gen_fault(r, p["n_chains"], k + 1, w["mode"] == "serial"))
    return {"params": p, "world": w, "before": r.choice(["unfitted", "fitted", "fitted", "fitted", "copied", "pickled"]),
            "ops": ops, "faults": faults, "drain": r.choice([0, 3, 30]), "final": r.randrange(3),
            "data": datasets.gen(r, nmin=3, nmax=20, pmax=3), "data2": datasets.gen(r, nmin=3, nmax=15, pmax=3),
            "data3": datasets.gen(r, nmin=3, nmax=15, pmax=3), "form": r.choice(["array", "array", "frame", "small", "flags"])}


def unusable(kind, X, y):
    if kind == "no_rows":
        return X[:0], y[:0]
    if kind == "no_columns":
        return X[:, :0], y
    if kind == "short_y":
        return X, y[:-1]
    if kind == "long_y":
        return X, np.concatenate([y, y[:1]])
    if kind == "text":
        return X, np.array(["a%d" % i for i in range(len(y))])
    if kind == "none":
        return X, None
    return X[:, 0], y


def reference(p, data, seeds, form, main_seed):
    """The same fit by a new estimator in a fresh process."""
    X, y = datasets.arrays(data)
    probes = datasets.probes(X, main_seed, 8)
    with Sim(Ctx({}), schedule=None, streams=lambda i: seeds[i], cpu=3, main_seed=3):
        est = estim.make(p)
        set_state(fresh_state(main_seed))
        A = datasets.in_form(X, form)
        est.fit(A, datasets.target_in(A, y))
        return estim.fit_print(est, probes)


def run(ctx, plan):
    p, w = plan["params"], estim.world_of(plan)
    serial = w["mode"] == "serial"
    n, base = p["n_chains"], w["seed"]
    named = [plan["data"], plan["data2"], plan["data3"]]
    sets = [datasets.arrays(d) for d in named]

    def seeds_of(op):
        return [derive("stream", base, op, i) for i in range(n)]

    def fit(sim, est, op, which):
        X, y = sets[which]
        sim.begin_op(op)
        set_state(fresh_state(derive("main", base, op)))
        A = datasets.in_form(X, plan["form"])
        return est.fit(A, datasets.target_in(A, y))

    def want(op, which):
        return pristine(lambda: reference(p, named[which], seeds_of(op), plan["form"], derive("main", base, op)))

    trail = []
    # decided before the simulation starts: a fresh process must not inherit anything of it
    last = len(plan["ops"]) + 1
    refs = {last: want(last, plan["final"])}
    for k, (what, how, which) in enumerate(plan["ops"]):
        if what == "fit":
            refs[k + 1] = want(k + 1, which)
    probes = datasets.probes(sets[0][0], base, 7)
    with estim.open_sim(ctx, w, faults=plan["faults"], streams=lambda i: seeds_of(sim_box[0].op)[i % n]) as sim, \
            estim.backend(w["mode"]):
        sim_box[0] = sim
        est = estim.make(p)
        if plan["before"] != "unfitted":
            fit(sim, est, 0, 0)
            if plan["before"] == "copied":
                est = estim.clone_of(est, "deepcopy")
            elif plan["before"] == "pickled":
                est = estim.clone_of(est, "pickle")
        fitted_on = None if plan["before"] == "unfitted" else 0
        for k, (what, how, which) in enumerate(plan["ops"]):
            pr = probes if fitted_on is None else datasets.probes(sets[fitted_on][0], base, 7)
            before = estim.behaviour(est, pr)
            fired = len(sim.fired())
            try:
                if what == "bad":
                    sim.begin_op(k + 1)
                    X, y = unusable(how, *sets[which])
                    out = est.fit(X, y)
                else:
                    out = fit(sim, est, k + 1, which)
            except BaseException as e:      # noqa
                if what == "fit" and len(sim.fired()) == fired:
                    if isinstance(e, Exception) and not isinstance(e, Injected):
                        ctx.fail("fit-fails", "fit %d failed though nothing was injected: %s: %s" % (k + 1, type(e).__name__,
                                                                                                   str(e)[:200]))
                    raise
                trail.append((what, how, type(e).__name__))
                for wait in (0, plan["drain"]):
                    sim.drain(wait)
                    diff = estim.differs(before, estim.behaviour(est, pr))
                    ctx.check(diff is None, "half-published", "attempt %d (%s) failed with %s and changed the estimator: %s%s",
                              k + 1, how or "fit", type(e).__name__, diff, " (after abandoned chains ran on)" if wait else "")
                ctx.count("failed_fits")
                continue
            trail.append((what, how, "ok"))
            ctx.check(out is est, "fit-returns-self", "fit did not return the estimator")
            if what == "bad":
                ctx.count("unusable_data_accepted")
                whole = estim.fit_chain(est)
                ctx.check(len(whole["model"]) > 0 and len(whole["model"]) % n == 0, "incomplete", "a fit returned with %d samples "
                          "of %d chains", len(whole["model"]), n)
                return
            fitted_on = which
            complete(ctx, est, p, refs[k + 1], sets[which][0], derive("main", base, k + 1), len(sim.fired()) == fired
                     or all(f["exc"] == "stall" or f["on"] == "write" for f in sim.fired()[fired:]), "fit %d" % (k + 1))
        sim.drain(plan["drain"])
        op = last
        try:
            fit(sim, est, op, plan["final"])
        except Exception as e:      # noqa
            ctx.fail("no-recovery", "after %s the next fit fails: %s: %s" % (trail, type(e).__name__, str(e)[:200]))
        complete(ctx, est, p, refs[op], sets[plan["final"]][0], derive("main", base, op), True, "the fit after %s" % (trail,))
        ctx.state(w["mode"], plan["before"], trail, sorted((f["on"], f["exc"]) for f in sim.fired()), len(sim.schedule.made))
        ctx.event(repr(trail))
    ctx.count("recoveries")


sim_box = [None]


def complete(ctx, est, p, ref, X, main_seed, exact, label):
    n = p["n_chains"]
    whole = estim.fit_chain(est)
    for k in ("model", "pred", "acc"):
        ctx.check(len(whole[k]) == len(ref[k]), "incomplete", "%s returned with %d entries of %s instead of %d", label,
                  len(whole[k]), k, len(ref[k]))
    parts = estim.split_chain(whole, n)
    ctx.check(parts is not None and len(set(repr(c["model"]) for c in parts)) == n, "incomplete", "%s returned, but not every "
              "chain's samples are there once", label)
    if exact:
        got = estim.fit_print(est, datasets.probes(X, main_seed, 8))
        diff = estim.differs(ref, got)
        ctx.check(diff is None, "fit-differs", "%s differs from the fit of a new estimator: %s", label, diff)
    ctx.count("complete_fits")
