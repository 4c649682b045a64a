"""Fits are reproducible and independent of process history."""
import numpy as np

from .. import conform, datasets, estim
from ..core import Ctx, derive
from ..runner import pristine
from ..sim import Sim, fresh_state, set_state
from .common import EST_REAL as REAL, EST_STUBS as STUBS, EST_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 1200, "thorough": 18000}
RULE = ("A run plays a random history of fits, failed and interrupted fits, copies and predictions in one process, then fits "
        "in-process from a chosen generator state and compares bit for bit with a fresh process. distinct_nontrivial counts "
        "distinct (history, data, kind of estimator, form of the data) combinations.")


def gen(r, index, tier):
    if r.random() < 0.15:
        return conform.gen(r, ("serial",))
    p = estim.gen_params(r, chains=r.choice([1, 2, 3]), jobs=1)
    if r.random() < 0.05:
        p.update(n_trees=4, n_samples=260, n_chains=1, thin=0.1)
    w = estim.gen_world(r, ("serial",))
    return {"data": datasets.gen(r, nmin=1, nmax=30, pmax=4, hard=r.random() < 0.2), "params": p,
            "data2": datasets.gen(r, nmin=2, nmax=15, pmax=3), "world": w,
            "history": estim.gen_history(r, 5), "form": r.choice(datasets.FORMS), "yform": r.choice(["array", "array", "readonly"]),
            "last": r.choice(["same", "same", "new", "clone", "deepcopy", "copy", "pickle", "cloudpickle"]),
            "repeat": r.choice([1, 1, 2]), "seed": r.randrange(1 << 30),
            "parallel_history": r.random() < 0.3, "switch": r.random() < 0.25,
            "reuse": r.random() < 0.25}


def fit_once(est, X, y, form, yform, seed, p):
    Xf = datasets.in_form(X, form)
    yf = datasets.target_in(Xf, y)
    if yform == "readonly" and isinstance(yf, np.ndarray):
        yf.flags.writeable = False
    set_state(fresh_state(seed))
    est.fit(Xf, yf)
    return est


def reference(p, data, seed, probe_seed):
    X, y = datasets.arrays(data)
    with Sim(Ctx({}), main_seed=77, cpu=1):
        est = fit_once(estim.make(p), X, y, "array", "array", derive("fit", seed), p)
        return estim.fit_print(est, datasets.probes(X, probe_seed, 10))


def run(ctx, plan):
    if plan.get("level") == "fit":
        return conform.run(ctx, plan, ("sweeps", "leaf", "sigma", "ratio", "kinds"))
    p, w, d = plan["params"], estim.world_of(plan), plan["data"]
    want = pristine(lambda: reference(p, d, plan["seed"], w["seed"]))
    X, y = datasets.arrays(d)
    probes = datasets.probes(X, w["seed"], 10)
    with estim.open_sim(ctx, w) as sim:
        hp = dict(p, n_jobs=2) if plan["parallel_history"] else p
        start = estim.make(hp)
        if plan["switch"]:
            # same estimator object, parameters set to something else during its history
            start = estim.make(estim.other_params(hp, plan["seed"]))
        est, kept = estim.play(ctx, sim, start, hp, plan["history"], plan["data2"])
        est.set_params(n_jobs=1)
        if plan["switch"]:
            estim.set_parameters(est, p)
        if plan["last"] == "new":
            est = estim.make(p)
        elif plan["last"] != "same":
            est = estim.clone_of(est, plan["last"])
        sim.begin_op(1)
        if plan["reuse"]:
            # the very arrays that were fitted before, with other values then
            Xf, yf = X[::-1] * 0.5, np.array(y[::-1])
            yf[0] = y[0] + 1
            est.fit(Xf, yf)
            Xf[...] = X
            yf[...] = y
        for k in range(plan["repeat"]):
            if plan["reuse"]:
                set_state(fresh_state(derive("fit", plan["seed"])))
                est.fit(Xf, yf)
            else:
                fit_once(est, X, y, plan["form"], plan["yform"], derive("fit", plan["seed"]), p)
            got = estim.fit_print(est, probes)
            diff = estim.differs(want, got)
            ctx.check(diff is None, "fit-differs", "fit %d after history %s (%s estimator, %s data) differs from a fresh process: "
                      "%s", k + 1, [h[0] for h in plan["history"]], plan["last"], plan["form"], diff)
            ctx.check(np.asarray(est.model_samples).shape[0] == len(want["model"]), "residue", "the refit holds %d samples, a new "
                      "fit %d", len(est.model_samples), len(want["model"]))
        ctx.state([h[0] for h in plan["history"]], plan["last"], plan["form"], plan["switch"], d["seed"])
        ctx.event(repr(want)[:3000])
