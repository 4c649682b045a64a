"""In-sample and out-of-sample predictions always agree."""
import numpy as np

from .. import datasets, estim, gibbs, oracles, ref
from ..core import Injected
from .common import GIBBS_RULE, GIBBS_REAL, EST_REAL, EST_STUBS, GIBBS_ASSUMES, EST_ASSUMES

RUNS = {"quick": 1600, "thorough": 30000}
RULE = GIBBS_RULE + (" A sixth of the runs fit whole estimators (refits, failing refits, copies) with simulated workers and compare "
                     "what they stored with what their recorded models predict.")
REAL = GIBBS_REAL + EST_REAL
STUBS = EST_STUBS
ASSUMES = GIBBS_ASSUMES + EST_ASSUMES


def gen(r, index, tier):
    if r.random() < 0.16:
        p = estim.gen_params(r, chains=r.choice([1, 1, 2, 3]), store=True, big=0.06)
        if r.random() < 0.1:
            p.update(n_trees=r.choice([65, 100, 129, 200]), n_samples=r.choice([1, 2, 3]), n_burn=r.choice([0, 1]), n_chains=1)
        ops = [[r.choice(["refit", "refit_same", "fail", "pickle", "deepcopy", "clone", "mutate", "predict", "set_params", "switch_on",
                          "switch_off"]),
                r.randrange(1 << 20)] for _ in range(r.choice([0, 1, 2, 3]))]
        sets = [datasets.gen(r, nmin=2, nmax=30, pmax=4) for _ in range(2)]
        return {"level": "estimator", "params": p, "ops": ops, "sets": sets, "world": estim.gen_world(r, ("isolated", "threads", "serial")),
                "form": r.choice(datasets.FORMS)}
    return gibbs.gen(r, given=0.1, init=0.2, oblivious=0.1)


def run(ctx, plan):
    if plan.get("level") == "estimator":
        return run_estimator(ctx, plan)
    gibbs.simulate(ctx, plan, [oracles.Predictions()])


def agree(ctx, est, X, y, form, what):
    """Stored, in-sample and out-of-sample predictions of a fitted estimator are the same numbers."""
    models, stored = list(est.model_samples), est.prediction_samples
    ctx.check(stored is not None and len(stored) == len(models), "stored-count", "%s: %d models but %s stored predictions", what,
              len(models), None if stored is None else len(stored))
    total = np.zeros(len(X))
    for j, m in enumerate(models):
        want = ref.predict_trees(m.trees, X)
        out = m.predict(datasets.in_form(X, form))
        ctx.check(oracles.close(out, want, oracles.EXACT), "out-of-sample-prediction", "%s: recorded model %d predicts its training rows "
                  "otherwise than the sum of its leaves (%s)", what, j, oracles.worst(out, want))
        got = np.asarray(stored[j], dtype=float)
        ctx.check(oracles.close(got, want, oracles.EXACT), "stored-prediction", "%s: stored in-sample prediction %d differs from what its "
                  "model predicts for the training rows (%s)", what, j, oracles.worst(got, want))
        total += want
    lo, hi = float(np.min(y)), float(np.max(y))
    want = lo + (total / len(models) + 0.5) * (hi - lo)
    for how, got in (("without data", est.predict()), ("of the training data", est.predict(datasets.in_form(X, form)))):
        compare(ctx, got, want, y, what, how)
    ctx.count("estimators_compared")


def compare(ctx, got, want, y, what, how):
    lo, hi = float(np.min(y)), float(np.max(y))
    tol = 1e-10 * (hi - lo) + 1e-13 * max(abs(lo), abs(hi))
    got = np.asarray(got, dtype=float)
    ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol)), "estimator-prediction", "%s: the prediction %s is "
              "not the mean of the recorded models (%s)", what, how, oracles.worst(got, want))


def mean_of_models(est, X, y):
    lo, hi = float(np.min(y)), float(np.max(y))
    total = np.zeros(len(X))
    for m in est.model_samples:
        total += ref.predict_trees(m.trees, X)
    return lo + (total / len(est.model_samples) + 0.5) * (hi - lo)


def without_data(ctx, est, X, y, what):
    """A prediction without data is right or refused."""
    try:
        got = est.predict()
    except ValueError:
        return
    compare(ctx, got, mean_of_models(est, X, y), y, what, "without data")


def run_estimator(ctx, plan):
    p, w, form = dict(plan["params"]), estim.world_of(plan), plan["form"]
    if w["mode"] == "serial":
        p["n_jobs"] = 1
    arrays = [datasets.arrays(d) for d in plan["sets"]]
    with estim.open_sim(ctx, w, max_steps=3000000) as sim, estim.backend(w["mode"]):
        est, at = estim.make(p), None
        for k, (op, s) in enumerate([["refit", 0]] + plan["ops"]):
            sim.begin_op(k)
            if op in ("pickle", "deepcopy"):
                est = estim.clone_of(est, op)
            elif op in ("switch_on", "switch_off"):
                # the storing of predictions is switched after a fit
                other = estim.clone_of(est, "deepcopy")
                if op == "switch_on":
                    other = estim.make(dict(p, store=False))
                    A, b = arrays[at][0].copy(), np.array(arrays[at][1], copy=True)
                    compare(ctx, other.fit_predict(A, b), mean_of_models(other, *arrays[at]), arrays[at][1], op, "by fit_predict")
                estim.set_params(other, store_in_sample_predictions=op == "switch_on")
                without_data(ctx, other, arrays[at][0], arrays[at][1], op)
            elif op == "predict":
                est.predict(datasets.probes(arrays[at][0], s, 1 + s % 7))
            elif op == "mutate":
                # what was passed in belongs to the caller again
                A[...] = 1.5
                b[...] = 7
            else:
                if op == "clone":
                    est, at = estim.clone_of(est, "clone"), None
                if op == "set_params":
                    kw = {"n_trees": 1 + s % 5, "n_samples": 1 + s % 4, "thin": [1.0, 0.5][s % 2], "alpha": [0.95, 0.5][s // 8 % 2]}
                    estim.set_params(est, **kw)
                to = at if op == "refit_same" else (s + k) % 2
                A, b = arrays[to][0].copy(), np.array(arrays[to][1], copy=True)
                if op == "fail":
                    task = "main" if w["mode"] == "serial" else "chain%d" % (s % p["n_chains"])
                    sim.faults = [{"on": "draw", "k": s % 60, "task": task, "op": k, "fired": False,
                                   "exc": ["RuntimeError", "KeyboardInterrupt", "MemoryError"][s % 3]}]
                try:
                    if s % 3 == 1:
                        out = est.fit_predict(A, b)
                        compare(ctx, out, mean_of_models(est, *arrays[to]), arrays[to][1], op, "by fit_predict")
                    else:
                        est.fit(A, b)
                    at = to
                except BaseException as e:      # noqa
                    if not isinstance(e, Injected):
                        raise
                    ctx.count("failed_fits")
                    sim.drain(4000)
                    if any(t.state != "done" and not t.killed for t in sim.tasks[1:]):
                        ctx.count("ended_early")
                        return
                sim.faults = []
            if at is not None:
                agree(ctx, est, arrays[at][0], arrays[at][1], form, "after %s" % op)
        ctx.state("estimator", w["mode"], [o[0] for o in plan["ops"]], plan["sets"][0]["seed"], p["n_trees"], p["n_chains"])
        ctx.event(estim.fit_chain(est)["pred"][:3] if at is not None else None)
