"""Fitting neither changes nor keeps referring to the caller's data."""
import numpy as np
import pandas as pd

from .. import datasets, estim
from ..core import Injected, derive
from ..runner import pristine
from ..sim import Sim, fresh_state, set_state
from ..core import Ctx
from .common import EST_REAL, EST_STUBS as STUBS, EST_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 900, "thorough": 12000}
RULE = ("A run holds two data sets and several estimators on them, and interleaves fits (also failing ones), predictions and "
        "utilities with in-place changes of the arrays, in one worker arrangement. distinct_nontrivial counts distinct (worker "
        "arrangement, form and dtype of the data, operations, scheduling decisions) combinations.")
REAL = EST_REAL + ["bartpy.runner", "bartpy.features.featureimportance", "bartpy.features.featureselection",
                   "bartpy.diagnostics.features", "bartpy.extensions.baseestimator", "bartpy.data.make_bartpy_data"]

OPS = ["fit", "fit", "fit", "refit", "predict", "residuals", "failing_fit", "run_models", "null_rmse", "original_rmse",
       "null_splits", "residual_bart", "gibbs", "make_data", "change", "change", "restore"]
FORMS = ["array", "array", "fortran", "strided", "readonly", "frame", "int", "float32", "small", "flags", "mixed"]


def gen(r, index, tier):
    p = estim.gen_params(r, chains=r.choice([1, 2, 2, 3]), big=0.02)
    p["n_samples"] = min(p["n_samples"], 5)
    p["n_trees"] = min(p["n_trees"], 5)
    ops = [["fit", r.randrange(1 << 20)]] + [[r.choice(OPS), r.randrange(1 << 20)] for _ in range(r.randint(2, 7))]
    if r.random() < 0.6:
        ops.append(["change", r.randrange(1 << 20)])
    return {"data": datasets.gen(r, nmin=8, nmax=20, pmax=3, big=0.02), "data2": datasets.gen(r, nmin=8, nmax=15, pmax=3, big=0.0),
            "params": p, "world": estim.gen_world(r, ("isolated", "threads", "threads", "serial")), "ops": ops,
            "form": r.choice(FORMS), "yform": r.choice(["array", "array", "readonly", "int", "view", "normalized", "series", "int8", "flags"]),
            "seed": r.randrange(1 << 30)}


def shape_X(X, form):
    if form == "int":
        return np.round(X * 4).clip(-1e6, 1e6).astype(np.int64)
    if form == "float32":
        return X.clip(-1e6, 1e6).astype(np.float32)
    return datasets.in_form(X, form)


def shape_y(y, form):
    if form == "readonly":
        y = y.copy()
        y.flags.writeable = False
        return y
    if form == "int":
        return np.round(np.asarray(y).clip(-1e6, 1e6) * 3).astype(np.int64) + np.arange(len(y)) % 2
    if form == "int8":
        return (np.argsort(np.argsort(y)) * 255 // max(len(y) - 1, 1) - 128).astype(np.int8)
    if form == "flags":
        return np.asarray(y) > np.median(y)
    if form == "view":
        big = np.zeros(2 * len(y), dtype=y.dtype)
        big[::2] = y
        return big[::2]
    if form == "series":
        return pd.Series(np.array(y), index=np.arange(len(y))[::-1] * 2)
    if form == "normalized":
        return datasets.normalized(y)      # as it would be after normalization: nothing to do, so nothing copied?
    return y.copy()


def freeze(a):
    if isinstance(a, pd.Series):
        return (a.values.tobytes(), a.name, tuple(a.index), str(a.dtype))
    if isinstance(a, pd.DataFrame):
        return (tuple(a.iloc[:, j].values.tobytes() for j in range(a.shape[1])), tuple(a.columns), tuple(a.index),
                tuple(str(t) for t in a.dtypes))
    return (a.tobytes(), a.dtype.str, a.shape, a.strides, a.flags.writeable)


def plain(a):
    return np.asarray(a.values if isinstance(a, pd.DataFrame) else a, dtype=float).copy()


def run(ctx, plan):
    from bartpy.runner import run_models
    from bartpy.data import make_bartpy_data
    from bartpy.extensions.baseestimator import ResidualBART
    from bartpy.features.featureimportance import null_rmse_distribution, original_model_rmse
    from bartpy.diagnostics.features import null_feature_split_proportions_distribution
    p, w = plan["params"], estim.world_of(plan)
    if w["mode"] == "serial":
        p = dict(p, n_jobs=1)
    elif p["n_jobs"] == -1 and w["cpu"] == 1:
        w["cpu"] = 3
    pool = []
    for key in ("data", "data2"):
        X, y = datasets.arrays(plan[key])
        pool.append([shape_X(X, plan["form"]), shape_y(y, plan["yform"])])
    first = [[plain(X), np.asarray(y).copy()] for X, y in pool]
    live = []       # [estimator, probes, its behaviour right after it was fitted, label]

    def settle(est, X, label):
        probes = datasets.probes(plain(X), plan["seed"], 6)
        live.append([est, probes, estim.behaviour(est, probes), label])

    def untouched(before, what):
        for i, (X, y) in enumerate(pool):
            ctx.check(freeze(X) == before[i][0], "covariates-changed", "%s changed the caller's covariates", what)
            ctx.check(freeze(y) == before[i][1], "target-changed", "%s changed the caller's target", what)

    def unaffected(what, but=None):
        for item in live:
            if item[0] is but:
                continue
            diff = estim.differs(item[2], estim.behaviour(item[0], item[1]))
            ctx.check(diff is None, "fitted-estimator-changed", "%s changed what %s reports: %s", what, item[3], diff)

    done = []
    with estim.open_sim(ctx, w) as sim, estim.backend(w["mode"]):
        for k, (op, s) in enumerate(plan["ops"]):
            sim.begin_op(k)
            sim.faults = []
            X, y = pool[s % 2]
            before = [[freeze(a), freeze(b)] for a, b in pool]
            label = "operation %d (%s)" % (k, op)
            est = None
            keep = None
            if op == "fit":
                est = estim.make(p)
                keep = estim.behaviour(est, plain(X))["params"]
                est.fit(X, y)
                ctx.check(estim.behaviour(est, plain(X))["params"] == keep, "parameters-changed", "%s changed parameters", label)
                settle(est, X, "the estimator of " + label)
            elif op == "refit":
                if not live:
                    continue
                item = live.pop(s % len(live))
                if isinstance(item[0], ResidualBART):
                    continue
                item[0].fit(X, y)
                settle(item[0], X, "the estimator of " + label)
            elif op == "predict":
                for e, pr, _, _ in live:
                    if pr.shape[1] == plain(X).shape[1]:
                        e.predict(X)
            elif op == "residuals":
                for e, pr, _, _ in live:
                    if pr.shape[1] == plain(X).shape[1]:
                        e.residuals(X, y)
                        e.rmse(X, y)
            elif op == "failing_fit":
                sim.faults = [{"on": "draw", "k": s % 50, "task": None, "op": k, "fired": False, "exc": "RuntimeError"}]
                try:
                    est = estim.make(p).fit(X, y)
                    settle(est, X, "the estimator of " + label)
                except Exception as e:      # noqa
                    if not isinstance(e, Injected):
                        raise
                sim.faults = []
                sim.drain(5)
            elif op == "run_models":
                template = estim.make(p)
                was = estim.behaviour(template, plain(X))
                for e, (A, b) in zip(run_models(template, [q[0] for q in pool], [q[1] for q in pool]), pool):
                    settle(e, A, "a model of " + label)
                ctx.check(estim.differs(was, estim.behaviour(template, plain(X))) is None, "estimator-changed",
                          "%s changed the model passed in", label)
            elif op in ("null_rmse", "original_rmse", "null_splits"):
                template = estim.make(dict(p, n_chains=1))
                was = estim.behaviour(template, plain(X))
                if op == "null_rmse":
                    null_rmse_distribution(template, X, y, s % X.shape[1], 2, 1)
                elif op == "original_rmse":
                    original_model_rmse(template, X, y, 2)
                else:
                    null_feature_split_proportions_distribution(template, X, y, 1)
                ctx.check(estim.differs(was, estim.behaviour(template, plain(X))) is None, "estimator-changed",
                          "%s changed the model passed in", label)
            elif op == "residual_bart":
                est = estim.make(p, cls=ResidualBART)
                est.fit(X, y)
                settle(est, X, "the residual model of " + label)
            elif op == "gibbs":
                m = estim.make(p)
                model = estim.gibbs_model(m, X, y)
                m.sampler.samples(model, 2, 1, 1.0, True, True)
            elif op == "make_data":
                before_rows = plain(X)
                d = make_bartpy_data(X, y)
                before_y = np.array(d.y.values, copy=True)
                ctx.check(np.array_equal(before_rows, d.X.values), "data-differ", "make_bartpy_data changed the values")
                untouched(before, label)
                datasets.overwrite(X, plain(X) + 1)
                datasets.overwrite(y, np.asarray(y) * 2 + 1)
                ctx.check(np.array_equal(before_rows, d.X.values) and np.array_equal(before_y, d.y.values), "data-refer",
                          "a data set made by make_bartpy_data follows changes of the caller's arrays")
                continue
            elif op == "change":
                rs = np.random.RandomState(s)
                how = s % 4
                if how == 0:
                    datasets.overwrite(X, rs.permutation(plain(X)))
                elif how == 1:
                    datasets.overwrite(X, rs.randint(-3, 4, plain(X).shape))
                else:
                    datasets.overwrite(X, plain(X)[::-1] + 1)
                if s % 3:
                    datasets.overwrite(y, rs.permutation(np.asarray(y)) * (2 if s % 3 == 1 else 1))
                ctx.fault("caller_changes_arrays")
                unaffected("changing the caller's arrays in place")
                done.append(op)
                continue
            elif op == "restore":
                for (A, b), (A0, b0) in zip(pool, first):
                    datasets.overwrite(A, A0)
                    datasets.overwrite(b, b0)
                unaffected("changing the caller's arrays in place")
                continue
            untouched(before, label)
            unaffected(label, but=est)
            done.append(op)
        # what was learned is what the arrays held at the time: the last fit equals one on private copies
        X, y = pool[plan["seed"] % 2]
        if not isinstance(X, pd.DataFrame) and w["mode"] == "serial":
            want = pristine(lambda: reference(p, np.array(X), np.array(y), plan["seed"]))
            est = estim.make(p)
            set_state(fresh_state(derive("last", plan["seed"])))
            est.fit(X, y)
            got = estim.fit_chain(est)
            ctx.check(estim.differs(want, got) is None, "fit-differs", "a fit on the changed arrays differs from one on copies")
        ctx.state(w["mode"], plan["form"], plan["yform"], done, [tuple(s) for s in sim.schedule.made][:40])
        ctx.event(repr(done))


def reference(p, X, y, seed):
    with Sim(Ctx({}), main_seed=1, cpu=1):
        est = estim.make(p)
        set_state(fresh_state(derive("last", seed)))
        est.fit(X, y)
        return estim.fit_chain(est)
