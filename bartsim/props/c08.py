"""Parallel multi-dataset runs attribute each result to its own data."""
import math

import numpy as np
from bartpy.sklearnmodel import SklearnModel

from .. import datasets, estim, oracles, ref
from ..core import Ctx, Injected, derive
from ..runner import pristine
from ..sim import Sim
from .common import EST_REAL, EST_STUBS as STUBS, EST_ASSUMES as ASSUMES, EST_RULE as RULE   # noqa: F401

RUNS = {"quick": 525, "thorough": 8000}
REAL = EST_REAL + ["bartpy.runner", "bartpy.features.featureimportance", "bartpy.diagnostics.features (split proportions)"]

CHANCE = math.log(1e-10)
WHAT = ["run_models", "run_models", "run_models", "null_rmse", "null_rmse", "original_rmse", "null_splits"]


def gen(r, index, tier):
    what = r.choice(WHAT)
    p = estim.gen_params(r, chains=r.choice([1, 2, 2, 3]), big=0.02)
    p["n_samples"] = min(p["n_samples"], 5)
    plan = {"what": what, "params": p, "world": estim.gen_world(r, ("isolated", "isolated", "threads")),
            "template": r.choice(["new", "fitted", "other"]), "faults": [], "data2": datasets.gen(r, nmin=3, nmax=12, pmax=3)}
    if what == "run_models":
        k = r.choice([1, 2, 2, 3, 4])
        same = r.random() < 0.5         # equal shapes hide mix-ups best
        n, cols = r.randint(4, 15), [r.choice(datasets.COLS) for _ in range(r.randint(1, 3))]
        plan["sets"] = []
        for _ in range(k):
            d = datasets.gen(r, nmin=3, nmax=15, pmax=3, big=0.0)
            if same:
                d.update(n=n, cols=["normal"] + cols)
            plan["sets"].append(d)
        plan["shared"] = r.random() < 0.25      # several models of one covariate matrix
        plan["form"] = r.choice(["array", "array", "frame", "readonly", "reindexed", "intnames", "flags", "small"])
        if r.random() < 0.3:
            plan["faults"] = [{"on": "draw", "k": r.choice([0, 1, 3, 8, 20, 60]), "task": "chain%d" % r.randrange(k * p["n_chains"]), "op": 1,
                               "exc": r.choice(["RuntimeError", "KeyboardInterrupt", "die", "stall"])}]
        plan["serial"] = r.random() < 0.15
    else:
        cols = ["unique"] + [r.choice(["normal", "unif", "int9", "offset"]) for _ in range(r.randint(1, 3) if r.random() < 0.93 else 11)]
        plan["data"] = {"n": r.randint(8, 24), "cols": cols, "y": "tagged", "seed": r.randrange(1 << 30)}
        plan["variable"] = r.randint(1, len(cols) - 1)
        plan["folds"] = r.choice([2, 2, 3, 4])
        plan["permutations"] = r.choice([1, 2, 3])
        plan["form"] = r.choice(["array", "array", "frame", "readonly", "reindexed", "intnames", "flags", "small"])
    return plan


# ------------------------------------------------------------------------------------------------- references

def unscale(y, v):
    y = np.asarray(y, dtype=float)
    return y.min() + (np.asarray(v) + 0.5) * (y.max() - y.min())


def mean_prediction(samples, X, y):
    """Independent of the estimator's own prediction: every sample's trees evaluated row by row."""
    return unscale(y, np.mean([ref.predict_trees(m.trees, X) for m in samples], axis=0))


def near(a, b, y):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    scale = float(np.ptp(np.asarray(y, dtype=float))) + 1e-3 * float(np.max(np.abs(np.asarray(y, dtype=float)))) or 1.0
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-8 * scale))


def chains_alone(p, X, y, seeds):
    """One print per chain, each by a new estimator on these arrays. Inside pristine()."""
    out = []
    for s in seeds:
        with Sim(Ctx({}), schedule=None, streams=lambda i, s=s: s, cpu=2, main_seed=12345):
            est = estim.make(dict(p, n_chains=1, n_jobs=2))
            est.fit(X.copy(), y.copy())
            out.append(estim.fit_chain(est))
    return out


def split_share(p, X, y, seeds, columns):
    from bartpy.diagnostics.features import feature_split_proportions
    with Sim(Ctx({}), schedule=None, streams=lambda i: seeds[i], cpu=2, main_seed=12345):
        est = estim.make(dict(p, n_jobs=2))
        est.fit(X.copy(), y.copy())
    return feature_split_proportions(est, columns)


def arguments(item):
    """Covariates and target a submitted chain works on, however they are passed."""
    _, args, kwargs = item
    X = y = None
    for a in list(args) + list(kwargs.values()):
        if hasattr(a, "shape") and len(a.shape) == 2:
            X = np.asarray(a)
        elif hasattr(a, "shape") and len(a.shape) == 1:
            y = np.asarray(a)
    return X, y


def rows_of(X, original, other_than=None):
    """Which original rows these are, by the first column, whose values are all different."""
    at = {float(v): i for i, v in enumerate(original[:, 0])}
    return [at.get(float(v)) for v in X[:, 0]]


# ------------------------------------------------------------------------------------------------- spying estimator

CALLS = []


class Spy(SklearnModel):
    """At module level: it must be pickled by reference to stay this class."""

    def predict(self, X=None):
        if X is not None:
            CALLS.append((list(self.model_samples), np.array(X, dtype=float, copy=True), np.array(self.data.y.unnormalized_y)))
        return SklearnModel.predict(self, X)


# ------------------------------------------------------------------------------------------------- runs

def run(ctx, plan):
    p, w = plan["params"], estim.world_of(plan)
    if plan.get("serial"):
        w["mode"], p = "serial", dict(p, n_jobs=1)
    if p["n_jobs"] == -1 and w["cpu"] == 1:
        w["cpu"] = 3
    base = w["seed"]
    with estim.open_sim(ctx, w, faults=plan["faults"]) as sim, estim.backend(w["mode"]):
        template = estim.make(p, cls=Spy if plan["what"] in ("null_rmse", "original_rmse") else None)
        X2, y2 = datasets.arrays(plan["data2"])
        probes2 = datasets.probes(X2, base, 6)
        sim.begin_op(0)
        if plan["template"] == "fitted":
            template.fit(X2.copy(), y2.copy())
        elif plan["template"] == "other":
            estim.make(p).fit(X2.copy(), y2.copy())
        before = estim.behaviour(template, probes2)
        del CALLS[:]
        sim.begin_op(1)
        if plan["what"] == "run_models":
            multi(ctx, plan, p, w, sim, template)
        else:
            utility(ctx, plan, p, w, sim, template)
        after = estim.behaviour(template, probes2)
        diff = estim.differs(before, after)
        ctx.check(diff is None, "template-changed", "%s changed the model passed to it: %s", plan["what"], diff)


def multi(ctx, plan, p, w, sim, template):
    from bartpy.runner import run_models
    n, base = p["n_chains"], w["seed"]
    sets = [datasets.arrays(d) for d in plan["sets"]]
    if plan["shared"]:
        rs = np.random.RandomState(base % (2 ** 32))
        sets = [(sets[0][0], rs.permutation(sets[0][1])) for _ in sets]
    Xs = [datasets.in_form(X, plan["form"]) for X, _ in sets]
    ys = [datasets.target_in(A, y) for A, (_, y) in zip(Xs, sets)]
    want = None
    if w["mode"] != "serial":
        want = pristine(lambda: [chains_alone(p, X, y, [derive("stream", base, i * n + j) for j in range(n)])
                                 for i, (X, y) in enumerate(sets)])
    probes2 = datasets.probes(datasets.arrays(plan["data2"])[0], base, 6)
    before = estim.behaviour(template, probes2)
    for attempt in (1, 2):
        try:
            sim.begin_op(attempt)
            models = run_models(template, Xs, ys)
            break
        except BaseException as e:      # noqa
            if not (isinstance(e, Injected) or sim.fired()):
                raise
            diff = estim.differs(before, estim.behaviour(template, probes2))
            ctx.check(diff is None, "template-changed", "a failed run of several data sets changed the template: %s", diff)
            sim.drain(40)
    ctx.check(len(models) == len(sets), "wrong-number", "%d models for %d data sets", len(models), len(sets))
    # using one model must not disturb another
    for m, (X, _) in zip(models, sets):
        m.predict(datasets.probes(X, base, 3))
    for i, (m, (X, y)) in enumerate(zip(models, sets)):
        label = "model %d of %d" % (i, len(sets))
        whole = estim.fit_chain(m)
        parts = estim.split_chain(whole, n)
        ctx.check(parts is not None and len(whole["model"]) > 0, "uneven-chains", "%s holds %d models of %d chains", label,
                  len(whole["model"]), n)
        if want is not None:
            for j in range(n):
                diff = estim.differs(want[i][j], parts[j])
                ctx.check(diff is None, "wrong-chain", "%s, chain %d: not the samples of that chain on that data set: %s", label, j,
                          diff)
        held = getattr(m, "extract", None)
        if held is not None:
            ctx.check(len(held) == n and all(estim.differs(parts[j], estim.chain_print(held[j])) is None for j in range(n)),
                      "wrong-extract", "%s was given the extract of other chains than those of its data set", label)
        got_X, got_y = np.asarray(m.data.X.values, dtype=float), np.asarray(m.data.y.unnormalized_y, dtype=float)
        ctx.check(got_X.shape == X.shape and np.array_equal(got_X, X), "wrong-covariates", "%s holds other covariates", label)
        ctx.check(near(got_y, y, y), "wrong-target", "%s holds another target", label)
        probes = datasets.probes(X, base + i, 8)
        model_check(ctx, m, p, X, y, probes, label)
    if len(models) > 1:
        # a model of its own for every data set
        keep = estim.behaviour(models[0], datasets.probes(sets[0][0], base, 6))
        sim.begin_op(3)
        models[-1].fit(*[a.copy() for a in sets[0]])
        diff = estim.differs(keep, estim.behaviour(models[0], datasets.probes(sets[0][0], base, 6)))
        ctx.check(diff is None, "models-linked", "refitting the last model changed the first: %s", diff)
    ctx.state("multi", len(sets), n, p["n_jobs"], w["mode"], [tuple(s) for s in sim.schedule.made][:100], len(sim.fired()))
    ctx.count("models_checked", len(models))


def model_check(ctx, m, p, X, y, probes, label):
    got, want = m.predict(probes.copy()), mean_prediction(m.model_samples, probes, y)
    ctx.check(near(got, want, y), "wrong-prediction", "%s: predictions are not the mean of its samples in its own units (%s)",
              label, oracles.worst(np.asarray(got), want))
    want = y - mean_prediction(m.model_samples, X, y)
    ctx.check(near(m.residuals(X.copy(), y.copy()), want, y), "wrong-residuals", "%s: residuals of given data are wrong", label)
    ctx.check(near(m.residuals(X.copy()), want, y), "wrong-residuals", "%s: residuals of its own data are wrong", label)
    if p["store"]:
        ctx.check(near(m.residuals(), want, y), "wrong-residuals", "%s: in-sample residuals are wrong", label)
        ctx.check(near(m.predict(), mean_prediction(m.model_samples, X, y), y), "wrong-prediction",
                  "%s: in-sample prediction is wrong", label)


def utility(ctx, plan, p, w, sim, template):
    from bartpy.features.featureimportance import null_rmse_distribution, original_model_rmse
    from bartpy.diagnostics.features import null_feature_split_proportions_distribution
    n, base, v = p["n_chains"], w["seed"], plan["variable"]
    X, y = datasets.arrays(plan["data"])
    Xin = datasets.in_form(X, plan["form"])
    yin = datasets.target_in(Xin, y)
    folds, perms = plan["folds"], plan["permutations"]
    what = plan["what"]
    if what == "null_splits":
        out = null_feature_split_proportions_distribution(template, Xin, yin, n_permutations=perms)
    elif what == "null_rmse":
        out = null_rmse_distribution(template, Xin, yin, v, folds, perms)
    else:
        out = original_model_rmse(template, Xin, yin, folds)
    items = list(sim.submissions)
    ctx.state(what, folds, perms, n, p["n_jobs"], w["mode"], [tuple(s) for s in sim.schedule.made][:100])
    count = {"null_splits": perms, "null_rmse": perms * folds, "original_rmse": folds}[what]
    ctx.check(len(items) == count * n, "wrong-number", "%d chains were run for %d models of %d chains", len(items), count, n)
    groups = [[arguments(it) for it in items[i * n:(i + 1) * n]] for i in range(count)]
    for i, g in enumerate(groups):
        for a, b in g[1:]:
            ctx.check(np.array_equal(a, g[0][0]) and np.array_equal(b, g[0][1]), "mixed-data", "chains of model %d were run on "
                      "different data", i)
    seeds = [[derive("stream", base, i * n + j) for j in range(n)] for i in range(count)]
    trained = [g[0] for g in groups]
    if what == "null_splits":
        moved, chance = 0, -perms * math.lgamma(len(y) + 1)
        for i, (a, b) in enumerate(trained):
            ctx.check(np.array_equal(a, X), "covariates-changed", "permutation %d was run on other covariates", i)
            ctx.check(sorted(b) == sorted(y), "not-a-permutation", "the target of permutation %d is not a permutation of y", i)
            moved += not np.array_equal(b, y)
        ctx.check(moved > 0 or chance > CHANCE, "not-permuted", "no permutation changed the target")
        cols = list(range(X.shape[1]))
        for i, (a, b) in enumerate(trained):
            want = pristine(lambda: split_share(p, a, b, seeds[i], cols))
            for c in cols:
                ctx.check(len(out[c]) == perms, "wrong-number", "%d proportions for column %d", len(out[c]), c)
                ctx.check(abs(out[c][i] - want[c]) < 1e-12, "wrong-attribution", "proportion %d of column %d is %r, its own "
                          "model gives %r", i, c, out[c][i], want[c])
        return
    ctx.check(len(out) == count, "wrong-number", "%d values for %d models", len(out), count)
    if len(CALLS) != count:
        ctx.count("unobserved_predictions")
        return
    tested = []
    moved = 0
    for i, (a, b) in enumerate(trained):
        samples, Z, own = CALLS[i]
        rows, held = rows_of(a, X), rows_of(Z, X)
        ctx.check(None not in rows and None not in held, "foreign-rows", "value %d uses rows that are not in the data", i)
        ctx.check(np.array_equal(b, y[rows]), "unpaired-training-target", "value %d: training rows with targets of other rows", i)
        ctx.check(len(set(rows)) == len(rows) and len(set(held)) == len(held), "repeated-rows", "value %d uses rows twice", i)
        ctx.check(not set(rows) & set(held), "not-held-out", "value %d is computed on %d rows the model was trained on", i,
                  len(set(rows) & set(held)))
        ctx.check(len(rows) + len(held) == len(X), "rows-missing", "value %d: training and held-out rows are not all rows", i)
        tested.append(tuple(sorted(held)))
        for c in range(X.shape[1]):
            if what == "null_rmse" and c == v:
                both = np.concatenate([a[:, c], Z[:, c]])
                ctx.check(sorted(both) == sorted(X[:, c]), "not-a-permutation", "value %d: the assessed column is not a "
                          "permutation of itself", i)
                moved += not (np.array_equal(a[:, c], X[rows, c]) and np.array_equal(Z[:, c], X[held, c]))
            else:
                ctx.check(np.array_equal(a[:, c], X[rows, c]), "other-column-changed", "value %d: training column %d changed", i, c)
                ctx.check(np.array_equal(Z[:, c], X[held, c]), "other-column-changed", "value %d: held-out column %d changed", i, c)
        want = pristine(lambda: chains_alone(p, a, b, seeds[i]))
        parts = estim.split_chain(estim.chain_print({"model": samples, "in_sample_predictions": [], "acceptance": []}), n)
        ctx.check(parts is not None and all(parts[j]["model"] == want[j]["model"] for j in range(n)), "wrong-model",
                  "value %d is not computed with the model trained on the complementary rows", i)
        err = y[held] - mean_prediction(samples, Z, b)
        value = float(np.sqrt(np.sum(err ** 2)))
        ctx.check(abs(value - out[i]) <= 1e-8 * (1 + value), "wrong-rmse", "value %d is %r, its held-out rows with their own "
                  "targets give %r", i, float(out[i]), value)
        ctx.count("values_checked")
    if what == "null_rmse":
        same = math.lgamma(len(X) + 1) - sum(math.lgamma(c + 1) for c in np.unique(X[:, v], return_counts=True)[1])
        ctx.check(moved > 0 or -count * same > CHANCE, "not-permuted", "the assessed column was never permuted")
    per = perms if what == "null_rmse" else 1
    every = sorted(x for t in tested[::per] for x in t)
    if len(set(tested)) == folds:
        every = sorted(x for t in set(tested) for x in t)
    ctx.check(every == list(range(len(X))), "folds-incomplete", "the held-out rows of the folds are not every row exactly once")
