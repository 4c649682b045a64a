"""Every chain starts from the trees its initializer promises."""
import numpy as np

from .. import datasets, estim, oracles, ref
from ..core import Injected
from ..sim import Sim
from .common import EST_REAL, EST_STUBS, EST_ASSUMES, GIBBS_ASSUMES   # noqa: F401

RUNS = {"quick": 1000, "thorough": 12000}
REAL = EST_REAL + ["bartpy.initializers.sklearntreeinitializer", "scikit-learn's boosting"]
STUBS = EST_STUBS
ASSUMES = EST_ASSUMES + [
    "scikit-learn works in single precision and takes values closer than about 1e-7 as equal: in most runs the covariates are exact in "
    "single precision, in the others only structure, thresholds and depth are judged, not optimality and leaf values"]
RULE = ("A run builds models (some constructions interrupted at a random draw) or fits estimators with simulated workers, after other "
        "fits, with failures and refits on other data, and judges the trees of every chain before its first step. "
        "distinct_nontrivial counts distinct (data set, limits, initial trees) with at least one split.")

SEEN = []


class FirstLook:
    """A tree sampler that notes the state of a model the first time it is asked to sample one of its trees."""

    def __init__(self, inner):
        self.inner, self.last = inner, None

    def __getstate__(self):
        return {"inner": self.inner, "last": None}

    def step(self, model, tree):
        if self.last is not model:
            self.last = model
            if not any(m is model for m, _ in SEEN):
                SEEN.append((model, [ref.tree_shape(t) for t in model.trees]))
        return self.inner.step(model, tree)

    def sample(self, model, tree):
        return self.inner.sample(model, tree)


def gen(r, index, tier):
    limits = [r.randint(1, 5), r.choice([2, 2, 2, 3, 5, 9])] if r.random() < 0.88 else None
    plan = {"sets": [datasets.gen(r, nmin=1, nmax=r.choice([8, 25, 60]), pmax=4, hard=r.random() < 0.4) for _ in range(2)],
            "exact": r.random() < 0.85, "limits": limits, "seed": r.randrange(1 << 30)}
    if r.random() < 0.5:
        plan.update(level="model", n_trees=r.choice([1, 2, 3, 5, 10]), ops=[
            [r.choice(["build", "build", "sample", "interrupted"]), r.randrange(2), r.randrange(1 << 20)] for _ in range(r.randint(1, 4))])
    else:
        plan.update(level="estimator", params=estim.gen_params(r, big=0.03), world=estim.gen_world(r, ("isolated", "isolated", "threads", "serial")),
                    ops=[[r.choice(["fit", "fit", "fit", "fail", "pickle", "clone"]), r.randrange(2), r.randrange(1 << 20)]
                         for _ in range(r.randint(1, 4))])
    return plan


def data_of(plan, which):
    X, y = datasets.arrays(plan["sets"][which])
    if plan["exact"]:
        X = X.astype(np.float32).astype(float)
    return X, y


def initializer(plan):
    from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
    if plan["limits"] is None:
        return None
    return SklearnTreeInitializer(max_depth=plan["limits"][0], min_samples_split=plan["limits"][1])


# ------------------------------------------------------------------------------------------------- judging

def gain(t, left):
    """How much a split of these target values explains."""
    n, k = len(t), int(left.sum())
    return k * (n - k) / n * (t[left].mean() - t[~left].mean()) ** 2


def best_gain(X, t):
    """Over the splits that scikit-learn surely sees; None if there are none."""
    best = None
    for j in range(X.shape[1]):
        c = X[:, j]
        values = np.unique(c)
        for a, b in zip(values, values[1:]):
            if b - a > 1e-6 * max(1.0, abs(a), abs(b)):
                g = gain(t, c <= a)
                best = g if best is None else max(best, g)
    return best


def judge(ctx, plan, shapes, X, y, label):
    yn, limits = datasets.normalized(y), plan["limits"]
    left_over = yn.copy()
    for i, root in enumerate(shapes):
        where = "%s, tree %d" % (label, i)
        target = left_over.copy()
        mean = float(target.mean())
        if limits is None:
            ctx.check(root[0] == "L" and root[2] == 0.0, "not-empty", "%s: without initializer a tree starts as %r", where, root[:3])
            continue
        stack = [(root, np.ones(len(X), dtype=bool), 0)]
        while stack:
            node, rows, depth = stack.pop()
            k, t = int(rows.sum()), target[rows]
            ctx.check(node[1] == depth, "wrong-depth", "%s: a node at depth %d says %d", where, depth, node[1])
            if node[0] == "D":
                v, cut = node[2], node[3]
                ctx.check(depth < limits[0], "too-deep", "%s: a split at depth %d with a maximum depth of %d", where, depth, limits[0])
                ctx.check(k >= limits[1] or not plan["exact"], "too-small", "%s: a split of %d rows, at least %d are asked for", where, k, limits[1])
                left = X[:, v] <= cut
                ctx.check((rows & left).any() and (rows & ~left).any(), "empty-child", "%s: a split leaves a side empty", where)
                ctx.check(bool(np.any(X[rows, v] == cut)), "foreign-threshold", "%s: the threshold %r is no value of the node's rows", where, cut)
                if plan["exact"]:
                    best, got = best_gain(X[rows], t), gain(t, left[rows])
                    if best is not None and best > 1e-9:
                        ctx.check(got >= best * (1 - 1e-6), "not-the-best-split", "%s: a split of column %d explains %r, the best one %r",
                                  where, v, got, best)
                        ctx.count("splits_judged")
                stack.append((node[4], rows & left, depth + 1))
                stack.append((node[5], rows & ~left, depth + 1))
            else:
                if plan["exact"]:
                    want = float(t.mean()) - mean
                    ctx.check(abs(node[2] - want) <= 1e-7, "wrong-value", "%s: a leaf has value %r, the mean of its rows is %r above "
                              "the mean", where, node[2], want)
                    ctx.count("leaves_judged")
                    if depth < limits[0] and k >= limits[1] and t.var() > 1e-9:
                        best = best_gain(X[rows], t)
                        ctx.check(best is None or best < 1e-9, "not-split", "%s: a leaf of %d rows at depth %d was not split, a split explains %r", where,
                                  k, depth, best)
                left_over[rows] -= node[2]
    ctx.event(label, shapes)
    ctx.count("models_judged")
    if any(s[0] == "D" for s in shapes):
        ctx.state(plan["sets"][0]["seed"], limits, shapes)


# ------------------------------------------------------------------------------------------------- running

def run(ctx, plan):
    del SEEN[:]
    try:
        (run_model if plan["level"] == "model" else run_estimator)(ctx, plan)
    finally:
        del SEEN[:]


def run_model(ctx, plan):
    from bartpy.data import Data
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    init = initializer(plan)
    with Sim(ctx, main_seed=plan["seed"], max_draws=2000000) as sim:
        for k, (what, which, s) in enumerate(plan["ops"]):
            sim.begin_op(k)
            X, y = data_of(plan, which)

            def build():
                data = Data(X.copy(), y.copy(), normalize=True)
                return Model(data, Sigma(0.001, 0.001, data.y.normalizing_scale), n_trees=plan["n_trees"], initializer=init)
            if what == "interrupted":
                sim.faults = [{"on": "draw", "k": s % 7, "task": None, "op": k, "fired": False,
                               "exc": ["KeyboardInterrupt", "MemoryError", "RuntimeError"][s % 3]}]
                try:
                    build()
                    ctx.count("not_interrupted")
                except BaseException as e:      # noqa
                    if not isinstance(e, Injected):
                        raise
                sim.faults = []
                continue
            m = build()
            shapes = [ref.tree_shape(t) for t in m.trees]
            judge(ctx, plan, shapes, X, y, "%s of set %d" % (what, which))
            for t in m.trees:
                oracles.check_tree(ctx, t, X, "initial tree")
            total = ref.predict_trees(m.trees, X)
            ctx.check(oracles.close(m.predict(), total), "stale-prediction", "the initial model predicts other values than its leaves have: %s",
                      oracles.worst(m.predict(), total))
            if what == "sample":
                from bartpy.samplers.leafnode import LeafNodeSampler
                from bartpy.samplers.schedule import SampleSchedule
                from bartpy.samplers.sigma import SigmaSampler
                from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
                look = FirstLook(get_tree_sampler(0.5, 0.5))
                for _, step in SampleSchedule(look, LeafNodeSampler(), SigmaSampler()).steps(m):
                    step()
                ctx.check(SEEN[-1][1] == shapes, "changed-before-sampling", "the initial trees changed before they were sampled")


def run_estimator(ctx, plan):
    from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    p, w = dict(plan["params"], init=None), estim.world_of(plan)
    if w["mode"] == "serial":
        p["n_jobs"] = 1
    sets, failed = [data_of(plan, 0), data_of(plan, 1)], False
    with estim.open_sim(ctx, w) as sim, estim.backend(w["mode"]):
        est = estim.make(p, tree_sampler=FirstLook(get_tree_sampler(0.5, 0.5)), initializer=initializer(plan))
        for k, (what, which, s) in enumerate(plan["ops"]):
            sim.begin_op(k)
            if what in ("pickle", "clone"):
                est = estim.clone_of(est, what)
                continue
            X, y = sets[which]
            start = len(SEEN)
            if what == "fail":
                task = "chain%d" % (s % p["n_chains"]) if w["mode"] != "serial" else "main"
                sim.faults = [{"on": "draw", "k": s % 37, "task": task, "op": k, "fired": False,
                               "exc": ["RuntimeError", "KeyboardInterrupt", "MemoryError"][s % 3]}]
            try:
                est.fit(X.copy(), y.copy())
                ctx.check(len(SEEN) - start == p["n_chains"] or failed, "chains-differ", "%d models were sampled for %d chains", len(SEEN) - start,
                          p["n_chains"])
            except BaseException as e:      # noqa
                if not isinstance(e, Injected) and not sim.fired():
                    raise
                ctx.count("failed_fits")
                failed = True       # abandoned chains may go on for a while
                sim.drain(20)
            sim.faults = []
            for c, (m, shapes) in enumerate(SEEN[start:]):
                mine = [d for d in sets if np.array_equal(np.asarray(m.data.X.values, dtype=float), d[0])
                        and oracles.close(m.data.y.values, datasets.normalized(d[1]))]
                if not mine and failed:
                    continue
                ctx.check(mine, "other-data", "op %d (%s) chain %d was run on other data", k, what, c)
                if not failed:
                    ctx.check(any(d[0] is X for d in mine), "other-data", "op %d (%s) chain %d was run on other data", k, what, c)
                X, y = mine[0]
                judge(ctx, plan, shapes, X, y, "op %d (%s) chain %d" % (k, what, c))
                ctx.check(len(shapes) == p["n_trees"], "wrong-number", "a chain has %d trees, %d were asked for", len(shapes), p["n_trees"])
        ctx.event(len(SEEN))
