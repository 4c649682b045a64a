"""Recorded posterior samples are immutable snapshots."""
import copy
import pickle

import numpy as np

from .. import datasets, estim, gibbs, oracles, ref
from ..core import Injected
from .common import GIBBS_RULE, GIBBS_REAL, EST_REAL, EST_STUBS, EST_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 1200, "thorough": 20000}
RULE = GIBBS_RULE + " A third of the runs record through whole estimator fits with simulated workers instead."
REAL = GIBBS_REAL + ["bartpy.trace"] + EST_REAL
STUBS = EST_STUBS


def gen(r, index, tier):
    if r.random() < 0.3:
        ops = []
        for _ in range(r.randint(1, 4)):
            ops.append([r.choice(["refit", "refit", "failing_refit", "predict", "copy", "mutate_data", "other_fit"]),
                        r.randrange(1 << 20)])
        return {"level": "estimator", "data": datasets.gen(r, nmin=3, nmax=20, pmax=3), "params": estim.gen_params(r),
                "data2": datasets.gen(r, nmin=3, nmax=20, pmax=3), "world": estim.gen_world(r), "ops": ops,
                "form": r.choice(["array", "array", "frame", "small", "readonly"])}
    plan = gibbs.gen(r, init=0.15, steps=160, long=0, large=0.005, oblivious=0.08)
    plan["level"] = "model"
    plan["via"] = r.choice(["logger", "samples", "copy"])
    plan["keep"] = r.choice([0.2, 0.6, 1.0])
    return plan


def full(rec, probes):
    out = ref.model_print(rec, probes)
    out["regions"] = [ref.regions(t, probes) if hasattr(t.nodes[0].split, "condition") else None for t in rec.trees]
    return out


def ids(model):
    out = set()
    for t in model.trees:
        for n in t.nodes:
            out.add(id(n))
            for c in (n.left_child, n.right_child):
                if c is not None:
                    for x in ref.walk(c):
                        out.add(id(x))
    return out


class Keeper(oracles.Observer):
    def __init__(self, plan):
        self.plan = plan
        self.kept = []

    def attach(self, w):
        from bartpy.trace import TraceLogger
        self.logger = TraceLogger()
        self.probes = np.vstack([datasets.probes(w.X, w.plan["seed"], 12), w.X[:10]])

    def sweep_end(self, w):
        if w.rng.random() < self.plan["keep"]:
            self.keep(w, self.logger["Model"](w.model) if self.plan["via"] != "copy" else self.by_copy(w))
        if self.kept and w.rng.random() < 0.3:
            self.verify(w, w.rng.choice(self.kept), "after sweep %d" % w.sweeps)

    @staticmethod
    def by_copy(w):
        from bartpy.model import deep_copy_model
        return deep_copy_model(w.model)

    def keep(self, w, rec):
        live = w.model
        want = {"sigma": float(live.sigma.current_value()), "links": [ref.tree_shape(t) for t in live.trees],
                "list": [ref.listing(t) for t in live.trees]}
        got = ref.model_print(rec)
        for k in want:
            w.ctx.check(got[k] == want[k], "snapshot-differs", "a sample recorded at sweep %d differs from the model in its %s",
                        w.sweeps, k)
        pred, now = rec.predict(self.probes), ref.predict_trees(live.trees, self.probes)
        w.ctx.check(oracles.close(pred, now), "snapshot-predicts-otherwise", "a recorded sample predicts otherwise than the "
                    "model (%s)", oracles.worst(pred, now))
        self.kept.append((rec, full(rec, self.probes), w.sweeps))
        self.foreign(w, rec)
        w.ctx.count("samples_recorded")

    def foreign(self, w, rec):
        common = ids(rec) & ids(w.model)
        w.ctx.check(not common, "refers-to-live-node", "a recorded sample refers to %d nodes of the live model", len(common))

    def verify(self, w, item, when):
        rec, want, at = item
        got = full(rec, self.probes)
        for k in want:
            w.ctx.check(got[k] == want[k], "snapshot-changed", "the %s of the sample recorded at sweep %d changed %s",
                        {"links": "structure or values (by links)", "list": "nodes (by list)", "pred": "predictions",
                         "regions": "leaf regions", "sigma": "sigma"}[k], at, when)
        self.foreign(w, rec)
        for i, t in enumerate(rec.trees):
            r = ref.root_of(t)
            w.ctx.check(r is not None and set(id(n) for n in ref.walk(r)) == set(id(n) for n in t.nodes),
                        "list-differs-from-links", "recorded tree %d: node list and links disagree", i)

    def finish(self, w):
        for item in self.kept:
            self.verify(w, item, "by the end")
        for rec, want, at in self.kept[:6]:
            for how, twin in (("pickle", pickle.loads(pickle.dumps(rec))), ("copy", copy.deepcopy(rec))):
                got = full(twin, self.probes)
                for k in want:
                    w.ctx.check(got[k] == want[k], "copy-differs", "%s of a recorded sample differs after a trip through %s",
                                k, how)
                for t in twin.trees:
                    r = ref.root_of(t)
                    w.ctx.check(r is not None and set(id(n) for n in ref.walk(r)) == set(id(n) for n in t.nodes),
                                "copy-list-differs-from-links", "after %s node list and links disagree", how)


def run(ctx, plan):
    if plan["level"] == "estimator":
        return run_estimator(ctx, plan)
    keeper = Keeper(plan)

    def body(w):
        w.run()
        if plan["via"] == "samples":
            # recorded by the sampler itself, while it goes on
            states = []

            class Log(oracles.Observer):
                def sigma_post(self, w, sigma, r):
                    states.append(estim.sample_print(w.model))
            w.observers.append(Log())
            sampler = w.model_sampler_class(w.schedule)
            try:
                out = sampler.samples(w.model, 6, 1, 1.0, True, True)
            except BaseException as e:      # noqa
                if not isinstance(e, Injected):
                    raise
                return keeper.finish(w)
            before = [full(m, keeper.probes) for m in out["model"]]
            preds = [np.array(p, copy=True) for p in out["in_sample_predictions"]]
            for i, m in enumerate(out["model"]):
                ctx.check(estim.sample_print(m) == states[1 + i], "snapshot-differs",
                          "recorded sample %d differs from the model at that iteration", i)
            for _ in range(3):
                w.guarded_sweep()
            for i, m in enumerate(out["model"]):
                keeper.verify(w, (m, before[i], i), "while sampling went on")
                ctx.check(np.array_equal(preds[i], out["in_sample_predictions"][i]), "stored-prediction-changed",
                          "the stored in-sample prediction %d changed while sampling went on", i)
        w.X[:] = -1.0
        w.y[:] = -1
        keeper.finish(w)
    gibbs.simulate(ctx, plan, [keeper], body)


def run_estimator(ctx, plan):
    p, w = plan["params"], estim.world_of(plan)
    X, y = datasets.arrays(plan["data"])
    X2, y2 = datasets.arrays(plan["data2"])
    probes = datasets.probes(X, w["seed"], 10)
    with estim.open_sim(ctx, w, max_steps=3000000) as sim, estim.backend(w["mode"]):
        est = estim.make(p)
        sim.begin_op(0)
        Xf = datasets.in_form(X, plan["form"])
        yf = datasets.target_in(Xf, y)
        est.fit(Xf, yf)
        kept = list(est.model_samples)
        preds = [np.array(a, copy=True) for a in est.prediction_samples]
        held = list(est.prediction_samples)
        want = [full(m, probes) for m in kept]
        others = []
        for k, (op, s) in enumerate(plan["ops"]):
            sim.begin_op(k + 1)
            if op == "refit":
                est.fit(X2.copy(), y2.copy())
            elif op == "failing_refit":
                sim.faults.append({"on": "draw", "k": s % 60, "task": None, "op": k + 1, "exc": "RuntimeError", "fired": False})
                try:
                    est.fit(X2.copy(), y2.copy())
                except Exception as e:      # noqa
                    if not isinstance(e, Injected):
                        raise
                sim.faults = []
            elif op == "predict":
                est.predict(datasets.probes(np.asarray(est.data.X.values), s, 5))
            elif op == "copy":
                others.append(estim.clone_of(est, ["deepcopy", "pickle", "clone", "copy"][s % 4]))
                if s % 3 == 0:
                    others[-1].fit(X2.copy(), y2.copy())
            elif op == "mutate_data":
                datasets.overwrite(Xf, 3.25)
                datasets.overwrite(yf, 1)
            elif op == "other_fit":
                others.append(estim.make(p))
                others[-1].fit(X.copy(), y.copy())
            for i, m in enumerate(kept):
                got = full(m, probes)
                for key in want[i]:
                    ctx.check(got[key] == want[i][key], "snapshot-changed", "%s of recorded sample %d changed by %s", key, i, op)
            for i, a in enumerate(held):
                ctx.check(np.array_equal(a, preds[i]), "stored-prediction-changed", "stored prediction %d changed by %s", i, op)
        seen = set()
        for i, m in enumerate(kept):
            seen |= ids(m)
        if est.model is not None:
            ctx.check(not (ids(est.model) & seen), "refers-to-live-node", "a recorded sample refers to the estimator's live model")
        ctx.state(w["mode"], [o[0] for o in plan["ops"]], p["n_chains"], len(sim.schedule.made))
        ctx.count("samples_recorded", len(kept))
