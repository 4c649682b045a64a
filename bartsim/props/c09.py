"""Burn-in, thinning and traces record exactly the promised iterations."""
import math

import numpy as np

from .. import conform, estim, gibbs, oracles, ref
from ..core import Injected
from .common import GIBBS_RULE as RULE, GIBBS_REAL, GIBBS_STUBS as STUBS, GIBBS_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 2000, "thorough": 20000}
REAL = GIBBS_REAL + ["bartpy.samplers.modelsampler", "bartpy.trace", "tqdm"]


def gen(r, index, tier):
    if r.random() < 0.1:
        return conform.gen(r)
    plan = gibbs.gen(r, init=0.1, faulty=0, long=0, nmax=20, large=0.0, oblivious=0.12)
    del plan["sweeps"]
    budget = max(2, int(200 / plan["n_trees"]))
    plan["n_samples"] = r.choice([0, 1, 1, 2, 3, 7, 10, 13, min(budget, 40), min(budget, 60)])
    plan["n_burn"] = r.choice([0, 0, 1, 2, 5, 11])
    plan["thin"] = r.choice([1.0, 1.0, 0.5, 0.1, 0.2, 0.25, 0.3, 0.7, 0.15, 0.9, 1.0 / 3, 1.0 / 7, 0.6, 0.01, r.uniform(0.02, 1)])
    plan["store"], plan["store_acc"] = r.random() < 0.7, r.random() < 0.7
    plan["faults"], plan["history"] = [], []
    for _ in range(r.choice([0, 0, 1, 2])):
        h = [r.randint(0, 3), r.randint(0, 2), r.choice([1.0, 0.5]), None]
        if r.random() < 0.7:
            h[3] = {"on": r.choice(["draw", "write", "step"]), "k": r.randrange(40),
                    "exc": r.choice(["KeyboardInterrupt", "OSError", "RuntimeError"])}
        plan["history"].append(h)
    plan["clock"] = [[r.randint(1, 500), r.choice([-7200.0, 1e6, 0.5])]] if r.random() < 0.3 else []
    plan["logger"] = r.choice(["default", "default", "no_model", "no_pred"])
    return plan


class Log(oracles.Observer):
    def __init__(self):
        self.reset()

    def reset(self):
        self.sweeps = []          # one entry per completed sweep
        self.cur = []
        self.accepted = 0

    def tree_pre(self, w, tree, i):
        self.shape = ref.tree_shape(tree)

    def tree_post(self, w, tree, i, r):
        self.cur.append(("T", i))
        self.tree = i
        self.accepted += 1 if ref.tree_shape(tree) != self.shape else 0
        self.leaves = dict((id(n), n) for n in ref.walk(ref.root_of(tree)) if ref.is_leaf(n))

    def leaf_post(self, w, leaf, r):
        w.ctx.check(bool(self.cur) and id(leaf) in self.leaves, "wrong-leaf", "sweep %d: a leaf was drawn twice in its tree's "
                    "turn, or out of turn", len(self.sweeps))
        del self.leaves[id(leaf)]
        self.cur.append(("L", self.tree, len(self.leaves)))

    def sigma_post(self, w, sigma, r):
        n = len(w.model.trees)
        trees = [x[1] for x in self.cur if x[0] == "T"]
        w.ctx.check(trees == list(range(n)), "sweep-order", "sweep %d sampled trees %s of %d", len(self.sweeps), trees[:30], n)
        for i in range(n):
            at = self.cur.index(("T", i))
            end = self.cur.index(("T", i + 1)) if i + 1 < n else len(self.cur)
            turn = self.cur[at + 1:end]
            w.ctx.check(bool(turn) and all(x[0] == "L" for x in turn) and turn[-1][2] == 0, "leaves-not-redrawn",
                        "sweep %d: not every leaf of tree %d was redrawn after its turn", len(self.sweeps), i)
        self.sweeps.append({"print": estim.sample_print(w.model), "pred": ref.predict_trees(w.model.trees, w.X),
                            "acc": self.accepted / float(n)})
        self.cur, self.accepted = [], 0


def run(ctx, plan):
    if plan.get("level") == "fit":
        return conform.run(ctx, plan, ("sweeps",))
    from bartpy.trace import TraceLogger
    log = Log()

    def body(w):
        cls = TraceLogger
        if plan["logger"] == "no_model":
            cls = lambda: TraceLogger(f_model_log=lambda x: None)           # noqa: E731
        elif plan["logger"] == "no_pred":
            cls = lambda: TraceLogger(f_in_sample_prediction_log=lambda x: None)     # noqa: E731
        sampler = w.model_sampler_class(w.schedule, cls)
        for k, (ns, nb, thin, fault) in enumerate(plan["history"]):
            w.sim.begin_op(k + 1)
            if fault is not None:
                w.sim.faults = [dict(fault, fired=False, task=None, op=k + 1)]
            log.reset()
            try:
                sampler.samples(w.model, ns, nb, thin, True, True)
            except BaseException as e:      # noqa
                if not isinstance(e, Injected):
                    raise
                ctx.count("interrupted_calls")
            w.sim.faults = []
        w.sim.clock_jumps = [[w.sim.step + a, b] for a, b in plan["clock"]]
        log.reset()
        n, burn, thin = plan["n_samples"], plan["n_burn"], plan["thin"]
        out = sampler.samples(w.model, n, burn, thin, plan["store"], plan["store_acc"])
        ctx.check(len(log.sweeps) == n + burn and not log.cur, "sweep-count", "%d sweeps were run for burn-in %d and %d samples",
                  len(log.sweeps), burn, n)
        check_record(ctx, plan, log.sweeps, out, w)
        ctx.state("record", n, burn, round(thin, 6), plan["store"], plan["store_acc"], plan["logger"], len(plan["history"]),
                  plan["n_trees"])
        for s in log.sweeps[-3:]:
            ctx.state(s["print"][1])
    gibbs.simulate(ctx, plan, [log], body)


def check_record(ctx, plan, sweeps, out, w):
    n, burn, thin = plan["n_samples"], plan["n_burn"], plan["thin"]
    models, preds, accs = list(out["model"]), list(out["in_sample_predictions"]), list(out["acceptance"])
    # which iterations are described
    idx = None
    if plan["logger"] != "no_model":
        idx = []
        for j, m in enumerate(models):
            pr = estim.sample_print(m)
            at = [k for k in range(len(sweeps)) if sweeps[k]["print"] == pr]
            ctx.check(bool(at), "model-of-no-iteration", "recorded model %d is not the state at the end of any iteration", j)
            idx.append(at[-1])
    elif plan["store"] and plan["logger"] != "no_pred":
        idx = []
        for j, a in enumerate(preds):
            at = [k for k in range(len(sweeps)) if oracles.close(a, sweeps[k]["pred"], 1e-10)]
            ctx.check(bool(at), "prediction-of-no-iteration", "stored prediction %d is not that of any iteration", j)
            idx.append(at[-1])
    count = len(idx) if idx is not None else (len(accs) if plan["store_acc"] else None)
    if count is not None:
        ctx.check(abs(count - n * thin) <= 1.0 + 1e-9, "record-count", "%d of %d samples recorded with thin=%r", count, n, thin)
        ctx.check((count > 0) == (n > 0), "record-count", "%d of %d samples recorded with thin=%r", count, n, thin)
    if idx:
        ctx.check(min(idx) >= burn, "burn-in-recorded", "a burn-in iteration was recorded")
        ctx.check(idx[0] == burn, "first-sample", "the first recorded iteration is %d, not the first after %d of burn-in", idx[0], burn)
        lo, hi = math.floor(1.0 / thin + 1e-9), math.ceil(1.0 / thin - 1e-9)
        gaps = [b - a for a, b in zip(idx, idx[1:])]
        ctx.check(all(lo <= g <= hi for g in gaps), "uneven-spacing", "recorded iterations %s with thin=%r", idx[:12], thin)
    if plan["logger"] == "no_model":
        ctx.check(not models, "switched-off", "%d models recorded although switched off", len(models))
    if not plan["store"] or plan["logger"] == "no_pred":
        ctx.check(not preds, "switched-off", "%d predictions recorded although switched off", len(preds))
    elif idx is not None:
        ctx.check(len(preds) == len(idx), "trace-length", "%d models but %d predictions", len(idx), len(preds))
        for j, k in enumerate(idx):
            ctx.check(oracles.close(preds[j], sweeps[k]["pred"]), "prediction-of-other-iteration", "stored prediction %d does "
                      "not describe the iteration of recorded model %d (%s)", j, j, oracles.worst(preds[j], sweeps[k]["pred"]))
    if not plan["store_acc"]:
        ctx.check(not accs, "switched-off", "%d acceptance records although switched off", len(accs))
    elif idx is not None:
        ctx.check(len(accs) == len(idx), "trace-length", "%d models but %d acceptance records", len(idx), len(accs))
        for j, k in enumerate(idx):
            got = accs[j].get("Tree")
            ctx.check(got is not None and abs(float(got) - sweeps[k]["acc"]) < 1e-12, "acceptance-of-other-iteration",
                      "acceptance record %d says %s; %r of the trees moved in that iteration", j, got, sweeps[k]["acc"])
