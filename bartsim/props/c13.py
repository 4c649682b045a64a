"""Sampling always makes progress."""
import math

import numpy as np

from .. import datasets, estim, gibbs, oracles, ref
from .common import GIBBS_RULE, GIBBS_REAL, EST_REAL, EST_STUBS, GIBBS_ASSUMES, EST_ASSUMES   # noqa: F401

RUNS = {"quick": 2000, "thorough": 25000}
RULE = GIBBS_RULE + (" Data sets are mostly degenerate: one row, constant targets, constant, duplicated or very skewed columns. "
                     "A quarter of the runs fit whole estimators with simulated workers instead.")
REAL = GIBBS_REAL + EST_REAL
STUBS = EST_STUBS
ASSUMES = GIBBS_ASSUMES + EST_ASSUMES + [
    "a step may use 5000 + 100 draws per row before it counts as stuck (drawing thresholds by rejection exceeds that with "
    "probability below 1e-40), a legal kind of move of probability p must be proposed within 60/p proposals (1e-26)"]

HARD = ["const", "const", "dup", "skew", "skewlow", "binary", "int3", "twins", "first", "last", "normal", "bigint", "scaled",
        "adjacent", "faroff"]


def hard_data(r):
    d = datasets.gen(r, nmin=1, nmax=30, pmax=4, hard=True, cols=HARD, big=0.1)
    u = r.random()
    if u < 0.12:
        d["n"] = 1
    elif u < 0.2:
        d["n"] = 2
    if r.random() < 0.15:
        d["cols"] = ["const"] * r.randint(1, 3)
    if r.random() < 0.06:
        d["y"] = r.choice(["vast", "minute"])
    if r.random() < 0.06:
        d["cols"][r.randrange(len(d["cols"]))] = r.choice(["vast", "minute"])
    return d


def single_precision(d):
    """Whether scikit-learn's trees, which the initializer uses, take such covariates."""
    return "vast" not in d["cols"]


def gen(r, index, tier):
    if r.random() < 0.25:
        d, p = hard_data(r), estim.gen_params(r, init=0.25)
        if not single_precision(d):
            p["init"] = None
        return {"level": "estimator", "data": d, "params": p,
                "world": estim.gen_world(r, ("isolated", "isolated", "threads", "serial")),
                "form": r.choice(["array", "frame", "small", "flags", "ints"])}
    plan = gibbs.gen(r, init=0.2, hard=True, nmin=1, steps=120, long=0.01, oblivious=0.0)
    plan["level"] = "model"
    plan["data"] = hard_data(r)
    if r.random() < 0.015:
        plan["data"]["n"], plan["sweeps"] = r.randint(300, 2500), 4
    if not single_precision(plan["data"]):
        plan["init"] = None
    plan["p_grow"] = r.choice([0.5, 0.5, 0.3, 0.9, 0.05, 0.01, 0.99])
    plan["u"] = r.choice(["accept", "mixed", "real"])
    return plan


class Progress(oracles.Observer):
    def attach(self, w):
        n = len(w.X)
        self.limit = 5000 + 100 * n
        self.acted = False

    def tree_pre(self, w, tree, i):
        self.start = w.sim.draws
        w.sim.max_draws = w.sim.draws + self.limit
        self.ns, self.npr = ref.tree_counts(ref.root_of(tree), w.X)
        self.shape = ref.tree_shape(tree)
        self.sigma = float(w.model.sigma.current_value())
        self.probing = False
        if w.rng.random() < 0.08:
            self.probe(w, tree, i)
            w.sim.max_draws = w.sim.draws + self.limit

    def probe(self, w, tree, i):
        """Every legal kind of move can be proposed, and with the smallest possible uniform draw is accepted."""
        kinds = ([("grow", w.p[0])] if self.ns else []) + ([("prune", w.p[1])] if self.npr else [])
        if len(kinds) == 1:
            kinds = [(kinds[0][0], 1.0)]
        for kind, p in kinds:
            tries = int(math.ceil(60.0 / p))
            found = False
            for _ in range(tries):
                w.sim.max_draws = w.sim.draws + self.limit
                m = w.proposer.propose(tree)
                w.ctx.check(m is not None, "no-move-found", "no move was proposed although %d leaves can be split and %d splits "
                            "pruned", self.ns, self.npr)
                if m.kind == kind:
                    found = True
                    break
            w.ctx.check(found, "kind-never-proposed", "%s was not proposed in %d proposals, its probability being %r", kind,
                        tries, p)
            w.ctx.count("kinds_probed")
            R = self.ratio(w, tree, i, m)
            got = float(w.likelihood.log_probability_ratio(w.model, tree, m))
            if R > -700:
                w.ctx.check(got > math.log(5e-324), "never-acceptable", "a legal %s has log acceptance ratio %r, by the "
                            "posterior %r", kind, got, R)
                w.ctx.count("acceptable_moves")
            w.ctx.check(not math.isnan(got), "ratio-is-nan", "the log acceptance ratio of a legal %s is not a number", kind)

    @staticmethod
    def ratio(w, tree, i, m):
        rule = ref.rule_of(m.updated_node if m.kind == "grow" else m.existing_node)
        return ref.log_accept_ratio(ref.root_of(tree), w.X, w.target_for(i), m.existing_node, m.kind, rule,
                                    float(w.model.sigma.current_value()), w.sd(), w.plan["alpha"], w.plan["beta"], *w.p)

    def proposed(self, w, tree, p):
        if self.ns + self.npr == 0:
            w.ctx.check(p is None, "move-from-nothing", "a move was proposed although none is possible")
            w.ctx.count("no_move_possible")
        else:
            w.ctx.check(p is not None, "no-move-found", "no move was proposed although %d leaves can be split and %d splits pruned",
                        self.ns, self.npr)

    def tree_post(self, w, tree, i, r):
        if self.ns + self.npr == 0:
            w.ctx.check(r is None and ref.tree_shape(tree) == self.shape, "tree-changed", "no move is possible, yet the tree changed")
        w.sim.max_draws = w.sim.draws + self.limit

    def leaf_post(self, w, leaf, r):
        w.ctx.check(math.isfinite(float(leaf.current_value)), "not-finite", "a leaf value is %r", leaf.current_value)
        w.sim.max_draws = w.sim.draws + self.limit

    def sigma_post(self, w, sigma, r):
        v = float(sigma.current_value())
        w.ctx.check(math.isfinite(v) and v > 0, "not-finite", "sigma is %r", v)

    def sweep_end(self, w):
        w.ctx.check(bool(np.isfinite(w.model.predict()).all()), "not-finite", "the model's predictions are not finite")
        w.ctx.state("hard", w.plan["data"]["seed"], self.ns, self.npr)


def run(ctx, plan):
    if plan["level"] == "model":
        gibbs.simulate(ctx, plan, [Progress()])
        return
    p, w, d = dict(plan["params"]), plan["world"], plan["data"]
    if w["mode"] == "serial":
        p["n_jobs"] = 1
    X, y = datasets.arrays(d)
    with estim.open_sim(ctx, w, max_draws=400000 + 40000 * len(X)) as sim, estim.backend(w["mode"]):
        est = estim.make(p)
        A = datasets.in_form(X, plan["form"])
        est.fit(A, datasets.target_in(A, y))
        probes = datasets.probes(X, w["seed"], 12)
        got = [est.predict(probes), est.predict(datasets.in_form(X, plan["form"]))]
        if p["store"]:
            got += [est.predict(), est.residuals()]
        for a in got:
            ctx.check(bool(np.isfinite(np.asarray(a, dtype=float)).all()), "not-finite", "a prediction is not finite")
        ctx.check(len(est.model_samples) > 0, "nothing-recorded", "no samples")
        if np.ptp(y) == 0:
            ctx.check(oracles.close(got[0], np.full(len(probes), float(y[0]))), "constant-target", "a constant target %r is "
                      "predicted as %r", float(y[0]), float(got[0][0]))
        ctx.state("fit", w["mode"], d["seed"], len(X), p["n_chains"])
