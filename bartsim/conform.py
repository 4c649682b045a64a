"""
Whole fits watched from inside: a tree sampler handed to the estimator looks at the chain's model before every tree step
and judges, against the parameters the estimator reports, what the library's public samplers would do in that state and
what the chain did since the last look.
"""
import numpy as np

from . import datasets, estim, oracles, ref
from .core import Injected, Violation, rnd

WATCHED = {}
RARE = 1e-10


def excess(total, variance):
    """How unlikely (at most) a sum of centred 0/1 outcomes with this total variance is (Freedman's bound)."""
    t = abs(total)
    return 2.0 * float(np.exp(-t * t / (2.0 * (variance + t / 3.0)))) if t > 0 else 1.0


class Fixed:
    """A source of one standard normal value."""

    def __init__(self, z):
        self.z = z

    def sample(self):
        return self.z


class Capture:
    """A proposer that reports its proposals."""

    def __init__(self, key, inner):
        self.key, self.inner = key, inner

    def __getattr__(self, name):
        if name in ("inner", "key"):
            raise AttributeError(name)
        return getattr(self.inner, name)

    def propose(self, tree):
        m = self.inner.propose(tree)
        WATCHED[self.key].proposed(tree, m)
        return m


class Watch:
    """The tree sampler given to the estimator. Copies of it report to the same place."""

    def __init__(self, key, inner):
        self.key, self.inner = key, inner
        if hasattr(inner, "proposer"):
            inner.proposer = Capture(key, inner.proposer)

    def step(self, model, tree):
        w = WATCHED[self.key]
        w.before(model, tree, getattr(self.inner, "likihood_ratio", None))
        r = self.inner.step(model, tree)
        w.after(model, tree, r)
        return r

    def sample(self, model, tree):
        return self.inner.sample(model, tree)


class ChainLog:
    def __init__(self, model):
        self.model, self.next, self.sweeps, self.prev = model, 0, 0, None
        self.z, self.u, self.acc, self.kinds = [], [], [], []
        self.ratio = None


class Watched:
    """What the chains of one fit did."""

    def __init__(self, ctx, key, seed, parts):
        self.ctx, self.key, self.parts = ctx, key, set(parts)
        self.rng = rnd("conform", seed)
        self.chains, self.problem, self.p = [], None, None
        WATCHED[key] = self

    def expect(self, p, X, y):
        """The next fit is to use these parameters and data."""
        self.p, self.X, self.yn = p, X, datasets.normalized(y)
        self.chains, self.problem = [], None
        grow = 0.5 if p["p_grow"] is None else p["p_grow"]
        self.grow = [grow, 1.0 - grow]
        self.sd = 0.5 / (2.0 * np.sqrt(p["n_trees"]))

    def sampler(self, p):
        from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
        grow = 0.5 if p["p_grow"] is None else p["p_grow"]
        return Watch(self.key, get_tree_sampler(grow, 1.0 - grow))

    def check(self, part, ok, kind, message, *args):
        if part in self.parts:
            self.ctx.check(ok, kind, message, *args)

    def guarded(self, f):
        """Violations are kept until the fit is over: the library must not see them."""
        if self.problem is None:
            try:
                f()
            except Violation as e:
                self.problem = e

    def log_of(self, model):
        for c in self.chains:
            if c.model is model:
                return c
        self.chains.append(ChainLog(model))
        return self.chains[-1]

    # ---- what the chain does
    def before(self, model, tree, likelihood):
        self.guarded(lambda: self._before(self.log_of(model), model, tree, likelihood))

    def _before(self, c, model, tree, likelihood):
        X, n = self.X, len(model.trees)
        at = [i for i, t in enumerate(model.trees) if t is tree]
        self.check("sweeps", len(at) == 1, "foreign-tree", "a chain samples a tree that is not its model's")
        self.check("sweeps", n == self.p["n_trees"], "wrong-number", "a chain has %d trees, the estimator says %d", n, self.p["n_trees"])
        i = at[0]
        self.check("sweeps", i == c.next, "sweep-order", "tree %d of %d was sampled when it was tree %d's turn", i, n, c.next)
        c.next = (i + 1) % n
        c.sweeps += 1 if i == 0 else 0
        if c.sweeps == 1 and i == 0:
            self.check("sweeps", np.array_equal(np.asarray(model.data.X.values, dtype=float), X)
                       and np.allclose(model.data.y.values, self.yn, rtol=1e-9, atol=1e-9), "other-data", "a chain samples other data")
        preds = [ref.predict_tree(t, X) for t in model.trees]
        total = np.sum(preds, axis=0)
        sigma = float(model.sigma.current_value())
        if c.prev is not None:
            j, s = c.prev
            target = self.yn - (total - preds[j])
            for node, rows in ref.rows_by_node(ref.root_of(model.trees[j]), X):
                if ref.is_leaf(node):
                    mean, std = self.leaf_posterior(target[rows], s)
                    z = (float(node.current_value) - mean) / std
                    self.check("leaf", abs(z) < 9, "leaf-posterior-range", "a chain of the fit gave a leaf the value %r, %.1f posterior "
                               "standard deviations from the posterior mean %r", float(node.current_value), abs(z), mean)
                    c.z.append(z)
            if i == 0:
                from scipy import stats
                a, b = self.sigma_posterior(self.yn - total)
                c.u.append(float(stats.gamma.cdf(sigma ** -2.0, a, scale=1.0 / b)))
        c.prev = (i, sigma)
        c.target, c.likelihood, c.ratio, c.tree = self.yn - (total - preds[i]), likelihood, None, tree
        if self.rng.random() < 0.2:
            self.look(c, model, tree, total if i == 0 else None)

    def leaf_posterior(self, r, sigma):
        s2, t2, n = sigma ** 2, self.sd ** 2, len(r)
        return float(np.sum(r)) * t2 / (s2 + n * t2), float(np.sqrt(s2 * t2 / (s2 + n * t2)))

    def sigma_posterior(self, res):
        return self.p["sigma_a"] + len(res) / 2.0, self.p["sigma_b"] + 0.5 * float(np.sum(res ** 2))

    def look(self, c, model, tree, total):
        """What the library's samplers would draw from in this state of the chain."""
        from bartpy.samplers.leafnode import LeafNodeSampler
        from bartpy.samplers.sigma import SigmaSampler
        from . import sim as S
        if "leaf" in self.parts:
            node, rows = self.rng.choice([(nd, rw) for nd, rw in ref.rows_by_node(ref.root_of(tree), self.X) if ref.is_leaf(nd)])
            mean, std = self.leaf_posterior(c.target[rows], float(model.sigma.current_value()))
            got = [float(LeafNodeSampler(Fixed(z)).sample(model, node)) for z in (0.0, 1.0)]
            tol = 1e-7 * (abs(mean) + std) + 1e-11
            self.check("leaf", abs(got[0] - mean) <= tol and abs(abs(got[1] - got[0]) - std) <= tol, "leaf-posterior", "in a chain of "
                       "the fit a leaf is drawn around %r with standard deviation %r, the estimator's parameters give %r and %r",
                       got[0], abs(got[1] - got[0]), mean, std)
            self.ctx.count("leaf_posteriors_compared")
        if "sigma" in self.parts and total is not None:
            a, b = self.sigma_posterior(self.yn - total)
            keep, old = S.get_state(), float(model.sigma.current_value())
            rs = np.random.RandomState()
            rs.set_state(keep)
            want = float(np.power(rs.gamma(a, 1.0 / b), -0.5))
            got = float(SigmaSampler().sample(model, model.sigma))
            if abs(got - want) > 1e-9 * want:
                from scipy import stats
                r2, draws = np.random.RandomState(12345), []
                for _ in range(2000):
                    S.set_state(np.random.RandomState(r2.randint(2 ** 31)).get_state(legacy=False))
                    draws.append(float(SigmaSampler().sample(model, model.sigma)) ** -2.0)
                    model.sigma.set_value(old)
                q = float(stats.kstest(draws, stats.gamma(a, scale=1.0 / b).cdf).pvalue)
                S.set_state(keep)
                self.check("sigma", q > RARE, "sigma-posterior", "in a chain of the fit sigma is not drawn from the posterior that the "
                           "estimator's parameters give (shape %r, rate %r): p=%.2g", a, b, q)
            S.set_state(keep)
            model.sigma.set_value(old)
            self.ctx.count("sigma_posteriors_compared")

    def proposed(self, tree, m):
        for c in self.chains:
            if getattr(c, "tree", None) is tree:
                self.guarded(lambda: self._proposed(c, tree, m))
                return

    def _proposed(self, c, tree, m):
        c.ratio = None
        if m is None:
            return
        root, p = ref.root_of(tree), self.p
        ns, npr = ref.tree_counts(root, self.X)
        if ns and npr:
            c.kinds.append(m.kind == "grow")
        rule = ref.rule_of(m.updated_node if m.kind == "grow" else m.existing_node)
        sigma = float(c.model.sigma.current_value())
        R = ref.log_accept_ratio(root, self.X, c.target, m.existing_node, m.kind, rule, sigma, self.sd, p["alpha"], p["beta"], *self.grow)
        self.check("ratio", R is not None, "foreign-node", "a proposal changes a node outside the tree")
        c.ratio = R
        if c.likelihood is not None:
            got = float(c.likelihood.log_probability_ratio(c.model, tree, m))
            tol = 1e-6 * (1.0 + abs(R) + 1e-6 * float(np.sum(c.target ** 2)) / sigma ** 2)
            self.check("ratio", abs(got - R) <= tol, "wrong-log-ratio", "in a chain of the fit a %s at depth %d has log ratio %r, the "
                       "estimator's parameters give %r", m.kind, m.existing_node.depth, got, R)
            self.ctx.count("ratios_compared")

    def after(self, model, tree, r):
        c = self.log_of(model)
        if c.ratio is not None:
            c.acc.append((float(np.exp(min(0.0, c.ratio))), r is not None))

    # ---- at the end of a fit
    def finish(self, complete=True):
        from scipy import stats
        if self.problem is not None:
            raise self.problem
        p, ctx = self.p, self.ctx
        if complete:
            self.check("sweeps", len(self.chains) == p["n_chains"], "chain-count", "%d models were sampled for %d chains", len(self.chains),
                       p["n_chains"])
            for k, c in enumerate(self.chains):
                self.check("sweeps", c.sweeps == p["n_burn"] + p["n_samples"] and c.next == 0, "sweep-count",
                           "chain %d made %d sweeps for %d of burn-in and %d samples", k, c.sweeps, p["n_burn"], p["n_samples"])
        z, u = [v for c in self.chains for v in c.z], [v for c in self.chains for v in c.u]
        if len(z) > 4:
            q = float(stats.kstest(z, "norm").pvalue)
            self.check("leaf", q > RARE, "leaf-posterior", "the %d leaf values of a fit are not distributed like the posterior that the "
                       "estimator's parameters give: p=%.2g", len(z), q)
            if "leaf" in self.parts:
                for c in self.chains:
                    oracles.independent(ctx, c.z, 0.0, "leaf values, standardized,")
        if len(u) > 4:
            q = float(stats.kstest(u, "uniform").pvalue)
            self.check("sigma", q > RARE, "sigma-posterior", "the %d sigmas of a fit are not distributed like the posterior that the "
                       "estimator's parameters give: p=%.2g", len(u), q)
        acc = [v for c in self.chains for v in c.acc]
        q = excess(sum(a - e for e, a in acc), sum(e * (1 - e) for e, _ in acc))
        self.check("ratio", q > RARE, "wrong-acceptance", "%d of %d proposals of a fit were accepted, %.1f are to be expected (p<%.2g)",
                   sum(a for _, a in acc), len(acc), sum(e for e, _ in acc), q)
        kinds = [v for c in self.chains for v in c.kinds]
        g = self.grow[0]
        q = excess(sum(kinds) - g * len(kinds), len(kinds) * g * (1 - g))
        self.check("kinds", q > RARE, "wrong-frequencies", "%d of %d proposals of a fit were grows, the probability set is %r (p<%.2g)",
                   sum(kinds), len(kinds), g, q)
        ctx.count("fits_watched")
        ctx.count("leaf_values_watched", len(z))
        ctx.count("sigmas_watched", len(u))
        ctx.count("decisions_watched", len(acc))
        ctx.event([c.sweeps for c in self.chains], z[:50], u[:50])


# ------------------------------------------------------------------------------------------------- runs

def gen(r, modes=("serial", "serial", "isolated", "threads")):
    p = estim.gen_params(r, init=0.1)
    p.update(n_samples=r.choice([3, 8, 15, 30]), n_trees=r.choice([1, 2, 3, 5]), n_chains=r.choice([1, 2, 3]))
    ops = []
    for _ in range(r.randint(1, 4)):
        ops.append([r.choice(["fit", "fit", "set_params", "clone", "deepcopy", "pickle", "other", "fail"]), r.randrange(1 << 20)])
    return {"level": "fit", "params": p, "ops": ops, "world": estim.gen_world(r, modes), "seed": r.randrange(1 << 30),
            "sets": [datasets.gen(r, nmin=1, nmax=30, pmax=3) for _ in range(2)]}


def run(ctx, plan, parts):
    w, params = estim.world_of(plan), plan["params"]
    p = dict(params)
    if w["mode"] == "serial":
        p["n_jobs"] = 1
    arrays = [datasets.arrays(d) for d in plan["sets"]]
    watched = Watched(ctx, "conform", plan["seed"], parts)
    try:
        with estim.open_sim(ctx, w) as sim, estim.backend(w["mode"]):
            est = estim.make(p, tree_sampler=watched.sampler(p))
            for k, (what, s) in enumerate(plan["ops"] + [["fit", 1]]):
                sim.begin_op(k)
                X, y = arrays[s % 2]
                if what == "set_params":
                    q = estim.other_params(p, s)
                    q.update(n_chains=1 + s % 3, n_jobs=p["n_jobs"])
                    kw = estim.arguments(q)
                    kw["tree_sampler"] = watched.sampler(q)
                    names = sorted(kw) if s % 3 else ["alpha", "beta", "sigma_a", "sigma_b"]
                    if s % 7 < 2:
                        for a in names:
                            setattr(est, a, kw[a])
                    else:
                        est.set_params(**{a: kw[a] for a in names})
                    p = q if s % 3 else dict(p, alpha=q["alpha"], beta=q["beta"], sigma_a=q["sigma_a"], sigma_b=q["sigma_b"])
                elif what in ("clone", "deepcopy", "pickle"):
                    est = estim.clone_of(est, what)
                elif what == "other":
                    q = estim.other_params(dict(p, n_chains=1), s)
                    watched.expect(q, X, y)
                    estim.make(q, tree_sampler=watched.sampler(q)).fit(X.copy(), y.copy())
                    watched.finish()
                else:
                    watched.expect(p, X, y)
                    if what == "fail":
                        task = "chain%d" % (s % p["n_chains"]) if w["mode"] != "serial" else "main"
                        sim.faults = [{"on": "draw", "k": s % 97, "task": task, "op": k, "fired": False,
                                       "exc": ["RuntimeError", "KeyboardInterrupt", "MemoryError"][s % 3]}]
                    try:
                        est.fit(X.copy(), y.copy())
                        watched.finish()
                    except BaseException as e:      # noqa
                        if isinstance(e, Violation) or (not isinstance(e, Injected) and not sim.fired()):
                            raise
                        ctx.count("failed_fits")
                        sim.drain(4000)             # chains left behind come to their end
                        if watched.problem is not None:
                            raise watched.problem
                        if any(t.state != "done" and not t.killed for t in sim.tasks[1:]):
                            ctx.count("ended_early")
                            return
                    sim.faults = []
            ctx.state("conform", [o[0] for o in plan["ops"]], w["mode"], plan["sets"][0]["seed"], p["n_trees"])
    finally:
        WATCHED.clear()
