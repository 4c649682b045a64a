"""
The Gibbs world: one model sampled through the library's own schedule, with recording wrappers at the public
injection points (tree, leaf and sigma samplers, proposer, scalar samplers, trace logger).
"""
import numpy as np

from . import datasets, ref
from .core import Injected, rnd
from .sim import Sim


def gen(r, nmax=40, pmax=5, init=0.12, oblivious=0.0, hard=False, steps=220, nmin=2, long=0.03, cols=None,
        ntrees=None, faulty=0.3, given=0.0, bend=0.0, large=0.025):
    d = datasets.gen(r, nmin=nmin, nmax=nmax, pmax=pmax, hard=hard, cols=cols)
    n_trees = ntrees or r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 30])
    sweeps = max(3, min(80, int(steps / n_trees * r.choice([0.3, 0.6, 1.0]))))
    if r.random() < long:
        sweeps = max(3, int(1400 / n_trees))      # crosses the refill of the pre-drawn numbers
        d["n"] = min(d["n"], 40)
    plan = {
        "data": d, "n_trees": n_trees, "sweeps": sweeps,
        "alpha": r.choice([0.95, 0.95, 0.5, 0.99, 0.2]), "beta": r.choice([2.0, 2.0, 0.5, 1.0, 3.0, 0.0]),
        "k": r.choice([2.0, 2.0, 1.0, 3.5, 0.7]),
        "sigma_a": r.choice([0.001, 0.001, 1.0, 3.0]), "sigma_b": r.choice([0.001, 0.001, 0.05, 1.0]),
        "p_grow": r.choice([0.5, 0.5, 0.5, 0.3, 0.7, 0.9, 0.1, 0.97, 0.03]),
        "u": r.choice(["real", "real", "accept", "accept", "mixed", "reject"]),
        "z": r.choice(["real", "inject"]),
        "init": {"depth": r.randint(1, 4)} if r.random() < init else None,
        "oblivious": r.random() < oblivious,
        "trees": r.randint(1, 4) if r.random() < given else None,        # trees grown and handed over by the caller
        "observe": r.choice([1.0, 0.5, 0.15]),
        "peek": r.choice([0.5, 0.1, 0.03]) if r.random() < 0.15 else 0.0,
        "bend": r.choice([0.3, 0.1]) if r.random() < bend else 0.0,      # how often sigma's draw is far out
        "seed": r.randrange(1 << 30),
    }
    u = r.random()
    plan["kind"] = "plain"
    if u < large:
        # many rows, few sweeps
        plan["kind"] = "large"
        d["n"] = r.randint(1030, 2600) if r.random() < 0.6 else r.randint(300, 1030)
        d["cols"] = [r.choice(["normal", "blocks", "last", "last", "first", "int3", "unique", "skewlow"]) for _ in range(r.randint(1, 3))]
        plan["n_trees"] = r.choice([1, 2, 3])
        plan["sweeps"] = min(plan["sweeps"], max(2, 12 // plan["n_trees"]))
        plan["observe"] = 1.0
    elif u < large + 0.02:
        # deep trees
        plan["kind"] = "deep"
        d["n"] = r.randint(40, 90)
        d["cols"] = [r.choice(["unique", "normal", "desc"]) for _ in range(r.randint(1, 2))]
        plan["n_trees"], plan["sweeps"], plan["observe"] = r.choice([1, 1, 2]), r.randint(40, 80), 0.15
        plan["u"], plan["p_grow"] = "accept", r.choice([0.9, 0.97])
    elif u > 0.992 and ntrees is None and not plan["init"]:
        # as many trees as in practice
        plan["kind"] = "many"
        plan["n_trees"], plan["sweeps"] = r.choice([65, 101, 130, 200, 257]), r.randint(1, 2)
        d["n"] = min(d["n"], 30)
    elif u < large + 0.05 and not plan["init"]:
        d["y"] = r.choice(["vast", "minute"])
    if plan["sweeps"] > 80:
        plan["observe"], plan["peek"] = min(plan["observe"], 0.3), min(plan["peek"], 0.1)
    if r.random() < faulty:
        add_faults(r, plan)
    return plan


def add_faults(r, plan, most=4):
    """Interruptions at random draws and between steps, and sweeps that the caller walks away from."""
    n, steps = plan["n_trees"], plan["sweeps"] * plan["n_trees"]
    plan["faults"], plan["abandon"] = [], []
    for _ in range(r.randint(1, most)):
        if r.random() < 0.35:
            plan["abandon"].append([r.randrange(plan["sweeps"]), r.randint(1, 3 * n + 1)])
        else:
            on = r.choice(["draw", "draw", "step"])
            far = 6 * steps if on == "draw" else 2 * steps
            plan["faults"].append({"on": on, "k": min(r.randrange(far), r.randrange(far)), "task": None,
                                   "exc": r.choice(["KeyboardInterrupt", "MemoryError", "RuntimeError"])})
    return plan


class USource:
    """Uniform draws for the accept decision, chosen by the simulator."""

    def __init__(self, world):
        self.world = world

    def sample(self):
        return self.world.draw_u()


class ZSource:
    """Standard normal draws for leaf values, chosen by the simulator."""

    def __init__(self, world):
        self.world = world

    def sample(self):
        return self.world.draw_z()


class Heard:
    """The library's own source of draws, with every draw noted."""

    def __init__(self, world, inner, name):
        self.world, self.inner, self.name = world, inner, name

    def sample(self):
        v = self.inner.sample()
        getattr(self.world, self.name + "_drawn").append(float(v))
        getattr(self.world, self.name + "_all").append(float(v))
        return v


class Spy:
    """Forwards everything it does not watch."""

    def __getattr__(self, name):
        if name in ("inner", "world"):
            raise AttributeError(name)
        return getattr(self.inner, name)


class ProposerSpy(Spy):
    def __init__(self, world, inner):
        self.world, self.inner = world, inner

    def propose(self, tree):
        w = self.world
        w.fire("before_propose", tree)
        p = self.inner.propose(tree)
        w.proposal = p
        w.fire("proposed", tree, p)
        return p


class TreeSpy(Spy):
    def __init__(self, world, inner):
        self.world, self.inner = world, inner

    def step(self, model, tree):
        w = self.world
        i = w.index_of(tree)
        w.sim.on_point("step", "tree")
        w.proposal, w.u_drawn, w._target = None, [], None
        w.fire("tree_pre", tree, i)
        r = self.inner.step(model, tree)
        w.tree_steps += 1
        w.accepted += 1 if r is not None else 0
        w.ctx.event("tree", i, r is not None)
        w.fire("tree_post", tree, i, r)
        return r

    def sample(self, model, tree):
        return self.inner.sample(model, tree)


class LeafSpy(Spy):
    def __init__(self, world, inner):
        self.world, self.inner = world, inner

    def step(self, model, leaf):
        w = self.world
        w.sim.on_point("step", "leaf")
        w.z_drawn = []
        w.fire("leaf_pre", leaf)
        r = self.inner.step(model, leaf)
        w.leaf_steps += 1
        w.ctx.event("leaf", float(leaf.current_value))
        w.fire("leaf_post", leaf, r)
        return r

    def sample(self, model, leaf):
        return self.inner.sample(model, leaf)


class SigmaSpy(Spy):
    def __init__(self, world, inner):
        self.world, self.inner = world, inner

    def step(self, model, sigma):
        w = self.world
        w.sim.on_point("step", "sigma")
        w.fire("sigma_pre", sigma)
        r = self.inner.step(model, sigma)
        w.ctx.event("sigma", float(sigma.current_value()))
        w.fire("sigma_post", sigma, r)
        return r

    def sample(self, model, sigma):
        return self.inner.sample(model, sigma)


class World:
    def __init__(self, ctx, plan, sim, observers=()):
        from bartpy.data import Data
        from bartpy.model import Model
        from bartpy.sigma import Sigma
        from bartpy.samplers.schedule import SampleSchedule
        from bartpy.samplers.modelsampler import ModelSampler
        from bartpy.samplers.leafnode import LeafNodeSampler
        from bartpy.samplers.sigma import SigmaSampler
        from bartpy.samplers.scalar import NormalScalarSampler, UniformScalarSampler
        from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
        self.ctx, self.plan, self.sim = ctx, plan, sim
        self.observers = list(observers)
        self.rng = rnd("world", plan["seed"])          # the simulator's own choices
        self.obs_rng = rnd("observe", plan["seed"])
        self.peek_rng = rnd("peek", plan["seed"])
        self.X, self.y = datasets.arrays(plan["data"])
        self.yn = datasets.normalized(self.y)
        self.tree_steps = self.accepted = self.leaf_steps = self.sweeps = 0
        self.proposal, self.u_drawn, self.z_drawn = None, [], []
        self.u_all, self.z_all = [], []                 # draws of the library's own sources
        self.next_u = None
        self._target = None
        self.p = [plan["p_grow"], 1.0 - plan["p_grow"]]
        data = Data(self.X.copy(), self.y.copy(), normalize=True)
        self.data = data
        sigma = Sigma(plan["sigma_a"], plan["sigma_b"], data.y.normalizing_scale)
        init = SklearnTreeInitializer(max_depth=plan["init"]["depth"]) if plan["init"] else None
        self.model = Model(data, sigma, trees=self.grown_trees(data) if plan.get("trees") else None, n_trees=plan["n_trees"],
                           alpha=plan["alpha"], beta=plan["beta"], k=plan["k"], initializer=init)
        u = Heard(self, UniformScalarSampler(), "u") if plan["u"] == "real" else USource(self)
        z = Heard(self, NormalScalarSampler(plan.get("zcache", 1000)), "z") if plan["z"] == "real" else ZSource(self)
        if plan["oblivious"]:
            from bartpy.samplers.oblivioustrees.likihoodratio import UniformTreeMutationLikihoodRatio
            from bartpy.samplers.oblivioustrees.proposer import UniformMutationProposer
            from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler
            self.proposer = UniformMutationProposer(*self.p)
        else:
            from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio
            from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
            from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
            self.proposer = UniformMutationProposer(list(self.p))
        self.likelihood = UniformTreeMutationLikihoodRatio(list(self.p))
        self.tree_sampler = UnconstrainedTreeMutationSampler(ProposerSpy(self, self.proposer), self.likelihood, u)
        self.leaf_sampler = LeafNodeSampler(z)
        self.sigma_sampler = SigmaSampler()
        self.schedule = SampleSchedule(TreeSpy(self, self.tree_sampler), LeafSpy(self, self.leaf_sampler),
                                       SigmaSpy(self, self.sigma_sampler))
        self.model_sampler_class = ModelSampler
        self.bend_rng = rnd("bend", plan["seed"])
        if plan.get("bend"):
            sim.bend = self.bend
        for o in self.observers:
            o.attach(self)

    def bend(self, name, value):
        """Legal but extreme draws of the precision: sigma becomes small (nearly noiseless) or large."""
        if name in ("gamma", "standard_gamma", "chisquare", "noncentral_chisquare") and np.ndim(value) == 0 \
                and self.bend_rng.random() < self.plan["bend"]:
            self.ctx.count("extreme_sigma_draws")
            return min(max(float(value) * 10.0 ** self.bend_rng.uniform(-2, 7), 1e-4), max(float(value), 1e9))
        return value

    def grown_trees(self, data):
        """Trees built by the caller: grown a few times, with leaf values, never predicted from yet."""
        from copy import deepcopy
        from operator import gt, le
        from bartpy.mutation import GrowMutation
        from bartpy.node import LeafNode, split_node
        from bartpy.split import Split
        from bartpy.splitcondition import SplitCondition
        from bartpy.tree import Tree, mutate
        out = []
        for _ in range(self.plan["n_trees"]):
            tree = Tree([LeafNode(Split(deepcopy(data)))])
            for _ in range(self.rng.randint(0, self.plan["trees"])):
                moves = []
                for node, rows in ref.rows_by_node(ref.root_of(tree), self.X):
                    if ref.is_leaf(node):
                        moves += [(node, c, float(v)) for c in ref.splittable_columns(self.X, rows)
                                  for v in np.unique(self.X[rows, c])[:-1]]
                if not moves:
                    break
                leaf, c, v = self.rng.choice(moves)
                mutate(tree, GrowMutation(leaf, split_node(leaf, (SplitCondition(c, v, le), SplitCondition(c, v, gt)))))
            for leaf in tree.leaf_nodes:
                leaf.set_value(self.rng.uniform(-0.3, 0.3))
            out.append(tree)
        return out

    # ---- simulator-chosen draws (all legal values of the distribution they stand for)
    def draw_u(self):
        self.sim.on_draw("u")
        if self.next_u is not None:
            u, self.next_u = self.next_u, None
        else:
            mode = self.plan["u"]
            if mode == "mixed":
                mode = self.rng.choice(["accept", "reject", "plain"])
            if mode == "accept":
                u = 10.0 ** -self.rng.uniform(1, 300)
            elif mode == "reject":
                u = 1.0 - 10.0 ** -self.rng.uniform(3, 15)
            else:
                u = self.rng.random()
        self.u_drawn.append(u)
        return u

    def draw_z(self):
        self.sim.on_draw("z")
        v = self.rng.random()
        z = 0.0 if v < 0.1 else (self.rng.gauss(0, 1) if v < 0.95 else self.rng.choice([-4.5, 4.5, 1e-8]))
        self.z_drawn.append(z)
        return z

    # ---- driving
    def index_of(self, tree):
        for i, t in enumerate(self.model.trees):
            if t is tree:
                return i
        self.ctx.fail("foreign-tree", "the schedule sampled a tree that is not one of the model's trees")

    def fire(self, what, *args):
        for o in self.observers:
            f = getattr(o, what, None)
            if f is not None:
                f(self, *args)

    def sweep(self, stop_after=None):
        """One sweep through the library's schedule; abandoned after so many steps if asked."""
        self._target = None
        self.fire("sweep_start")
        done = 0
        for kind, step in self.schedule.steps(self.model):
            step()
            done += 1
            if self.plan.get("peek") and self.peek_rng.random() < self.plan["peek"]:
                # a caller that watches the model between two steps
                self.ctx.count("reads_between_steps")
                self.peek_rng.choice([self.model.predict, self.model.residuals, lambda: self.model.predict(self.X.copy()),
                                      self.model.unnormalized_residuals])()
            if stop_after is not None and done >= stop_after:
                return False
        self.sweeps += 1
        self.fire("sweep_end")
        self.remember()
        return True

    def guarded_sweep(self, stop_after=None):
        """One sweep that an injected fault may cut short. True if it was completed."""
        try:
            return self.sweep(stop_after)
        except BaseException as e:
            if not isinstance(e, Injected):
                raise
            self.ctx.count("interrupted_sweeps")
            self.next_u = None
            self.fire("interrupted")
            return False

    def run(self):
        stops = dict((int(a), int(b)) for a, b in self.plan.get("abandon", ()))
        for k in range(self.plan["sweeps"]):
            stop = stops.get(k)
            done = self.guarded_sweep(stop)
            if stop is not None and not done:
                self.ctx.fault("abandoned_sweep")
        self.note_state()

    def remember(self):
        """The abstract state reached: shape and thresholds of all trees."""
        if len(self.ctx.states) < 400:
            key = [self.plan["data"]["seed"]]
            for t in self.model.trees:
                r = ref.root_of(t)
                key.append(None if r is None else ref.skeleton(r))
            if any(k is not None and k[0] == "D" for k in key[1:]):
                self.ctx.state(*key)

    def note_state(self):
        self.ctx.event("end", float(self.model.sigma.current_value()))
        self.ctx.count("tree_steps", self.tree_steps)
        self.ctx.count("accepted_moves", self.accepted)
        self.ctx.count("leaf_draws", self.leaf_steps)
        self.ctx.count("sweeps", self.sweeps)
        self.tree_steps = self.accepted = self.leaf_steps = self.sweeps = 0

    def observing(self):
        return self.obs_rng.random() < self.plan["observe"]

    # ---- reference views
    def predictions(self):
        """Per tree, by thresholds and leaf values only."""
        return [ref.predict_tree(t, self.X) for t in self.model.trees]

    def target_for(self, index):
        """
        The target minus the predictions of all other trees. While one tree is being sampled the others do not change, so
        the value is kept until the next tree's turn, and recomputed now and then all the same.
        """
        if self._target is not None and self._target[0] == index and self.obs_rng.random() > 0.03:
            return self._target[1]
        self._target = (index, self._target_for(index))
        return self._target[1]

    def _target_for(self, index):
        out = self.yn.copy()
        for i, t in enumerate(self.model.trees):
            if i != index:
                out -= ref.predict_tree(t, self.X)
        return out

    def sd(self):
        return 0.5 / (self.plan["k"] * np.sqrt(self.plan["n_trees"]))


def simulate(ctx, plan, observers, body=None):
    with Sim(ctx, faults=plan.get("faults", ()), main_seed=plan["seed"],
             max_draws=plan.get("max_draws", 4000000)) as sim:
        w = World(ctx, plan, sim, observers)
        if body is None:
            w.run()
        else:
            body(w)
        w.fire("end")
        w.note_state()
        return w
