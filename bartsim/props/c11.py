"""Interrupted sampling can be resumed safely."""
from .. import gibbs, oracles, ref
from ..core import EXCEPTIONS, Injected
from .common import GIBBS_RULE as RULE, GIBBS_REAL as REAL, GIBBS_STUBS as STUBS, GIBBS_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 1800, "thorough": 25000}


def gen(r, index, tier):
    plan = gibbs.gen(r, given=0.1, init=0.15, faulty=0, long=0.01, oblivious=0.04)
    plan["sweeps"] = min(plan["sweeps"], 30)
    plan["faults"], plan["ops"] = [], []
    steps = plan["sweeps"] * plan["n_trees"]
    for _ in range(r.randint(2, 8)):
        on = r.choice(["draw", "draw", "step", "step", "log"])
        far = {"draw": 6 * steps, "step": 3 * steps, "log": 3 * steps}[on]
        plan["faults"].append({"on": on, "k": r.randrange(max(2, far)), "task": None,
                               "exc": r.choice(["KeyboardInterrupt", "MemoryError", "RuntimeError", "SystemExit"])})
    left = plan["sweeps"]
    while left > 0:
        kind = r.choice(["sweep", "sweep", "step", "samples", "abandon"])
        if kind == "samples":
            op = ["samples", r.randint(1, 4), r.randint(0, 3), r.choice([1.0, 0.5])]
            left -= op[1] + op[2]
        elif kind == "abandon":
            op = ["abandon", r.randint(1, 4 * plan["n_trees"])]
            left -= 1
        else:
            op = [kind]
            left -= 1
        plan["ops"].append(op)
    return plan


class AfterInterrupt(oracles.Observer):
    def interrupted(self, w):
        X = w.X
        for i, t in enumerate(w.model.trees):
            oracles.check_tree(w.ctx, t, X, "tree %d after an interruption" % i)
        want = ref.predict_trees(w.model.trees, X)
        got = w.model.predict(X.copy())
        w.ctx.check(oracles.close(got, want), "prediction-after-interruption", "after an interruption the model predicts %s "
                    "for its training rows", oracles.worst(got, want))
        if w.rng.random() < 0.6:
            got = w.model.predict()
            w.ctx.check(oracles.close(got, want), "cached-prediction-after-interruption", "after an interruption the cached "
                        "in-sample prediction is stale (%s)", oracles.worst(got, want))
        w.ctx.check(oracles.close(w.model.data.y.values, w.yn), "target-overwritten", "an interruption changed the target")


def run(ctx, plan):
    from bartpy.trace import TraceLogger

    def body(w):
        sim = w.sim
        plain = TraceLogger()

        class Logger(TraceLogger):
            def __getitem__(self, item):
                f = plain[item]

                def log(x):
                    sim.on_point("log", item)
                    return f(x)
                return log
        logger = Logger()
        sampler = w.model_sampler_class(w.schedule, Logger)

        def guarded(f):
            w.fire("sweep_start")
            try:
                f()
                return True
            except BaseException as e:      # noqa
                if not isinstance(e, Injected):
                    raise
                ctx.count("interruptions")
                w.next_u = None
                w.fire("interrupted")
                return False
        for op in plan["ops"]:
            if op[0] == "sweep":
                w.guarded_sweep()
            elif op[0] == "step":
                if guarded(lambda: sampler.step(w.model, logger)):
                    w.fire("sweep_end")
            elif op[0] == "samples":
                # the observers learn about sweeps from the order of the steps
                w.rolling = True
                if guarded(lambda: sampler.samples(w.model, op[1], op[2], op[3])):
                    w.fire("sweep_end")
                w.rolling = False
            elif op[0] == "abandon":
                w.guarded_sweep(op[1])
                ctx.fault("abandoned_sweep")
                w.fire("interrupted")
        w.sim.faults = []
        w.sweep()       # once interruptions stop
        w.sweep()
        oracles.Predictions().check(w, "end")
    gibbs.simulate(ctx, plan, [oracles.Partition(), RollingTargets(), AfterInterrupt()], body)


class RollingTargets(oracles.Targets):
    """The same oracle; inside samples() a new sweep begins with the first tree."""

    def tree_pre(self, w, tree, i):
        if getattr(w, "rolling", False) and i == 0 and len(self.seen) == len(w.model.trees):
            self.seen = []
        super().tree_pre(w, tree, i)
