"""Diagnostics report exactly the recorded samples."""
import numpy as np

from .. import datasets, estim, ref
from ..core import Injected, derive
from ..runner import pristine
from .c08 import mean_prediction
from .common import EST_REAL, EST_STUBS, EST_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 600, "thorough": 9000}
REAL = EST_REAL + ["bartpy.diagnostics", "bartpy.plotting", "matplotlib (Agg)", "seaborn"]
STUBS = EST_STUBS + ["statsmodels (not installed): a qqplot that records what it is given"]
RULE = ("A run takes an estimator through fits by simulated workers, failed refits and copies and reads every diagnostic after each. "
        "distinct_nontrivial counts distinct (operations, diagnostics read, sizes, scheduling decisions) combinations.")

READS = ["sigma", "depth", "acceptance", "shares", "shares_of", "share_bars", "qq", "fitted", "residuals", "actual", "all"]


def gen(r, index, tier):
    p = estim.gen_params(r, chains=r.choice([1, 2, 2, 3, 4]), big=0.04)
    ops = [["fit", r.randrange(2), r.randrange(1 << 20)]]
    for _ in range(r.choice([0, 1, 2, 3])):
        ops.append([r.choice(["fit", "fail", "fail", "pickle", "deepcopy", "other", "extract"]), r.randrange(2), r.randrange(1 << 20)])
    sets = [datasets.gen(r, nmin=3, nmax=20, pmax=4, big=0.02) for _ in range(2)]
    return {"params": p, "world": estim.gen_world(r, ("isolated", "isolated", "threads", "serial")), "ops": ops, "sets": sets,
            "reads": [r.choice(READS[:8] if r.random() < 0.8 else READS) for _ in range(r.randint(2, 6))]}


# ------------------------------------------------------------------------------------------------- expectations

def nodes(shape):
    yield shape
    if shape[0] == "D":
        yield from nodes(shape[4])
        yield from nodes(shape[5])


class Expect:
    """From what the chains recorded, each run alone, or (in-process fits) from the published samples."""

    def __init__(self, chain, width):
        self.sigma = [s[0] for s in chain["model"]]
        depths = [[n[1] for t in s[1] for n in nodes(t)] for s in chain["model"]]
        self.depth = [[min(d) for d in depths], [sum(d) / len(d) for d in depths], [max(d) for d in depths]]
        self.acceptance = [dict(a).get("Tree") for a in chain["acc"]]
        counts = [0] * width
        for s in chain["model"]:
            for t in s[1]:
                for n in nodes(t):
                    if n[0] == "D":
                        counts[n[2]] += 1
        total = sum(counts)
        self.shares = [c / total if total else 0.0 for c in counts]


def joined(chains):
    return {k: [x for c in chains for x in c[k]] for k in ("model", "pred", "acc")}


def same(a, b, tol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def curves(ax):
    return [np.asarray(l.get_ydata(), dtype=float) for l in ax.lines]


# ------------------------------------------------------------------------------------------------- reading

QQ = []


def stub_statsmodels():
    import sys
    import types
    if "statsmodels.api" not in sys.modules:
        top, api = types.ModuleType("statsmodels"), types.ModuleType("statsmodels.api")
        api.qqplot = lambda data, *a, **k: QQ.append(np.array(data, dtype=float))
        top.api = api
        sys.modules["statsmodels"], sys.modules["statsmodels.api"] = top, api


def read(ctx, est, e, X, y, what, label):
    from matplotlib import pyplot as plt
    from bartpy.diagnostics.features import feature_split_proportions, plot_feature_split_proportions
    from bartpy.diagnostics.sampling import plot_tree_mutation_acceptance_rate
    from bartpy.diagnostics.sigma import plot_sigma_convergence
    from bartpy.diagnostics.trees import plot_tree_depth
    width = X.shape[1]
    scale = (np.ptp(y) + 1e-3 * np.max(np.abs(y))) or 1.0
    fitted = mean_prediction(est.model_samples, X, y)

    def check_sigma(ax):
        got = curves(ax)
        ctx.check(len(got) == 1 and same(got[0], e.sigma), "wrong-sigma-trace", "%s: the sigma trace is not that of the %d recorded "
                  "samples", label, len(e.sigma))

    def check_depth(ax):
        got = curves(ax)
        ctx.check(len(got) == 3 and all(same(a, b) for a, b in zip(got, e.depth)), "wrong-depths", "%s: the least, mean and greatest "
                  "depths are not those of the recorded samples", label)

    def check_acceptance(ax):
        got = curves(ax)
        ctx.check(len(got) == 1 and same(got[0], e.acceptance), "wrong-acceptance", "%s: the acceptance rates are not those of the "
                  "recorded iterations", label)

    def check_qq():
        ctx.check(len(QQ) == 1 and same(QQ[0] / scale, (y - fitted) / scale, 1e-7), "wrong-residuals", "%s: residuals of the QQ plot", label)

    def check_fitted(ax):
        pts = np.asarray(ax.collections[0].get_offsets(), dtype=float)
        want = np.column_stack([fitted, y - fitted])
        ctx.check(pts.shape == want.shape and same(pts / scale, want / scale, 1e-7), "wrong-residuals", "%s: fitted values against "
                  "residuals", label)

    ctx.count("read_" + what)
    del QQ[:]
    try:
        # another figure is current: what is drawn must go where the caller says
        other = plt.figure()
        _, ax = plt.subplots(1, 1)
        plt.figure(other.number)
        if what == "sigma":
            check_sigma(plot_sigma_convergence(est, ax))
        elif what == "depth":
            check_depth(plot_tree_depth(est, ax))
        elif what == "acceptance":
            check_acceptance(plot_tree_mutation_acceptance_rate(est, ax))
        elif what in ("shares", "shares_of"):
            cols = list(range(width))[::-1] if what == "shares_of" else None
            got = feature_split_proportions(est, cols)
            used = [c for c in range(width) if e.shares[c] > 0]
            ctx.check(list(got) == (cols if cols is not None else used), "wrong-columns", "%s: proportions for columns %s", label, list(got))
            for c in got:
                ctx.check(abs(got[c] - e.shares[c]) < 1e-12, "wrong-proportion", "%s: column %s has share %r of the splits, reported as "
                          "%r", label, c, e.shares[c], got[c])
        elif what == "share_bars":
            out = plot_feature_split_proportions(est, ax)
            got = [b.get_width() for b in out.patches]
            ctx.check(same(got, [s for s in e.shares if s > 0]), "wrong-proportion", "%s: bars %s", label, got)
        elif what == "qq":
            stub_statsmodels()
            from bartpy.diagnostics.residuals import plot_qq
            plot_qq(est, ax)
            check_qq()
        elif what == "fitted":
            stub_statsmodels()
            from bartpy.diagnostics.residuals import plot_homoskedasity_diagnostics
            check_fitted(plot_homoskedasity_diagnostics(est, ax))
        elif what in ("residuals", "actual"):
            from bartpy import plotting
            if not est.store_in_sample_predictions:
                return
            plt.figure()
            {"residuals": plotting.plot_residuals, "actual": plotting.plot_modelled_against_actual}[what](est)
            got = [g / scale for g in curves(plt.gca())]
            want = [y - fitted] if what == "residuals" else [y, fitted]
            ctx.check(len(got) == len(want) and all(same(a, b / scale, 1e-7) for a, b in zip(got, want)), "wrong-residuals", "%s: plot of "
                      "%s", label, what)
        elif what == "all":
            stub_statsmodels()
            from bartpy.diagnostics.diagnostics import plot_diagnostics
            plot_diagnostics(est)
            axes = {a.get_title(): a for a in plt.gcf().axes}
            check_qq()
            check_depth(axes["Tree Depth by Iteration"])
            check_sigma(axes["Sigma Convergence"])
            check_fitted(axes["Fitted Values V Residuals"])
            check_acceptance(axes["Tree Mutation Acceptance Rate"])
    finally:
        plt.close("all")


# ------------------------------------------------------------------------------------------------- runs

def run(ctx, plan):
    p, w = plan["params"], estim.world_of(plan)
    if w["mode"] == "serial":
        p = dict(p, n_jobs=1)
    elif p["n_jobs"] == -1 and w["cpu"] == 1:
        w["cpu"] = 3
    n, base = p["n_chains"], w["seed"]
    sets = [datasets.arrays(d) for d in plan["sets"]]
    trail = []
    with estim.open_sim(ctx, w) as sim, estim.backend(w["mode"]):
        est, now = estim.make(p), None
        for k, (what, which, s) in enumerate(plan["ops"]):
            sim.begin_op(k)
            sim.faults = []
            X, y = sets[which]
            if what == "fit":
                est.fit(X.copy(), y.copy())
                now = which
            elif what == "fail":
                sim.faults = [{"on": "draw", "k": s % 50, "task": None, "op": k, "exc": ["RuntimeError", "KeyboardInterrupt", "MemoryError"][s % 3],
                               "fired": False}]
                try:
                    est.fit(X.copy(), y.copy())
                    now = which
                except BaseException as exc:      # noqa
                    if not (isinstance(exc, Injected) or sim.fired()):
                        raise
                    sim.drain(20)
                    what = "failed"
            elif what in ("pickle", "deepcopy"):
                est = estim.clone_of(est, what)
            elif what == "other":
                estim.clone_of(est, "clone").fit(X.copy(), y.copy())
            elif what == "extract":
                est = est.from_extract(est.extract, sets[now][0].copy(), sets[now][1].copy())
            sim.faults = []
            trail.append(what)
            X, y = sets[now]
            if what in ("fit", "fail"):
                if w["mode"] == "serial":
                    chain = estim.fit_chain(est)
                else:
                    chain = joined(pristine(lambda: [estim.reference_chain(p, plan["sets"][now], derive("stream", base, i)) for i in range(n)]))
                e = Expect(chain, X.shape[1])
            before = estim.behaviour(est, X)
            for r in plan["reads"]:
                read(ctx, est, e, X, np.asarray(y, dtype=float), r, "after %s, %s" % (trail, r))
            diff = estim.differs(before, estim.behaviour(est, X))
            ctx.check(diff is None, "estimator-changed", "reading the diagnostics %s changed the estimator: %s", plan["reads"], diff)
        ctx.state(trail, plan["reads"], n, p["n_jobs"], w["mode"], len(est.model_samples), [tuple(s) for s in sim.schedule.made][:60])
        ctx.event(repr(trail), repr(e.shares), repr(e.sigma)[:300])
