"""Residual-model extensions stay consistent through fits, refits and failures."""
import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin

from .. import datasets, estim, ref
from ..core import EXCEPTIONS, Injected, derive
from .common import EST_REAL, EST_STUBS, EST_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 900, "thorough": 14000}
RULE = ("A run takes one combined estimator through fits, refits on other data, fits that fail in the base model, in a chain or in "
        "a worker, and reads. distinct_nontrivial counts distinct (kind of estimator and base model, operations and outcomes, "
        "scheduling decisions) combinations.")
REAL = EST_REAL + ["bartpy.extensions.baseestimator", "bartpy.extensions.ols", "scikit-learn base estimators"]
STUBS = EST_STUBS + ["statsmodels' OLS (not installed): least squares with the same interface", "in part of the runs a base "
                     "estimator that fails on demand"]

BOOM = {"fit": None, "predict": None}        # exception to raise at the next base fit / predict


def boom(where):
    kind, BOOM[where] = BOOM[where], None
    if kind is not None:
        raise EXCEPTIONS[kind]("injected in the base model's %s" % where)


class Mean(BaseEstimator, RegressorMixin):
    """A base estimator with state that accumulates wrongly if it is not a fresh one at every fit."""

    def __init__(self, shift=0.0, parts=()):
        self.shift = shift
        self.parts = parts

    def fit(self, X, y):
        self.fits_ = getattr(self, "fits_", 0) + 1
        self.mean_ = float(np.mean(y)) + self.shift * self.fits_
        boom("fit")
        self.slope_ = float(np.mean(np.asarray(X)[:, 0]))
        return self

    def predict(self, X):
        boom("predict")
        X = np.asarray(X, dtype=float)
        return self.mean_ + 0.25 * np.tanh(X[:, 0] - self.slope_)


class Results:
    def __init__(self, endog, exog, coef):
        self.endog, self.coef = endog, coef
        self.resid = endog - exog @ coef

    def predict(self, X):
        boom("predict")
        return np.asarray(X, dtype=float) @ self.coef


class LeastSquares:
    """Same interface as statsmodels.api.OLS, as far as it is used."""

    def __init__(self, endog, exog):
        self.endog, self.exog = np.asarray(endog, dtype=float), np.asarray(exog, dtype=float)

    def fit(self):
        boom("fit")
        coef = np.linalg.lstsq(self.exog, self.endog, rcond=None)[0]
        return Results(self.endog, self.exog, coef)


def base_of(kind):
    from sklearn.linear_model import LinearRegression, Ridge
    from sklearn.tree import DecisionTreeRegressor
    from sklearn.neighbors import KNeighborsRegressor
    return {"linear": LinearRegression, "default": LinearRegression, "ridge": Ridge,
            "tree": lambda: DecisionTreeRegressor(max_depth=2, random_state=0),
            "knn": lambda: KNeighborsRegressor(n_neighbors=1), "mean": Mean, "drift": lambda: Mean(shift=0.5)}[kind]()


def gen(r, index, tier):
    kind = r.choice(["base", "base", "ols"])
    p = estim.gen_params(r, chains=r.choice([1, 2, 3]), big=0.02)
    p["n_samples"] = min(p["n_samples"], 8)
    cols = ["normal", "unif", "int3", "int9", "binary", "unique", "neg", "desc"]
    ys = ["lin", "step", "noise", "two", "outlier", "int", "offset"]
    width = r.randint(1, 3)
    sets = []
    for _ in range(3):
        d = datasets.gen(r, nmin=4, nmax=20, pmax=3, cols=cols, ys=ys, big=0.02)
        if r.random() < 0.6:
            d["cols"] = (d["cols"] * 3)[:width]
        sets.append(d)
    ops = []
    for k in range(r.randint(2, 6)):
        u = r.random()
        if u < 0.4:
            ops.append(["fit", r.randrange(3), None])
        elif u < 0.7:
            ops.append(["fail", r.randrange(3), r.choice(["base_fit", "base_predict", "chain", "die", "sleep", "write", "no_rows",
                                                          "short_y"])])
        else:
            ops.append([r.choice(["read", "copy", "pickle", "deepcopy", "mutate", "clone", "params"]), r.randrange(3), None])
    if not any(o[0] == "fit" for o in ops[:2]):
        ops.insert(0, ["fit", 0, None])
    return {"kind": kind, "base": r.choice(["linear", "default", "ridge", "tree", "knn", "mean", "mean", "drift"]), "sets": sets,
            "prefit": r.random() < 0.4, "params": p, "world": estim.gen_world(r, ("isolated", "isolated", "threads", "serial")),
            "ops": ops, "form": r.choice(["array", "array", "frame", "mixed", "small", "flags"]), "seed": r.randrange(1 << 30)}


def attributes(obj):
    """Everything in an estimator object, comparable."""
    if obj is None:
        return None
    out = []
    for k, v in sorted(vars(obj).items()):
        if isinstance(v, np.ndarray):
            v = (v.dtype.str, v.shape, v.tobytes())
        elif not isinstance(v, (int, float, str, bool, tuple, type(None))):
            v = id(v)
        out.append((k, v))
    return out


class Expect:
    """What a successful fit must have left behind."""

    def __init__(self, plan, X, y):
        self.X, self.y = X, np.asarray(y, dtype=float)
        if plan["kind"] == "ols":
            self.base = LeastSquares(self.y, X).fit()
        else:
            self.base = base_of(plan["base"]).fit(X.copy(), y.copy())
        self.target = self.y - self.base.predict(X)
        self.scale = (np.ptp(self.y) + 1e-3 * np.max(np.abs(self.y))) or 1.0

    def bart(self, samples, Z):
        v = np.mean([ref.predict_trees(m.trees, Z) for m in samples], axis=0)
        lo, hi = self.target.min(), self.target.max()
        return lo + (v + 0.5) * (hi - lo)

    def near(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-7 * self.scale))


def verify(ctx, est, e, p, seed, label, form):
    Z = datasets.probes(e.X, seed, 7)
    samples = est.model_samples
    want = e.base.predict(Z) + e.bart(samples, Z)
    ctx.check(e.near(est.predict(Z.copy()), want), "prediction-not-the-sum", "%s: prediction of new rows is not base plus BART", label)
    own = e.base.predict(e.X) + e.bart(samples, e.X)
    ctx.check(e.near(est.predict(datasets.in_form(e.X, form)), own), "prediction-not-the-sum", "%s: prediction of the training rows "
              "is not base plus BART", label)
    ctx.check(e.near(est.predict(), own), "own-prediction-not-the-sum", "%s: prediction without data is not base plus BART", label)
    ctx.check(e.near(est.residuals(), e.y - own), "residuals-not-of-the-original-target", "%s: residuals are not the original "
              "targets minus the prediction", label)
    ctx.check(e.near(est.residuals(e.X.copy(), e.y.copy()), e.y - own), "residuals-of-data", "%s: residuals of given data", label)
    t = np.linspace(0, 1, len(Z))
    ctx.check(e.near(est.residuals(Z.copy(), t.copy()), t - want), "residuals-of-data", "%s: residuals of new data", label)
    ctx.check(e.near(est.rmse(Z.copy(), t.copy()), np.sqrt(np.sum((t - want) ** 2))), "rmse", "%s: rmse of new data", label)
    if p["store"]:
        v = np.mean(np.asarray(est.prediction_samples), axis=0)
        lo, hi = e.target.min(), e.target.max()
        ctx.check(e.near(lo + (v + 0.5) * (hi - lo), e.bart(samples, e.X)), "stored-predictions", "%s: the stored prediction samples "
                  "are not those of this fit's samples", label)
    ctx.count("fits_verified")


def run(ctx, plan):
    from bartpy.extensions.baseestimator import ResidualBART
    from bartpy.extensions.ols import OLS
    p, w = plan["params"], estim.world_of(plan)
    if w["mode"] == "serial":
        p = dict(p, n_jobs=1)
    elif p["n_jobs"] == -1 and w["cpu"] == 1:
        w["cpu"] = 3
    sets = [datasets.arrays(d) for d in plan["sets"]]
    base, trail = None, []
    can_boom = plan["kind"] == "ols" or plan["base"] in ("mean", "drift")
    with estim.open_sim(ctx, w) as sim, estim.backend(w["mode"]):
        if plan["kind"] == "ols":
            est = estim.make(p, cls=OLS, stat_model=LeastSquares)
        elif plan["base"] == "default":
            est = estim.make(p, cls=ResidualBART)
        else:
            base = base_of(plan["base"])
            if plan["prefit"]:
                X, y = sets[2]
                base.fit(X.copy(), y.copy())
            est = estim.make(p, cls=ResidualBART, base_estimator=base)
        kept = attributes(base)
        expect, handed = None, []
        for k, (what, which, how) in enumerate(plan["ops"]):
            sim.begin_op(k)
            sim.faults = []
            BOOM.update(fit=None, predict=None)
            X, y = sets[which]
            if what == "fit":
                A = datasets.in_form(X, plan["form"])
                b = datasets.target_in(A, y)
                out = est.fit(A, b)
                ctx.check(out is est, "fit-returns-self", "fit did not return the estimator")
                handed += [A, b]
                expect = Expect(plan, X, y)
                trained = [np.asarray(a, dtype=float) for it in sim.submissions for a in list(it[1]) + list(it[2].values())
                           if hasattr(a, "shape") and len(a.shape) == 1]
                for t in trained:
                    ctx.check(expect.near(t, expect.target), "not-the-residuals", "fit %d trains BART on something else than the "
                              "base model's residuals", k)
                trail.append(("fit", which))
            elif what == "fail":
                before = estim.behaviour(est, X)
                if how in ("base_fit", "base_predict"):
                    if not can_boom:
                        continue
                    BOOM[how[5:]] = ["RuntimeError", "KeyboardInterrupt", "MemoryError", "ValueError"][plan["seed"] % 4]
                elif how == "chain":
                    f = {"on": "draw", "k": plan["seed"] % 40, "task": None, "exc": "RuntimeError"}
                elif how == "die":
                    f = {"on": "draw", "k": plan["seed"] % 25, "task": "chain0", "exc": "die"}
                elif how == "sleep":
                    f = {"on": "sleep", "k": 0, "task": "main", "exc": "KeyboardInterrupt"}
                else:
                    f = {"on": "write", "k": plan["seed"] % 3, "task": None, "exc": "OSError"}
                if how in ("chain", "die", "sleep", "write"):
                    sim.faults = [dict(f, op=k, fired=False)]
                A, b = X.copy(), y.copy()
                if how == "no_rows":
                    A, b = A[:0], b[:0]
                elif how == "short_y":
                    b = b[:-1]
                try:
                    est.fit(A, b)
                except BaseException as e:      # noqa
                    if not (isinstance(e, Injected) or sim.fired() or how in ("no_rows", "short_y") or "injected" in str(e)):
                        raise
                    BOOM.update(fit=None, predict=None)
                    sim.drain(plan["seed"] % 20)
                    diff = estim.differs(before, estim.behaviour(est, X))
                    ctx.check(diff is None, "failed-refit-changes", "a fit that failed (%s, %s) changed the estimator: %s", how,
                              type(e).__name__, diff)
                    ctx.count("failed_fits")
                    if how in ("base_fit", "base_predict"):
                        ctx.fault("base_model_" + how[5:])
                    trail.append(("failed", how))
                else:
                    if how in ("no_rows", "short_y"):
                        return
                    expect = Expect(plan, X, y) if BOOM["fit"] is None and BOOM["predict"] is None else expect
                    if BOOM["predict"] is not None:     # not consulted during the fit
                        BOOM.update(fit=None, predict=None)
                        expect = Expect(plan, X, y)
                    trail.append(("survived", how))
                sim.faults = []
            elif what == "copy":
                other = estim.clone_of(est, "copy")
                other.fit(X.copy(), y.copy())
                verify(ctx, other, Expect(plan, X, y), p, plan["seed"], "a copy fitted to other data", plan["form"])
            elif what == "clone":
                # a clone is an unfitted estimator with all the same parameters
                other = estim.clone_of(est, "clone")
                ctx.check(other.model_samples is None, "clone-is-fitted", "a clone of the estimator is fitted already")
                differ = [a for a, b in estim.simple_arguments(p).items() if getattr(other, a) != b]
                ctx.check(not differ, "clone-drops-parameters", "a clone of the estimator does not have its %s", differ)
                other.fit(X.copy(), y.copy())
                verify(ctx, other, Expect(plan, X, y), p, plan["seed"], "a clone fitted to other data", plan["form"])
            elif what == "params":
                other = estim.clone_of(est, "clone")
                other.set_params(n_trees=p["n_trees"] + 1, n_samples=2, n_chains=1, n_burn=0, thin=1.0)
                other.fit(X.copy(), y.copy())
                shape = [len(m.trees) for m in other.model_samples]
                ctx.check(shape == [p["n_trees"] + 1] * 2, "parameters-not-set", "parameters set on a clone have no effect: %s trees "
                          "in the samples", shape)
                verify(ctx, other, Expect(plan, X, y), p, plan["seed"], "a clone with other parameters", plan["form"])
            elif what in ("pickle", "deepcopy"):
                est = estim.clone_of(est, what)
            elif what == "mutate":
                # scikit-learn's nearest neighbours themselves keep referring to the arrays they were fitted on
                for A in handed if plan["base"] != "knn" else []:
                    datasets.overwrite(A, 1)
                handed = []
            if expect is not None:
                verify(ctx, est, expect, p, plan["seed"] + k, "after %s" % (plan["ops"][:k + 1],), plan["form"])
            ctx.check(attributes(base) == kept, "base-modified", "the caller's base estimator was modified by %s", what)
        ctx.state(plan["kind"], plan["base"], w["mode"], trail, [o[0] for o in plan["ops"]], [tuple(s) for s in sim.schedule.made][:40])
        ctx.event(repr(trail))
