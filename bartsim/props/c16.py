"""Prediction is a pure, row-wise, thread-safe read in original units."""
import numpy as np
import pandas as pd

from .. import datasets, estim, ref
from ..core import Injected
from .common import EST_REAL as REAL, EST_STUBS as STUBS, EST_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 900, "thorough": 14000}
RULE = ("A run fits an estimator and then reads it: sequences of predictions, residuals and errors in many forms, with arguments "
        "and results changed in place between them, and concurrent readers preempted at source lines and interrupted. "
        "distinct_nontrivial counts distinct (kind of estimator, operations, scheduling decisions) combinations.")

READS = ["predict", "predict", "predict", "own", "residuals", "residuals_xy", "residuals_x", "l2", "rmse", "samples", "single", "integers", "float32", "same_object",
         "permuted", "subset", "repeat_rows", "many", "form", "concat", "train", "training_form"]


def gen(r, index, tier):
    p = estim.gen_params(r, chains=r.choice([1, 2, 3]), big=0.04)
    ops = []
    for _ in range(r.randint(3, 9)):
        ops.append([r.choice(READS + ["mutate_args", "mutate_result", "fit_clone", "other_fit", "pickle"]), r.randrange(1 << 20)])
    threads = []
    for _ in range(r.choice([0, 2, 2, 3, 4])):
        threads.append([[r.choice(READS), r.randrange(1 << 20)] for _ in range(r.randint(1, 4))])
    faults = []
    if threads and r.random() < 0.35:
        faults = [{"on": "line", "k": r.choice([1, 5, 20, 60, 200, 500]), "task": "reader%d" % r.randrange(len(threads)), "op": 2,
                   "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}]
    d = datasets.gen(r, nmin=2, nmax=25, pmax=4, hard=r.random() < 0.2)
    if r.random() < 0.05:
        d["y"] = r.choice(["vast", "minute"])
    return {"data": d,
            "data2": datasets.gen(r, nmin=2, nmax=15, pmax=3), "params": p,
            "world": estim.gen_world(r, ("isolated", "threads", "serial")), "ops": ops, "threads": threads, "faults": faults,
            "rate": r.choice([0.005, 0.02, 0.1, 0.4]), "form": r.choice(datasets.FORMS), "source": r.choice(
                ["fit", "fit", "refit", "extract", "pickle", "deepcopy"])}


class Reader:
    """Reads of one estimator, each against the reference computed from what the fit recorded."""

    def __init__(self, ctx, est, p, X, y, seed):
        self.ctx, self.est, self.p, self.X, self.y = ctx, est, p, X, np.asarray(y, dtype=float)
        self.seed = seed
        # the reference: the trees as recorded right after the fit, as plain data
        self.shapes = [[ref.tree_shape(t) for t in m.trees] for m in est.model_samples]
        self.lo, self.hi = self.y.min(), self.y.max()
        self.scale = ((self.hi - self.lo) + 1e-3 * np.max(np.abs(self.y))) or 1.0
        self.given = []
        self.results = []
        self.exact = {}

    def value(self, row):
        """Mean over all recorded samples of the sum of the leaves this row falls in, in original units."""
        total = 0.0
        for trees in self.shapes:
            for s in trees:
                while s[0] != "L":
                    s = s[4] if row[s[2]] <= s[3] else s[5]
                total += s[2]
        return self.lo + (total / len(self.shapes) + 0.5) * (self.hi - self.lo)

    def want(self, X):
        return np.array([self.value(row) for row in np.asarray(X, dtype=float)])

    def check(self, got, want, what):
        got = np.asarray(got, dtype=float)
        ok = got.shape == want.shape and bool(np.all(np.abs(got - want) <= 1e-8 * self.scale))
        self.ctx.check(ok, "wrong-" + what, "%s differs from the mean of the recorded samples in original units: %s", what,
                       "shape %s instead of %s" % (got.shape, want.shape) if got.shape != want.shape else
                       "by %g of a target range %g" % (np.max(np.abs(got - want)), self.hi - self.lo))
        self.ctx.count("reads")

    def same(self, key, got):
        """The same call always gives the same numbers."""
        b = np.asarray(got, dtype=float).tobytes()
        self.ctx.check(self.exact.setdefault(key, b) == b, "not-repeatable", "repeating %s gave other numbers", key[0])

    def rows(self, s, m=7):
        return datasets.probes(self.X, derive_seed(self.seed, s % 7), m)

    def read(self, op, s):
        est = self.est
        P = self.rows(s)
        yy = np.linspace(-1.0, 2.0, len(P)) * self.scale
        if op == "predict":
            A = datasets.in_form(P, "array")
            out = est.predict(A)
            self.check(out, self.want(P), "prediction")
            self.same(("predict", s % 7), out)
            self.given.append(A)
            self.results.append(out)
        elif op == "own":
            if self.p["store"]:
                out = est.predict()
                self.check(out, self.want(self.X), "in-sample prediction")
                self.same(("predict without data",), out)
                self.results.append(out)
        elif op == "train":
            self.check(est.predict(self.X.copy()), self.want(self.X), "prediction of the training rows")
        elif op == "training_form":
            self.check(est.predict(datasets.in_form(self.X, datasets.FORMS[s % len(datasets.FORMS)])), self.want(self.X),
                       "prediction of the training rows")
        elif op == "residuals":
            if self.p["store"]:
                self.check(est.residuals(), self.y - self.want(self.X), "residuals")
        elif op == "residuals_x":
            self.check(est.residuals(self.X.copy()), self.y - self.want(self.X), "residuals of the training rows")
        elif op == "residuals_xy":
            A = datasets.in_form(P, datasets.FORMS[s % 3 * (s // 3) % len(datasets.FORMS)])
            B = datasets.target_in(A, yy)
            out = est.residuals(A, B)
            self.check(out, yy - self.want(P), "residuals of new rows")
            self.given += [A, B]
            self.results.append(out)
        elif op == "l2":
            out = np.sqrt(est.l2_error(P.copy(), yy.copy()))
            self.check(out, np.abs(yy - self.want(P)), "squared error")
        elif op == "rmse":
            e = yy - self.want(P)
            A = datasets.in_form(P, datasets.FORMS[s % 3 * (s // 3) % len(datasets.FORMS)])
            self.check(np.array([est.rmse(A, datasets.target_in(A, yy))]), np.array([np.sqrt(np.sum(e ** 2))]), "rmse")
        elif op == "samples":
            if self.p["store"]:
                out = self.lo + (np.mean(est.prediction_samples, axis=0) + 0.5) * (self.hi - self.lo)
                self.check(out, self.want(self.X), "mean of the stored prediction samples")
        elif op == "single":
            for row in P:
                self.check(est.predict(row.reshape(1, -1).copy()), self.want(row.reshape(1, -1)), "prediction of a single row")
        elif op == "permuted":
            order = np.random.RandomState(s).permutation(len(P))
            self.check(est.predict(P[order]), self.want(P)[order], "prediction in another row order")
        elif op == "subset":
            k = 1 + s % len(P)
            self.check(est.predict(P[:k]), self.want(P)[:k], "prediction of some of the rows")
        elif op == "repeat_rows":
            Q = np.vstack([P, P[:1], P])
            self.check(est.predict(Q), self.want(Q), "prediction of repeated rows")
        elif op == "many":
            m = max(1, 2 ** (s % 12) + s % 3 - 1) if s % 5 else [100, 1000, 101, 1001, 500][s % 7 % 5]
            self.check(est.predict(np.resize(P, (m, P.shape[1]))), np.resize(self.want(P), m), "prediction of %d rows" % m)
        elif op == "concat":
            Q = np.vstack([self.X, P])
            self.check(est.predict(Q), self.want(Q), "prediction of training and new rows together")
        elif op == "form":
            form = datasets.FORMS[1:][s % (len(datasets.FORMS) - 1)]
            A = datasets.in_form(P, form)
            self.check(est.predict(A), self.want(P), "prediction of a %s" % form)
            if form != "readonly":
                self.given.append(A)
        elif op == "integers":
            A = np.round(np.clip(P, -1e9, 1e9)).astype([np.int64, np.int32, np.int64][s % 3])
            self.check(est.predict(A), self.want(A), "prediction of rows of integers")
        elif op == "float32":
            A = np.clip(P, -1e30, 1e30).astype(np.float32)
            self.check(est.predict(A), self.want(A), "prediction of rows in single precision")
        elif op == "same_object":
            # one array, filled with other rows between two calls
            A, B = P.copy(), self.rows(s + 1, len(P))
            if s % 2:
                A, B = datasets.in_form(P, "frame"), datasets.in_form(B, "frame")
            self.check(est.predict(A), self.want(A), "prediction")
            if s % 2:
                A.iloc[:] = B.values
            else:
                A[...] = B
            self.check(est.predict(A), self.want(B), "prediction of an array filled anew")
        else:
            raise KeyError(op)


def derive_seed(a, b):
    return a * 31 + b


def spoil(A):
    if isinstance(A, (pd.DataFrame, pd.Series)) or A.flags.writeable:
        datasets.overwrite(A, -77.0)


def run(ctx, plan):
    p, w = plan["params"], estim.world_of(plan)
    if w["mode"] == "serial":
        p = dict(p, n_jobs=1)
    X, y = datasets.arrays(plan["data"])
    X2, y2 = datasets.arrays(plan["data2"])
    world = dict(w, schedule=dict(w["schedule"], rate=plan["rate"]) if "rate" in w["schedule"] else w["schedule"])
    with estim.open_sim(ctx, world, faults=plan["faults"]) as sim, estim.backend(w["mode"]):
        sim.begin_op(0)
        est = estim.make(p)
        if plan["source"] == "refit":
            est.fit(X2.copy(), y2.copy())
            est.predict(X2.copy())
        if plan["source"] == "extract":
            from bartpy.runner import run_models
            sim.begin_op(0)
            A = datasets.in_form(X, plan["form"])
            est = run_models(est, [X2.copy(), A], [y2.copy(), datasets.target_in(A, y)])[1]
        else:
            sim.begin_op(0)
            A = datasets.in_form(X, plan["form"])
            est.fit(A, datasets.target_in(A, y))
        if plan["source"] in ("pickle", "deepcopy"):
            est = estim.clone_of(est, plan["source"])
        reader = Reader(ctx, est, p, X, y, w["seed"])
        before = estim.behaviour(est, X)
        sim.begin_op(1)
        others = []
        for op, s in plan["ops"]:
            if op == "mutate_args":
                for A in reader.given:
                    spoil(A)
            elif op == "mutate_result":
                for A in reader.results:
                    spoil(A)
            elif op == "fit_clone":
                others.append(estim.clone_of(est, ["clone", "copy", "deepcopy"][s % 3]))
                others[-1].fit(X2.copy(), y2.copy())
                others[-1].predict(X2.copy())
            elif op == "other_fit":
                others.append(estim.make(p))
                others[-1].fit(X2.copy(), y2.copy())
                others[-1].predict(X2.copy())
            elif op == "pickle":
                estim.clone_of(est, "pickle").predict(X.copy())
            else:
                reader.read(op, s)
        sim.begin_op(2)
        tasks = []
        for i, reads in enumerate(plan["threads"]):
            tasks.append(sim.spawn("reader%d" % i, lambda reads=reads: [reader.read(op, s) for op, s in reads], 40 + i, True))
        sim.join(tasks)
        for t in tasks:
            if t.exc is not None and not isinstance(t.exc, Injected):
                raise t.exc
        if tasks:
            ctx.count("concurrent_readers", len(tasks))
        sim.begin_op(3)
        for op, s in plan["ops"]:
            if op in READS:
                reader.read(op, s)
        diff = estim.differs(before, estim.behaviour(est, X))
        ctx.check(diff is None, "reading-changes", "reading changed what the estimator reports: %s", diff)
        ctx.state(w["mode"], plan["source"], [o[0] for o in plan["ops"]], [tuple(s) for s in sim.schedule.made][:60])
