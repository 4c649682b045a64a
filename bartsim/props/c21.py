"""Feature selection keeps exactly the columns that beat their threshold."""
import math

import numpy as np

from .. import datasets, estim, ref
from ..core import Ctx, Injected, derive
from ..runner import pristine
from ..sim import Sim
from .c08 import arguments
from .common import EST_REAL, EST_STUBS as STUBS, EST_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 600, "thorough": 9000}
REAL = EST_REAL + ["bartpy.features.featureselection", "bartpy.diagnostics.features", "bartpy.runner", "scikit-learn's SelectorMixin"]
RULE = ("A run takes one feature selector through fits, failed fits and reads, with its models trained by simulated workers. "
        "distinct_nontrivial counts distinct (kind of selector, quantile, permutations, operations, support, scheduling decisions) "
        "combinations.")

COLS = ["normal", "unif", "int3", "int9", "binary", "const", "const", "unique", "neg", "dup"]


def gen(r, index, tier):
    kind = r.choice(["local", "local", "global", "global", "split"])
    p = estim.gen_params(r, chains=r.choice([1, 1, 2, 3]), big=0.0)
    p["n_samples"] = min(p["n_samples"], 5)
    p["n_trees"] = min(p["n_trees"], 5)
    ops = []
    for k in range(r.choice([1, 1, 2, 3])):
        ops.append([r.choice(["fit", "fit", "fit", "fail"]), r.randrange(2), r.randrange(1 << 20)])
        if r.random() < 0.2:
            ops.append([r.choice(["clone", "deepcopy", "pickle"]), 0, 0])
    if not any(o[0] == "fit" for o in ops):
        ops.append(["fit", 0, 0])
    sets = [{"n": r.randint(4, 20), "cols": [r.choice(COLS) for _ in range(r.randint(1, 5))], "y": r.choice(["lin", "step", "noise", "int", "two"]),
             "seed": r.randrange(1 << 30)} for _ in range(2)]
    many = None
    if kind != "split" and r.random() < 0.05:
        # enough permutations to judge how they are drawn
        many = r.randint(20, 40)
        for d in sets:
            d.update(n=60, cols=[r.choice(COLS) for _ in range(2)], y=r.choice(["lin", "noise", "two"]))
        p.update(n_trees=1, n_samples=1, n_burn=0, n_chains=1)
        ops = [["fit", 0, 0]]
    elif r.random() < 0.06:
        # more columns than digits
        for d in sets:
            d["cols"] = [r.choice(COLS) for _ in range(r.randint(11, 13))]
    return {"kind": kind, "params": p, "world": estim.gen_world(r, ("isolated", "isolated", "threads", "serial")), "ops": ops, "sets": sets,
            "percentile": r.choice([0.0, 0.05, 0.2, 0.25, 0.5, 0.5, 0.75, 0.9, 0.95, 0.95, 1.0]), "permutations": many or r.choice([1, 2, 3, 4, 5, 7]),
            "form": r.choice(["array", "array", "array", "frame", "reindexed", "flags", "small"]),
            "made": r.choice(["new", "new", "new", "clone", "set_params", "from_other"]),
            "trees": r.choice([None, None, None, 1, 4]), "fitted": r.random() < 0.3}


# ------------------------------------------------------------------------------------------------- references

def shares(samples, width):
    """Share of all splits of all trees of all samples made on each column."""
    counts = [0] * width
    for m in samples:
        for t in m.trees:
            for n in ref.walk(ref.root_of(t)):
                if not ref.is_leaf(n):
                    counts[ref.rule_of(n)[0]] += 1
    total = sum(counts)
    return [c / total if total else 0.0 for c in counts]


def quantile(values, q):
    """Linear interpolation between order statistics, as numpy's default."""
    v = sorted(values)
    at = q * (len(v) - 1)
    lo = int(math.floor(at))
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (v[hi] - v[lo]) * (at - lo)


def thresholds_of(kind, null, q, width):
    if kind == "local":
        return [quantile(null[c], q) for c in range(width)]
    rows = [max(null[c][i] for c in range(width)) for i in range(len(null[0]))]
    return [quantile(rows, q)] * width


def trained_shares(p, X, y, seeds, width):
    """Shares of the model trained by these random streams on these arrays. Inside pristine()."""
    with Sim(Ctx({}), schedule=None, streams=lambda i: seeds[i], cpu=2, main_seed=12345):
        est = estim.make(dict(p, n_jobs=2))
        est.fit(np.array(X), np.array(y))
    return shares(est.model_samples, width)


def support_of(sel):
    try:
        return tuple(bool(x) for x in sel.get_support())
    except Exception as e:      # noqa
        return type(e).__name__


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-9


def drawn_anew(ctx, targets, y):
    """Independent uniform permutations: none twice, and their entries not where they were or next to those they were next to."""
    orders, counts = math.lgamma(len(y) + 1), np.unique(y, return_counts=True)[1]
    orders -= sum(math.lgamma(c + 1) for c in counts)
    pairs = len(targets) * (len(targets) - 1) / 2.0
    if math.log(pairs) - orders < math.log(1e-9):
        kinds = set(t.tobytes() for t in targets)
        ctx.check(len(kinds) == len(targets), "same-permutation", "%d models were trained on %d different orders of the target",
                  len(targets), len(kinds))
        ctx.count("orders_compared", len(targets))
    if len(counts) == len(y) >= 13:
        from scipy import stats
        at = {float(v): i for i, v in enumerate(y)}
        moved = [[at[float(v)] for v in t] for t in targets]
        moved = [m for m in moved if m != list(range(len(y)))]
        for what, total in (("entries are where they were", sum(m[i] == i for m in moved for i in range(len(y)))),
                            ("entries follow the one they followed", sum(m[i + 1] == m[i] + 1 for m in moved for i in range(len(y) - 1)))):
            # each count is Poisson with mean one, up to a factor of e
            ctx.check(float(stats.poisson.sf(total - 1, len(moved))) * math.exp(min(len(moved), 7)) > 1e-12, "not-permuted",
                      "in %d permutations of %d values %d %s", len(moved), len(y), total, what)


# ------------------------------------------------------------------------------------------------- runs

def run(ctx, plan):
    from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
    p, w = plan["params"], estim.world_of(plan)
    if w["mode"] == "serial":
        p = dict(p, n_jobs=1)
    elif p["n_jobs"] == -1 and w["cpu"] == 1:
        w["cpu"] = 3
    n, base, q, perms = p["n_chains"], w["seed"], plan["percentile"], plan["permutations"]
    sets = [datasets.arrays(d) for d in plan["sets"]]
    trail = []
    with estim.open_sim(ctx, w) as sim, estim.backend(w["mode"]):
        sim.begin_op(0)
        template = estim.make(p)
        if plan["fitted"]:
            template.fit(*[a.copy() for a in sets[0]])
        Z = datasets.probes(sets[0][0], base, 5)
        before = estim.behaviour(template, Z)
        if plan["kind"] == "split":
            cls, kw, real = SelectSplitProportionThreshold, dict(percentile=q), p
        else:
            cls, kw = SelectNullDistributionThreshold, dict(percentile=q, method=plan["kind"], n_permutations=perms, n_trees=plan["trees"])
            real = p if plan["trees"] is None else dict(p, n_trees=plan["trees"])
        if plan["made"] in ("new", "clone"):
            sel = cls(template, **kw)
            if plan["made"] == "clone":
                sel = estim.clone_of(sel, "clone")
        else:
            sel = cls(template if plan["made"] == "set_params" else estim.make(estim.other_params(p, base)))
            estim.set_params(sel, **kw)
            if plan["made"] == "from_other":
                estim.set_params(sel, model=template)
        ctx.count("selectors_" + plan["made"])
        for k, (what, which, s) in enumerate(plan["ops"]):
            sim.begin_op(k + 1)
            sim.faults = []
            X, y = sets[which]
            if what in ("clone", "deepcopy", "pickle"):
                was = support_of(sel)
                sel = estim.clone_of(sel, what)
                if what != "clone":
                    ctx.check(support_of(sel) == was, "copy-differs", "a copy (%s) of a selector selects %s instead of %s", what,
                              support_of(sel), was)
                trail.append(what)
                continue
            if what == "fail":
                count = 1 if plan["kind"] == "split" else 1 + perms
                task = "chain%d" % (s % (count * n)) if w["mode"] != "serial" else "main"
                sim.faults = [{"on": "draw", "k": s % 37, "task": task, "op": k + 1, "fired": False,
                               "exc": ["RuntimeError", "KeyboardInterrupt", "MemoryError"] [s % 3] if s % 4 or task == "main" else "die"}]
            old = support_of(sel)
            try:
                A = datasets.in_form(X, plan["form"])
                out = sel.fit(A, datasets.target_in(A, y))
            except BaseException as e:      # noqa
                if not (isinstance(e, Injected) or sim.fired()):
                    raise
                ctx.check(support_of(sel) == old, "failed-fit-changes", "a fit that failed (%s) changed the selection from %s to %s",
                          type(e).__name__, old, support_of(sel))
                sim.drain(20)
                trail.append("failed")
                ctx.count("failed_fits")
                continue
            finally:
                sim.faults = []
            ctx.check(out is sel, "fit-returns-self", "fit did not return the selector")
            trail.append(support_of(sel))
            verify(ctx, plan, sim, sel, real, w, X, y, n, base, q, perms)
        diff = estim.differs(before, estim.behaviour(template, Z))
        ctx.check(diff is None, "template-changed", "the selector changed the model passed to it: %s", diff)
        ctx.state(plan["kind"], q, perms, trail, w["mode"], [tuple(s) for s in sim.schedule.made][:60])
        ctx.event(repr(trail))


def verify(ctx, plan, sim, sel, p, w, X, y, n, base, q, perms):
    from bartpy.diagnostics.features import kept_features, partition_into_passed_and_failed_features
    width, kind = X.shape[1], plan["kind"]
    items = [arguments(it) for it in sim.submissions]
    prop = sel.feature_proportions
    ctx.check(sorted(prop) == list(range(width)), "columns-missing", "proportions are given for columns %s of %d", sorted(prop), width)
    own = shares(sel.model.model_samples, width)
    for c in range(width):
        ctx.check(near(prop[c], own[c]), "wrong-proportion", "column %d: proportion %r, its share of the splits is %r", c, prop[c], own[c])
    parallel = w["mode"] != "serial"
    if parallel:
        ctx.check(len(items) == n * (1 if kind == "split" else 1 + perms), "wrong-number", "%d chains were run", len(items))
        # the model of the data may be trained before or after the models of the null distribution
        groups = list(range(len(items) // n))

        def trained(g):
            a, b = items[n * g]
            return pristine(lambda: trained_shares(p, a, b, [derive("stream", base, n * g + j) for j in range(n)], width))
        fits = {g: trained(g) for g in groups}
        candidates = [g for g in (groups[0], groups[-1]) if all(
            np.array_equal(a, X) and np.array_equal(b, y) for a, b in items[n * g:n * (g + 1)])]
        candidates = [g for g in candidates if all(near(a, b) for a, b in zip(own, fits[g]))]
        ctx.check(candidates, "wrong-model", "the selector's own model is not the model of the data")
    if kind == "split":
        limits = [q] * width
    else:
        null = sel.null_distribution
        ctx.check(sorted(null) == list(range(width)), "columns-missing", "null proportions are given for columns %s", sorted(null))
        for c in range(width):
            ctx.check(len(null[c]) == perms, "wrong-number", "column %d has %d null proportions, not %d", c, len(null[c]), perms)
        if parallel:
            for chunk in (items[n * g:n * (g + 1)] for g in groups):
                for a, b in chunk:
                    ctx.check(np.array_equal(a, X), "covariates-changed", "a permutation was run on other covariates")
                    ctx.check(sorted(b) == sorted(y), "not-a-permutation", "the target of a permutation is not a permutation")
                    ctx.check(np.array_equal(b, chunk[0][1]), "mixed-data", "chains of one permutation have different targets")
            drawn_anew(ctx, [np.asarray(items[n * g][1]) for g in groups], y)
            given = [[null[c][i] for c in range(width)] for i in range(perms)]

            def explained(mine):
                left = list(given)
                for g in groups:
                    if g != mine:
                        k = next((k for k, v in enumerate(left) if all(near(a, b) for a, b in zip(v, fits[g]))), None)
                        if k is None:
                            return False
                        del left[k]
                return True
            ctx.check(any(explained(m) for m in candidates), "wrong-null", "the null proportions %s are not those of the models "
                      "trained on permuted targets, %s", given, [fits[g] for g in groups if g != candidates[0]])
            ctx.count("null_models_checked", perms)
        limits = thresholds_of(kind, null, q, width)
        got = sel.thresholds
        ctx.check(sorted(got) == list(range(width)), "columns-missing", "thresholds are given for columns %s", sorted(got))
        for c in range(width):
            ctx.check(near(got[c], limits[c]), "wrong-threshold", "%s threshold of column %d is %r, quantile %r of its null "
                      "distribution is %r", kind, c, got[c], q, limits[c])
        limits = [got[c] for c in range(width)]     # the last digit decides ties
    expect = [prop[c] > limits[c] for c in range(width)]
    mask = list(sel.get_support())
    ctx.check([bool(x) for x in mask] == expect, "wrong-support", "support %s; the columns above their threshold are %s", mask, expect)
    ctx.check(list(sel.get_support(indices=True)) == [c for c in range(width) if expect[c]], "wrong-support", "support as indices")
    if any(expect):
        out = np.asarray(sel.transform(datasets.in_form(X, plan["form"])), dtype=float)
        ctx.check(np.array_equal(out, X[:, [c for c in range(width) if expect[c]]]), "wrong-transform", "transform does not keep exactly "
                  "the selected columns")
        ctx.count("transforms")
    if kind != "split":
        ctx.check(kept_features(prop, sel.thresholds) == [c for c in range(width) if expect[c]], "wrong-kept", "kept_features gives %s",
                  kept_features(prop, sel.thresholds))
        passed, failed = partition_into_passed_and_failed_features(prop, sel.thresholds)
        ctx.check(sorted(passed) == [c for c in range(width) if expect[c]] and sorted(failed) == [c for c in range(width) if not expect[c]],
                  "wrong-partition", "passed %s and failed %s", sorted(passed), sorted(failed))
    ctx.count("fits_verified")
