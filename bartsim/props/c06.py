"""Chain results do not depend on how workers are scheduled."""
from .. import datasets, estim
from ..core import derive
from ..runner import pristine
from .common import EST_REAL as REAL, EST_STUBS as STUBS, EST_ASSUMES as ASSUMES, EST_RULE as RULE   # noqa: F401

RUNS = {"quick": 600, "thorough": 15000}


def gen(r, index, tier):
    return {"data": datasets.gen(r, nmin=3, nmax=25, pmax=4), "params": estim.gen_params(r, chains=r.choice([2, 2, 3, 4, 5, 9])),
            "world": estim.gen_world(r), "schedule": None, "form": r.choice(["array", "array", "frame", "small", "flags"]),
            "reference": r.choice(["all", "some"])}


def run(ctx, plan):
    p, w, d = plan["params"], estim.world_of(plan), plan["data"]
    n = p["n_chains"]
    seeds = [derive("stream", w["seed"], i) for i in range(n)]
    which = range(n) if plan["reference"] == "all" else [0, n - 1]
    refs = {i: pristine(lambda i=i: estim.reference_chain(p, d, seeds[i], plan["form"])) for i in which}
    X, y = datasets.arrays(d)
    with estim.open_sim(ctx, w, streams=lambda i: seeds[i]) as sim:
        est = estim.make(p)
        with estim.backend(w["mode"]):
            sim.begin_op(0)
            A = datasets.in_form(X, plan["form"])
            out = est.fit(A, datasets.target_in(A, y))
        ctx.check(out is est, "fit-returns-self", "fit did not return the estimator")
        serial = sim.submitted == 0
        ctx.state(w["mode"], n, p["n_jobs"], [tuple(s) for s in sim.schedule.made], serial)
        ctx.event(repr(estim.fit_chain(est))[:2000])
    whole = estim.fit_chain(est)
    check_counts(ctx, p, est, whole)
    if serial:
        return
    parts = estim.split_chain(whole, n)
    for i in which:
        diff = estim.differs(refs[i], parts[i])
        ctx.check(diff is None, "chain-differs", "chain %d of %d (%s, n_jobs=%s) differs from the same chain run alone: %s",
                  i, n, w["mode"], p["n_jobs"], diff)


def check_counts(ctx, p, est, whole):
    n = p["n_chains"]
    parts = estim.split_chain(whole, n)
    ctx.check(parts is not None, "uneven-chains", "%d models, %d predictions, %d acceptance records cannot be split into %d "
              "chains", len(whole["model"]), len(whole["pred"]), len(whole["acc"]), n)
    m = len(whole["model"])
    ctx.check(m > 0, "nothing-recorded", "no sample was recorded")
    ctx.check(len(whole["pred"]) == (m if p["store"] else 0), "prediction-count", "%d models but %d stored predictions", m,
              len(whole["pred"]))
    ctx.check(len(whole["acc"]) == (m if p["store_acc"] else 0), "acceptance-count", "%d models but %d acceptance records", m,
              len(whole["acc"]))
    distinct = len(set(repr(x) for x in whole["model"]))
    ctx.check(distinct == m, "sample-twice", "only %d of %d recorded samples are distinct", distinct, m)
    ctx.check(len(est.extract) == n, "extract-count", "%d chains kept of %d", len(est.extract), n)
    for i in range(n):
        diff = estim.differs(estim.chain_print(est.extract[i]), parts[i])
        ctx.check(diff is None, "extract-order", "the published samples of chain %d are not those of chain %d: %s", i, i, diff)
