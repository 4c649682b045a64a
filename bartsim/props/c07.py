"""Chains never share randomness."""
from .. import datasets, estim
from ..core import derive
from ..runner import pristine
from .c06 import check_counts
from .common import EST_REAL as REAL, EST_STUBS as STUBS, EST_ASSUMES as ASSUMES, EST_RULE as RULE   # noqa: F401

RUNS = {"quick": 450, "thorough": 15000}


def gen(r, index, tier):
    p = estim.gen_params(r, chains=r.choice([2, 2, 3, 4, 6]), burn=r.choice([0, 0, 1, 3]))
    if r.random() < 0.05:
        p.update(n_trees=4, n_samples=300, n_chains=2, thin=0.1)     # crosses the refill of pre-drawn numbers
    if r.random() < 0.04:
        # very many small chains: numbers that are shared only when two chains happen to choose alike
        p.update(n_trees=r.choice([1, 2]), n_samples=1, n_burn=0, n_chains=r.choice([30, 45, 60]), thin=1.0)
    return {"data": datasets.gen(r, nmin=3, nmax=20, pmax=3), "data2": datasets.gen(r, nmin=3, nmax=15, pmax=3), "params": p,
            "world": estim.gen_world(r, ("isolated", "threads", "threads", "serial", "multiprocessing")), "schedule": None,
            "history": estim.gen_history(r), "change": r.randrange(8), "again": r.random() < 0.5}


def values(chain):
    """All leaf values and sigmas of a chain's samples."""
    leaves, sigmas = set(), set()

    def down(s):
        if s[0] == "L":
            leaves.add(s[2])
        else:
            down(s[4])
            down(s[5])
    for sigma, trees, _ in chain["model"]:
        sigmas.add(sigma)
        for t in trees:
            down(t)
    return leaves, sigmas


def disjoint(ctx, parts, label):
    vals = [values(c) for c in parts]
    for i in range(len(vals)):
        for j in range(i):
            a = vals[i][0] & vals[j][0]
            ctx.check(not a, "leaf-value-shared", "%s: chains %d and %d share %d leaf values", label, j, i, len(a))
            a = vals[i][1] & vals[j][1]
            ctx.check(not a, "sigma-shared", "%s: chains %d and %d share %d sigma values", label, j, i, len(a))
    ctx.count("chain_pairs_compared", len(vals) * (len(vals) - 1) // 2)


def run(ctx, plan):
    p, w, d = dict(plan["params"]), estim.world_of(plan), plan["data"]
    if w["mode"] == "serial":
        p["n_jobs"] = 1
    n = p["n_chains"]
    seeds = [derive("stream", w["seed"], i) for i in range(n)]
    parallel = w["mode"] != "serial" and not (p["n_jobs"] == -1 and w["cpu"] == 1)
    look = sorted(set([plan["change"] % n, 0]))
    refs = {i: pristine(lambda i=i: estim.reference_chain(p, d, seeds[i])) for i in look} if parallel else {}
    X, y = datasets.arrays(d)
    current = list(seeds)
    with estim.open_sim(ctx, w, streams=lambda i: current[i] if i < n else derive("extra", i)) as sim, estim.backend(w["mode"]):
        est, kept = estim.play(ctx, sim, estim.make(p), p, plan["history"], plan["data2"])
        sim.begin_op(1)
        before = len(sim.seeded)
        est.fit(X.copy(), y.copy())
        first = estim.fit_chain(est)
        check_counts(ctx, p, est, first)
        parts = estim.split_chain(first, n)
        disjoint(ctx, parts, "one fit")
        seeded = {}
        for task, seed in sim.seeded[before:] if parallel else ():
            if task.startswith("chain"):
                other = seeded.setdefault(seed, task)
                ctx.check(other == task, "same-seed", "%s and %s both start a random generator from %s", other, task, seed)
        if parallel:
            for i in look:
                diff = estim.differs(refs[i], parts[i])
                ctx.check(diff is None, "chain-differs", "chain %d differs from the same chain in a fresh process: %s (history %s)",
                          i, diff, [h[0] for h in plan["history"]])
        j = plan["change"] % n
        if plan["again"]:
            # another stream for one chain: only that chain changes
            current[j] = derive("other", w["seed"])
            who = est if plan["change"] % 2 else estim.make(p)
            sim.begin_op(2)
            who.fit(X.copy(), y.copy())
            second = estim.split_chain(estim.fit_chain(who), n)
            ctx.check(second is not None, "uneven-chains", "the refit holds an uneven number of samples")
            disjoint(ctx, second, "refit")
            if parallel:
                for i in range(n):
                    same = estim.differs(parts[i], second[i]) is None
                    ctx.check(same == (i != j), "stream-crosstalk", "after changing the stream of chain %d, chain %d is %s", j, i,
                              "unchanged" if same else "changed")
                disjoint(ctx, [parts[j], second[j]], "two fits")
        ctx.state(w["mode"], n, p["n_jobs"], [h[0] for h in plan["history"]], [tuple(s) for s in sim.schedule.made][:200])
        ctx.event(repr(first)[:3000])
