from .. import conform, gibbs, oracles
from .common import GIBBS_RULE as RULE, GIBBS_REAL as REAL, GIBBS_STUBS as STUBS, GIBBS_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 1000, "thorough": 25000}


def gen(r, index, tier):
    if r.random() < 0.15:
        return conform.gen(r)
    return gibbs.gen(r, given=0.1, init=0.12, oblivious=0.06)


def run(ctx, plan):
    if plan.get("level") == "fit":
        return conform.run(ctx, plan, ("leaf", "sigma"))
    gibbs.simulate(ctx, plan, [oracles.Conditionals()])
