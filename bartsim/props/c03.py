from .. import gibbs, oracles
from .common import GIBBS_RULE as RULE, GIBBS_REAL as REAL, GIBBS_STUBS as STUBS, GIBBS_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 1200, "thorough": 30000}


def gen(r, index, tier):
    return gibbs.gen(r, given=0.1, init=0.2, oblivious=0.1)


def run(ctx, plan):
    gibbs.simulate(ctx, plan, [oracles.Targets()])
