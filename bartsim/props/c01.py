from .. import gibbs, oracles
from .common import GIBBS_RULE as RULE, GIBBS_REAL as REAL, GIBBS_STUBS as STUBS, GIBBS_ASSUMES as ASSUMES   # noqa: F401

RUNS = {"quick": 2000, "thorough": 30000}


def gen(r, index, tier):
    return gibbs.gen(r, given=0.1, init=0.25, nmin=1, oblivious=0.06)


def run(ctx, plan):
    gibbs.simulate(ctx, plan, [oracles.Partition()])
