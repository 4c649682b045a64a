"""Proposals cover exactly the legal moves with the documented probabilities."""
import numpy as np

from .. import conform, gibbs, oracles, ref
from .common import GIBBS_RULE as RULE, GIBBS_REAL as REAL, GIBBS_STUBS as STUBS, GIBBS_ASSUMES   # noqa: F401

RUNS = {"quick": 750, "thorough": 8000}
ALPHA = 1e-10
ASSUMES = GIBBS_ASSUMES + ["frequencies are judged by chi-square tests at significance 1e-10 per test; differences too small to "
                           "show in a few thousand proposals per state are not seen"]


def gen(r, index, tier):
    if r.random() < 0.15:
        return conform.gen(r)
    plan = gibbs.gen(r, nmax=r.choice([6, 10, 25]), pmax=4, init=0.1, steps=40, faulty=0.2, long=0)
    if plan["kind"] != "deep":
        plan["sweeps"] = min(plan["sweeps"], 25)
        plan["u"] = r.choice(["accept", "mixed", "real"])
    plan["looks"] = r.choice([1, 2, 3])
    plan["many"] = r.choice([1300, 1300, 2500] if tier == "quick" else [2500, 6000])
    plan["alternate"] = r.random() < 0.4
    return plan


def chi2(ctx, counts, probs, total, label):
    from scipy import stats
    o, e = [], []
    small_o = small_e = 0.0
    for k, q in probs.items():
        if q * total >= 8:
            o.append(counts.get(k, 0))
            e.append(q * total)
        else:
            small_o += counts.get(k, 0)
            small_e += q * total
    if small_e >= 8:
        o.append(small_o)
        e.append(small_e)
        small_o = small_e = 0
    if len(o) < 2:
        return
    if small_e > 0:
        # the leftovers are too few to be tested, compare the rest conditionally
        scale = (total - small_o) / (total - small_e) if total > small_e else 1.0
        e = [x * scale for x in e]
    o, e = np.array(o, dtype=float), np.array(e, dtype=float)
    stat = float(((o - e) ** 2 / e).sum())
    p = float(stats.chi2.sf(stat, len(o) - 1))
    ctx.count("frequency_tests")
    ctx.check(p > ALPHA, "wrong-frequencies", "%s: proposed %s times where %s were expected (p=%.2g of %d)", label,
              [int(x) for x in o][:8], [round(float(x), 1) for x in e][:8], p, total)


def legal_moves(root, X):
    """Leaves: {id: (rows, columns)}, prunable splits."""
    leaves, prunable = {}, []
    for node, rows in ref.rows_by_node(root, X):
        if ref.is_leaf(node):
            cols = ref.splittable_columns(X, rows)
            if cols:
                leaves[id(node)] = (rows, cols)
        elif ref.is_leaf(node.left_child) and ref.is_leaf(node.right_child):
            prunable.append(id(node))
    return leaves, prunable


def note(ctx, X, tree, leaves, prunable, m, tally):
    if not leaves and not prunable:
        ctx.check(m is None, "illegal-move", "a move was proposed for a tree that has none")
        return
    ctx.check(m is not None, "no-move-proposed", "no move was proposed although %d leaves can be split and %d splits pruned",
              len(leaves), len(prunable))
    nid = id(m.existing_node)
    if m.kind == "prune":
        ctx.check(nid in prunable, "illegal-move", "a prune of a node that is not a split with two leaf children")
        tally["prune"][nid] = tally["prune"].get(nid, 0) + 1
        return
    ctx.check(m.kind == "grow" and nid in leaves, "illegal-move", "a %s of a node that is no splittable leaf of the tree", m.kind)
    rows, cols = leaves[nid]
    v, t = ref.rule_of(m.updated_node)
    ctx.check(v in cols, "illegal-column", "a split on column %d, which is constant in the leaf", v)
    vals = X[rows][:, v]
    ctx.check(bool((vals == t).any()) and t < vals.max(), "illegal-threshold", "a split of values %s at %r",
              np.unique(vals)[:8].tolist(), t)
    g = tally["grow"].setdefault(nid, {})
    g.setdefault(v, {})
    g[v][t] = g[v].get(t, 0) + 1


def judge(ctx, X, leaves, prunable, tally, p, label):
    n_prune = sum(tally["prune"].values())
    n_grow = sum(sum(c.values()) for g in tally["grow"].values() for c in g.values())
    total = n_prune + n_grow
    if leaves and prunable:
        chi2(ctx, {"grow": n_grow, "prune": n_prune}, {"grow": p[0], "prune": p[1]}, total, "%s: grow or prune" % label)
    if prunable and n_prune:
        chi2(ctx, tally["prune"], {k: 1.0 / len(prunable) for k in prunable}, n_prune, "%s: which split to prune" % label)
    if leaves and n_grow:
        per = {k: sum(sum(c.values()) for c in tally["grow"].get(k, {}).values()) for k in leaves}
        chi2(ctx, per, {k: 1.0 / len(leaves) for k in leaves}, n_grow, "%s: which leaf to split" % label)
        for k, (rows, cols) in leaves.items():
            got = {v: sum(tally["grow"].get(k, {}).get(v, {}).values()) for v in cols}
            chi2(ctx, got, {v: 1.0 / len(cols) for v in cols}, per[k], "%s: which column" % label)
            for v in cols:
                vals = X[rows][:, v]
                ok = vals[vals < vals.max()]
                u, c = np.unique(ok, return_counts=True)
                probs = {float(a): float(b) / len(ok) for a, b in zip(u, c)}
                chi2(ctx, tally["grow"].get(k, {}).get(v, {}), probs, got[v], "%s: threshold of column %d" % (label, v))
                ctx.count("legal_splits", len(probs))


class Legal(oracles.Observer):
    """Every proposal made while sampling is legal for the tree at that moment."""

    def before_propose(self, w, tree):
        self.legal = legal_moves(ref.root_of(tree), w.X)

    def proposed(self, w, tree, m):
        if isinstance(m, list):
            return
        note(w.ctx, w.X, tree, self.legal[0], self.legal[1], m, {"prune": {}, "grow": {}})
        w.ctx.count("proposals_checked")


def run(ctx, plan):
    if plan.get("level") == "fit":
        return conform.run(ctx, plan, ("kinds",))
    def body(w):
        per = max(1, plan["sweeps"] // plan["looks"])
        for look in range(plan["looks"]):
            for _ in range(per):
                w.guarded_sweep()
            trees = list(w.model.trees)
            w.rng.shuffle(trees)
            # several trees in turn, sharing the proposer's pre-drawn numbers
            some = trees[:w.rng.choice([1, 2])] if plan["alternate"] else trees[:1]
            legal = [legal_moves(ref.root_of(t), w.X) for t in some]
            tally = [{"prune": {}, "grow": {}} for _ in some]
            w.sim.faults = [f for f in w.sim.faults if f["fired"]]
            n = plan["many"] if any(a or b for a, b in legal) else 30
            if len(w.X) > 200:
                n = min(n, 1000)
            w.sim.max_draws = w.sim.draws + 1000 * n * len(w.X)     # how soon a threshold is found is not judged here
            for k in range(n * len(some)):
                j = k % len(some)
                m = w.proposer.propose(some[j])
                note(ctx, w.X, some[j], legal[j][0], legal[j][1], m, tally[j])
                ctx.count("proposals_checked")
            for j, t in enumerate(some):
                judge(ctx, w.X, legal[j][0], legal[j][1], tally[j], w.p, "tree with %d splittable leaves, %d prunable splits" % (
                    len(legal[j][0]), len(legal[j][1])))
                if legal[j][0] and legal[j][1]:
                    ctx.count("states_with_both_kinds")
    gibbs.simulate(ctx, plan, [Legal()], body)
