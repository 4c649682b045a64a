"""Invariants over the Gibbs world, attached as observers."""
import numpy as np

from . import datasets, ref
from .core import rnd


class Observer:
    def attach(self, w):
        pass


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return False
    return bool((np.abs(a - b) <= tol * (1.0 + np.maximum(np.abs(a), np.abs(b)))).all())


def worst(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "shapes %s and %s" % (a.shape, b.shape)
    d = np.abs(a - b)
    i = int(np.nanargmax(d)) if d.size and not np.isnan(d).all() else 0
    return "index %d: %r and %r" % (i, float(a.flat[i]) if a.size else None, float(b.flat[i]) if b.size else None)


# ------------------------------------------------------------------------------------------------ C01

def check_tree(ctx, tree, X, label, probes=None):
    """Well-formedness and partition of one tree."""
    nodes = tree.nodes
    ids = [id(n) for n in nodes]
    ctx.check(len(set(ids)) == len(ids), "node-listed-twice", "%s: a node is listed twice", label)
    root = ref.root_of(tree)
    ctx.check(root is not None, "no-single-root", "%s: the listed nodes do not have exactly one root", label)
    try:
        reach = ref.walk(root)
    except RuntimeError as e:
        ctx.fail("links-not-a-tree", "%s: %s" % (label, e))
    ctx.check(len(reach) == len(nodes) and set(id(n) for n in reach) == set(ids), "list-differs-from-links",
              "%s: %d nodes listed but %d reachable from the root", label, len(nodes), len(reach))
    ctx.check(int(root.depth) == 0, "root-depth", "%s: root at depth %s", label, root.depth)
    leaves = [n for n in reach if ref.is_leaf(n)]
    inner = [n for n in reach if not ref.is_leaf(n)]
    got = set(id(n) for n in tree.leaf_nodes)
    ctx.check(got == set(id(n) for n in leaves) and len(tree.leaf_nodes) == len(leaves), "leaf-set",
              "%s: leaf_nodes lists %d nodes, the tree has %d leaves", label, len(tree.leaf_nodes), len(leaves))
    got = [id(n) for n in tree.decision_nodes]
    ctx.check(sorted(got) == sorted(id(n) for n in inner), "decision-set",
              "%s: decision_nodes lists %d nodes, the tree has %d splits", label, len(got), len(inner))
    for n in inner:
        ctx.check(n.left_child is not None and n.right_child is not None, "one-child", "%s: a split with one child", label)
        for c in (n.left_child, n.right_child):
            ctx.check(int(c.depth) == int(n.depth) + 1, "child-depth", "%s: child at depth %s under depth %s",
                      label, c.depth, n.depth)
        lc, rc = n.left_child.split.most_recent_split_condition(), n.right_child.split.most_recent_split_condition()
        ctx.check(lc is not None and rc is not None and int(lc.splitting_variable) == int(rc.splitting_variable)
                  and float(lc.splitting_value) == float(rc.splitting_value), "children-disagree-on-threshold",
                  "%s: left child split by %s, right child by %s", label, lc, rc)
    prunable = [n for n in inner if ref.is_leaf(n.left_child) and ref.is_leaf(n.right_child)]
    got = [id(n) for n in tree.prunable_decision_nodes]
    ctx.check(sorted(got) == sorted(id(n) for n in prunable), "prunable-set",
              "%s: %d prunable nodes reported, %d exist", label, len(got), len(prunable))
    rows_of = ref.rows_by_node(root, X)
    total = np.zeros(len(X), dtype=int)
    splittable = []
    for node, rows in rows_of:
        n = int(rows.sum())
        ctx.check(n > 0, "empty-node", "%s: a node at depth %s holds no row", label, node.depth)
        inside = np.asarray(node.split.condition())
        ctx.check(inside.dtype == bool and np.array_equal(inside, rows), "rows-differ-from-thresholds",
                  "%s: node at depth %s holds rows %s, its thresholds select %s", label, node.depth,
                  np.nonzero(inside)[0].tolist()[:12], np.nonzero(rows)[0].tolist()[:12])
        ctx.check(np.array_equal(~np.asarray(node.data.mask), rows), "data-rows-differ",
                  "%s: data of a node at depth %s has other rows than its thresholds select", label, node.depth)
        ctx.check(int(node.data.X.n_obsv) == n, "row-count", "%s: n_obsv is %s for %d rows", label, node.data.X.n_obsv, n)
        if ref.is_leaf(node):
            total += inside.astype(int)
            if ref.splittable_columns(X, rows):
                splittable.append(id(node))
    ctx.check((total == 1).all(), "not-a-partition", "%s: row %d lies in %d leaves", label,
              int(np.argmax(total != 1)), int(total[np.argmax(total != 1)]))
    got = [id(n) for n in tree.splittable_leaf_nodes]
    ctx.check(sorted(got) == sorted(splittable), "splittable-set",
              "%s: %d splittable leaves reported, %d exist", label, len(got), len(splittable))
    if probes is not None:
        check_new_rows(ctx, tree, root, probes, label)


def check_new_rows(ctx, tree, root, probes, label):
    claims = np.zeros(len(probes), dtype=int)
    expect = dict((id(n), rows) for n, rows in ref.rows_by_node(root, probes))
    for leaf in tree.leaf_nodes:
        got = np.asarray(leaf.split.condition(probes))
        claims += got.astype(int)
        ctx.check(np.array_equal(got, expect[id(leaf)]), "new-row-in-wrong-leaf",
                  "%s: a leaf claims new rows %s, following the thresholds leads rows %s to it", label,
                  np.nonzero(got)[0].tolist()[:12], np.nonzero(expect[id(leaf)])[0].tolist()[:12])
    ctx.check((claims == 1).all(), "new-row-not-in-one-leaf", "%s: a new row falls in %d leaves", label,
              int(claims[np.argmax(claims != 1)]))


class Partition(Observer):
    def attach(self, w):
        self.probes = datasets.probes(w.X, w.plan["seed"])
        for i, t in enumerate(w.model.trees):
            if w.observing():
                check_tree(w.ctx, t, w.X, "initial tree %d" % i, self.probes)

    def tree_post(self, w, tree, i, result):
        if w.observing():
            check_tree(w.ctx, tree, w.X, "tree %d after step %d" % (i, w.tree_steps),
                       self.probes if w.obs_rng.random() < 0.3 else None)

    def sweep_end(self, w):
        if w.obs_rng.random() < 0.2:
            for i, t in enumerate(w.model.trees):
                check_tree(w.ctx, t, w.X, "tree %d after sweep %d" % (i, w.sweeps), self.probes)


# ------------------------------------------------------------------------------------------------ C02

EXACT = 1e-11          # only rounding in the order of summation


class Predictions(Observer):
    def check(self, w, label):
        X = w.X
        want = ref.predict_trees(w.model.trees, X)
        inside = w.model.predict()
        w.ctx.check(close(inside, want, EXACT), "in-sample-prediction", "%s: in-sample prediction differs from the sum of leaf "
                    "values (%s)", label, worst(inside, want))
        out = w.model.predict(X.copy())
        w.ctx.check(close(out, want, EXACT), "out-of-sample-prediction", "%s: prediction of the training rows as new data "
                    "differs from the sum of leaf values (%s)", label, worst(out, want))
        if w.obs_rng.random() < 0.2:
            out = w.model.predict(datasets.in_form(X, "frame"))
            w.ctx.check(close(out, want, EXACT), "frame-prediction", "%s: prediction from a data frame differs (%s)", label,
                        worst(out, want))
        for i, t in enumerate(w.model.trees):
            if w.obs_rng.random() < 0.15:
                a, b = t.predict(), t.predict(X)
                w.ctx.check(close(a, b, EXACT) and close(a, ref.predict_tree(t, X), EXACT), "tree-prediction",
                            "%s: tree %d predicts %s in and out of sample", label, i, worst(a, b))
        r = w.model.residuals()
        w.ctx.check(close(r, w.yn - want, EXACT), "residuals", "%s: residuals differ from target minus prediction (%s)", label,
                    worst(r, w.yn - want))

    def attach(self, w):
        if w.observing():
            self.check(w, "initial model")

    def sweep_end(self, w):
        if w.observing():
            self.check(w, "sweep %d" % w.sweeps)


# ------------------------------------------------------------------------------------------------ C03

class Targets(Observer):
    """Every tree sees the residual of all the others when it is about to be sampled."""

    def attach(self, w):
        self.seen = []
        w.ctx.check(close(w.model.data.y.values, w.yn), "normalized-target", "the model's target is not the normalized "
                    "training target (%s)", worst(w.model.data.y.values, w.yn))

    def sweep_start(self, w):
        self.seen = []

    def tree_pre(self, w, tree, i):
        self.seen.append(i)
        want = w.target_for(i)
        for node in tree.nodes:
            got = node.data.y.values
            w.ctx.check(got is not None and close(got, want, 1e-7), "stale-target",
                        "tree %d of sweep %d: node at depth %s sees a target other than the residual of the other trees (%s)",
                        i, w.sweeps, node.depth, "None" if got is None else worst(got, want))

    def leaf_pre(self, w, leaf):
        i = self.seen[-1]
        if w.observing():
            want = w.target_for(i)
            got = leaf.data.y.values
            w.ctx.check(close(got, want, 1e-7), "stale-leaf-target", "a leaf of tree %d is drawn against a stale target (%s)",
                        i, worst(got, want))
            w.ctx.check(any(leaf is n for n in w.model.trees[i].nodes), "leaf-not-in-tree",
                        "a leaf outside the current tree is sampled")

    def sweep_end(self, w):
        w.ctx.check(self.seen == list(range(len(w.model.trees))), "sweep-order", "one sweep sampled trees %s of %d",
                    self.seen[:20], len(w.model.trees))
        # the residual the sigma step is based on
        want = w.yn - ref.predict_trees(w.model.trees, w.X)
        if w.observing():
            w.ctx.check(close(w.model.residuals(), want, 1e-7), "residuals", "residuals at the end of a sweep are stale")
        w.ctx.check(close(w.model.data.y.values, w.yn), "target-overwritten", "the model's own target changed")


# ------------------------------------------------------------------------------------------------ C04

def check_stats(ctx, node, rows, X, target, label, r):
    """Every statistic a node reports against a recomputation from its rows. Queried in random order."""
    sub = X[rows]
    n = len(sub)
    cols = list(range(X.shape[1]))
    D = node.data
    want_split = ref.splittable_columns(X, rows)

    def count():
        ctx.check(int(D.X.n_obsv) == n, "stat-count", "%s: n_obsv %s for %d rows", label, D.X.n_obsv, n)

    def ysum():
        got, want = float(D.y.summed_y()), float(np.sum(target[rows]))
        tol = 1e-7 * (1.0 + float(np.sum(np.abs(target[rows]))))
        ctx.check(abs(got - want) <= tol, "stat-sum", "%s: sum of the target is %r, reported %r", label, want, got)

    def column():
        j = r.choice(cols)
        got = np.asarray(D.X.get_column(j))
        ctx.check(np.array_equal(got, sub[:, j]), "stat-column", "%s: values of column %d differ", label, j)

    def split():
        got = [int(x) for x in D.X.splittable_variables()]
        ctx.check(got == want_split, "stat-splittable", "%s: splittable columns reported %s, are %s", label, got, want_split)
        ctx.check(int(D.X.n_splittable_variables) == len(want_split), "stat-n-splittable",
                  "%s: n_splittable_variables %s", label, D.X.n_splittable_variables)

    def any_split():
        got = bool(D.X.is_at_least_one_splittable_variable())
        ctx.check(got == bool(want_split), "stat-any-splittable", "%s: is_at_least_one_splittable_variable is %s", label, got)
        if hasattr(node, "is_splittable"):
            ctx.check(bool(node.is_splittable()) == bool(want_split), "stat-is-splittable", "%s: is_splittable wrong", label)

    def unique():
        j = r.choice(cols)
        got, want = bool(D.X.is_column_unique(j)), ref.distinct(sub[:, j]) == n
        ctx.check(got == want, "stat-unique", "%s: column %d unique reported %s, is %s", label, j, got, want)

    def maximum():
        j = r.choice(cols)
        got = float(D.X.max_value_of_column(j))
        ctx.check(got == float(sub[:, j].max()), "stat-max", "%s: max of column %d is %r, reported %r", label, j,
                  float(sub[:, j].max()), got)

    def freq():
        j = r.choice(cols)
        v = sub[r.randrange(n), j]
        got, want = float(D.X.proportion_of_value_in_variable(j, v)), float(np.mean(sub[:, j] == v))
        ctx.check(abs(got - want) < 1e-12, "stat-frequency", "%s: frequency of %r in column %d is %r, reported %r", label,
                  float(v), j, want, got)

    todo = [count, ysum, column, split, any_split, unique, maximum, freq]
    r.shuffle(todo)
    for f in todo[:r.choice([2, 4, 8])]:
        f()


class Stats(Observer):
    def _all(self, w, tree, i, where):
        target = w.target_for(i)
        root = ref.root_of(tree)
        for node, rows in ref.rows_by_node(root, w.X):
            if w.obs_rng.random() < w.plan["observe"]:
                check_stats(w.ctx, node, rows, w.X, target, "%s, tree %d, depth %d" % (where, i, node.depth), w.obs_rng)

    def tree_pre(self, w, tree, i):
        self.i, self.target = i, None
        if w.observing():
            self._all(w, tree, i, "before step %d" % w.tree_steps)

    def proposed(self, w, tree, p):
        if p is None or isinstance(p, list) or not w.observing():
            return
        target = w.target_for(w.index_of(tree))
        rows = dict((id(n), (n, rw)) for n, rw in ref.rows_by_node(ref.root_of(tree), w.X))
        if id(p.existing_node) not in rows:
            return
        base = rows[id(p.existing_node)][1]
        if p.kind == "grow":
            v, t = ref.rule_of(p.updated_node)
            left = base & (w.X[:, v] <= t)
            todo = [(p.updated_node, base), (p.updated_node.left_child, left), (p.updated_node.right_child, base & ~left)]
        else:
            todo = [(p.updated_node, base)]
        for node, rw in todo:
            if w.obs_rng.random() < 0.7 and rw.any():
                check_stats(w.ctx, node, rw, w.X, target, "proposed %s, depth %d" % (p.kind, node.depth), w.obs_rng)

    def tree_post(self, w, tree, i, r):
        if w.observing():
            self._all(w, tree, i, "after step %d" % w.tree_steps)

    def leaf_pre(self, w, leaf):
        if w.obs_rng.random() < 0.3 * w.plan["observe"]:
            for node, rows in ref.rows_by_node(ref.root_of(w.model.trees[self.i]), w.X):
                if node is leaf:
                    check_stats(w.ctx, leaf, rows, w.X, w.target_for(self.i), "leaf about to be drawn", w.obs_rng)


# ------------------------------------------------------------------------------------------------ C17

def full_print(w):
    m = w.model
    return {
        "shapes": [ref.tree_shape(t) for t in m.trees],
        "nodes": [sorted(id(n) for n in t.nodes) for t in m.trees],
        "rows": [[np.asarray(n.data.mask).copy() for n in ref.walk(ref.root_of(t))] for t in m.trees],
        "y": [[np.array(n.data.y.values, copy=True) for n in ref.walk(ref.root_of(t))] for t in m.trees],
        "sigma": float(m.sigma.current_value()),
        "target": np.array(m.data.y.values, copy=True),
    }


def same_print(a, b, skip_tree=None):
    """None, or what differs."""
    for i, (x, y) in enumerate(zip(a["shapes"], b["shapes"])):
        if i != skip_tree and x != y:
            return "structure or leaf values of tree %d" % i
    for i in range(len(a["nodes"])):
        if i == skip_tree:
            continue
        if a["nodes"][i] != b["nodes"][i]:
            return "node list of tree %d" % i
        for k in ("rows", "y"):
            if len(a[k][i]) != len(b[k][i]) or any(not np.array_equal(p, q) for p, q in zip(a[k][i], b[k][i])):
                return "%s of tree %d" % ({"rows": "rows", "y": "target"}[k], i)
    if a["sigma"] != b["sigma"]:
        return "sigma"
    if not np.array_equal(a["target"], b["target"]):
        return "target"
    return None


def leaves_rows(root, X):
    """{frozenset-like row key: leaf value} and split rules by row key."""
    out = {}
    for node, rows in ref.rows_by_node(root, X):
        key = rows.tobytes()
        if ref.is_leaf(node):
            out[("L", int(node.depth), key)] = (float(node.current_value), id(node))
        else:
            out[("D", int(node.depth), key)] = ref.rule_of(node)
    return out


class Moves(Observer):
    """Rejected moves leave no trace, accepted ones are applied exactly."""

    def tree_pre(self, w, tree, i):
        self.active = w.observing()
        if not self.active:
            return
        self.before = full_print(w)
        if w.obs_rng.random() < 0.4:
            for _ in range(w.obs_rng.randint(1, 5)):
                p = w.proposer.propose(tree)
                for m in p if isinstance(p, list) else [p] if p is not None else []:
                    w.likelihood.log_probability_ratio(w.model, tree, m)
                    w.ctx.count("idle_proposals")
            self.compare(w, "proposing and evaluating a move")
        self.parts = leaves_rows(ref.root_of(tree), w.X)
        self.can_split = [(int(n.depth), rows.tobytes()) for n, rows in ref.rows_by_node(ref.root_of(tree), w.X)
                          if ref.is_leaf(n) and ref.splittable_columns(w.X, rows)]
        self.can_prune = [(int(n.depth), rows.tobytes()) for n, rows in ref.rows_by_node(ref.root_of(tree), w.X)
                          if not ref.is_leaf(n) and ref.is_leaf(n.left_child) and ref.is_leaf(n.right_child)]

    def level(self, w, tree, moves):
        """An oblivious move: every splittable leaf is split at once, or every prunable split pruned."""
        root = ref.root_of(tree)
        w.ctx.check(root is not None, "no-single-root", "the tree has no single root after an accepted move")
        after = leaves_rows(root, w.X)
        w.ctx.check(sorted(id(n) for n in tree.nodes) == sorted(id(n) for n in ref.walk(root)), "list-differs-from-links",
                    "the node list and the child links disagree after an accepted oblivious move")
        kinds = set(m.kind for m in moves)
        w.ctx.check(len(kinds) < 2, "mixed-move", "an oblivious move both grows and prunes")
        kept = dict((k, v) for k, v in self.parts.items() if after.get(k) == v)
        new = dict((k, v) for k, v in after.items() if self.parts.get(k) != v)
        gone = dict((k, v) for k, v in self.parts.items() if after.get(k) != v)
        if not moves:
            w.ctx.check(not new and not gone, "move-not-exact", "an empty oblivious move changed %d nodes", len(gone))
            return
        kind, X = kinds.pop(), w.X
        if kind == "grow":
            w.ctx.check(sorted(k[1:] for k in gone) == sorted(self.can_split) and all(k[0] == "L" for k in gone), "move-not-exact",
                        "an oblivious grow replaced %d leaves, %d of the leaves could be split", len(gone), len(self.can_split))
            splits = [k for k in new if k[0] == "D"]
            w.ctx.check(sorted(k[1:] for k in splits) == sorted(self.can_split), "move-moved-rows", "an oblivious grow did not put "
                        "a split over the rows of every leaf it replaced")
            want = []
            for k in splits:
                rows, (v, t) = np.frombuffer(k[2], dtype=bool), new[k]
                want += [(k[1] + 1, (rows & (X[:, v] <= t)).tobytes()), (k[1] + 1, (rows & ~(X[:, v] <= t)).tobytes())]
            w.ctx.check(sorted(want) == sorted(k[1:] for k in new if k[0] == "L"), "move-moved-rows", "the leaves after an oblivious "
                        "grow do not hold the rows their thresholds give")
            w.ctx.check(all(np.frombuffer(r, dtype=bool).any() for _, r in want), "empty-child", "an oblivious grow has an empty child")
        else:
            w.ctx.check(sorted(k[1:] for k in gone if k[0] == "D") == sorted(self.can_prune) and len(gone) == 3 * len(self.can_prune),
                        "move-not-exact", "an oblivious prune replaced %d nodes, %d splits could be pruned", len(gone),
                        len(self.can_prune))
            w.ctx.check(sorted(k[1:] for k in new) == sorted(self.can_prune) and all(k[0] == "L" for k in new), "move-moved-rows",
                        "an oblivious prune did not put one leaf in place of each split")
        w.ctx.check(len(kept) == len(after) - len(new), "move-not-exact", "an oblivious move touched other nodes")
        w.ctx.count("oblivious_moves_checked")

    def compare(self, w, what, skip=None):
        diff = same_print(self.before, full_print(w), skip)
        w.ctx.check(diff is None, "trace-left", "%s changed the %s", what, diff)

    def proposed(self, w, tree, p):
        if getattr(self, "active", False):
            self.compare(w, "proposing a move")

    def tree_post(self, w, tree, i, r):
        if not self.active:
            return
        X = w.X
        if r is None:
            self.compare(w, "a rejected move")
            return
        w.ctx.check(r is w.proposal, "other-move-applied", "the applied move is not the proposed one")
        self.compare(w, "an accepted move on another tree", skip=i)
        if isinstance(r, list):
            self.level(w, tree, r)
            return
        root = ref.root_of(tree)
        w.ctx.check(root is not None, "no-single-root", "the tree has no single root after an accepted move")
        after = leaves_rows(root, X)
        gone = dict((k, v) for k, v in self.parts.items() if after.get(k) != v)
        new = dict((k, v) for k, v in after.items() if self.parts.get(k) != v)
        big, small = (new, gone) if r.kind == "grow" else (gone, new)
        # one leaf on the small side; one split over the same rows and two leaves on the big side
        w.ctx.check(len(small) == 1 and len(big) == 3, "move-not-exact", "an accepted %s replaced %d nodes by %d", r.kind,
                    len(gone), len(new))
        (sk, sd, srows), = small.keys()
        inner = [k for k in big if k[0] == "D"]
        leaves = [k for k in big if k[0] == "L"]
        w.ctx.check(sk == "L" and len(inner) == 1 and len(leaves) == 2, "move-not-exact", "an accepted %s did not exchange "
                    "one leaf and one split with two leaves", r.kind)
        w.ctx.check(inner[0][1:] == (sd, srows), "move-moved-rows", "an accepted %s moved rows between nodes", r.kind)
        rows = np.frombuffer(srows, dtype=bool)
        v, t = big[inner[0]]
        parts = sorted([(rows & (X[:, v] <= t)).tobytes(), (rows & ~(X[:, v] <= t)).tobytes()])
        w.ctx.check(sorted(k[2] for k in leaves) == parts and all(k[1] == sd + 1 for k in leaves), "move-moved-rows",
                    "the children of an accepted %s do not split its rows at the threshold", r.kind)
        w.ctx.check(all(np.frombuffer(k[2], dtype=bool).any() for k in leaves), "empty-child",
                    "an accepted %s has an empty child", r.kind)
        # the node the move names, by the rows it had
        want = self.node_rows(w, r)
        if want is not None:
            w.ctx.check(want == srows, "wrong-node", "an accepted %s changed another node than the proposed one", r.kind)
        # listed nodes are those reachable
        w.ctx.check(sorted(id(n) for n in tree.nodes) == sorted(id(n) for n in ref.walk(root)), "list-differs-from-links",
                    "the node list and the child links disagree after an accepted %s", r.kind)

    @staticmethod
    def node_rows(w, r):
        try:
            return np.asarray(r.existing_node.split.condition()).tobytes()
        except Exception:
            return None


def independent(ctx, values, middle, what):
    """Whether draws fall on the same side of the middle as earlier ones: fair coins, whatever the distribution."""
    from scipy import stats
    side = np.asarray(values) > middle
    for lag in (1, 2, 3):
        same = side[lag:] == side[:-lag]
        if len(same) >= 40:
            q = float(stats.binomtest(int(same.sum()), len(same), 0.5).pvalue)
            ctx.check(q > 1e-10, "draws-dependent", "%d of %d %s are on the same side as the one %d before: p=%.2g", int(same.sum()),
                      len(same), what, lag, q)


def fresh(ctx, values, law, what):
    """Draws of the library's own sources: all different, and distributed as they should be."""
    if len(values) < 20:
        return
    from scipy import stats
    ctx.check(len(set(values)) == len(values), "draws-repeated", "only %d of the %d %s are different", len(set(values)), len(values), what)
    middle = 0.0 if law == "norm" else 0.5
    mirrored = set(2 * middle - v for v in values) & set(values) if law == "norm" else ()
    ctx.check(not mirrored, "draws-mirrored", "%d of the %d %s are exact negatives of others", len(mirrored), len(values), what)
    independent(ctx, values, middle, what)
    q = float(stats.kstest(values, law).pvalue)
    ctx.check(q > 1e-10, "draws-distribution", "the %d %s are not distributed as they should be: p=%.2g", len(values), what, q)
    ctx.count("own_draws_tested", len(values))


# ------------------------------------------------------------------------------------------------ C14

class AcceptRule(Observer):
    """Accept exactly when log u < reference log ratio; u is placed next to the boundary."""

    def tree_pre(self, w, tree, i):
        self.i, self.ratio = i, None

    def proposed(self, w, tree, p):
        self.ratio = None
        if p is None:
            return
        root = ref.root_of(tree)
        if p.kind == "grow":
            rule = ref.rule_of(p.updated_node)
        else:
            rule = ref.rule_of(p.existing_node)
        plan = w.plan
        R = ref.log_accept_ratio(root, w.X, w.target_for(w.index_of(tree)), p.existing_node, p.kind, rule,
                                 float(w.model.sigma.current_value()), w.sd(), plan["alpha"], plan["beta"], *w.p)
        w.ctx.check(R is not None, "foreign-node", "the proposal changes a node outside the tree")
        self.ratio = R
        self.kind = p.kind
        w.ctx.count("ratios_compared")
        got = float(w.likelihood.log_probability_ratio(w.model, tree, p))
        # rounding: the ratio is a difference of terms as large as the sum of squares over the variance
        target = w.target_for(w.index_of(tree))
        self.size = 1.0 + abs(R) + 1e-6 * float(np.sum(target ** 2)) / float(w.model.sigma.current_value()) ** 2
        tol = 1e-6 * self.size
        w.ctx.check(np.isfinite(got) and abs(got - R) <= tol, "wrong-log-ratio",
                    "%s at depth %d: log ratio %r, the posterior and proposals give %r", p.kind, p.existing_node.depth, got, R)
        if plan["u"] != "real" and not w.u_drawn:
            delta = 4e-6 * self.size * w.rng.choice([1, 1, 100, 10000])
            edge = R + delta * w.rng.choice([-1, 1])
            if -700.0 < edge < -1e-15:
                w.next_u = float(np.exp(edge))

    def tree_post(self, w, tree, i, r):
        if self.ratio is None:
            w.ctx.check(r is None or w.proposal is not None, "move-without-proposal", "a move was applied without a proposal")
            return
        if not w.u_drawn:
            return
        w.ctx.check(len(w.u_drawn) == 1, "u-drawn", "%d uniform draws were used for one decision", len(w.u_drawn))
        u = w.u_drawn[0]
        lu = np.log(u) if u > 0 else -np.inf
        if abs(lu - self.ratio) <= 1e-6 * self.size:
            return
        w.ctx.count("decisions_checked")
        want = lu < self.ratio
        w.ctx.check((r is not None) == want, "wrong-decision", "%s with log ratio %r and log u %r was %s", self.kind,
                    self.ratio, float(lu), "accepted" if r is not None else "rejected")

    def end(self, w):
        fresh(w.ctx, w.u_all, "uniform", "uniform draws of the accept decisions")


class Reversal(Observer):
    """The log ratio of a move and of the move that undoes it are exact negatives (uses the code's own ratios)."""

    def tree_pre(self, w, tree, i):
        self.forward = None

    def proposed(self, w, tree, p):
        if p is not None and w.obs_rng.random() < 0.5:
            target = w.target_for(w.index_of(tree))
            self.size = 1.0 + 1e-5 * float(np.sum(target ** 2)) / float(w.model.sigma.current_value()) ** 2
            self.forward = (p.kind, float(w.likelihood.log_probability_ratio(w.model, tree, p)))

    def tree_post(self, w, tree, i, r):
        if r is None or self.forward is None:
            return
        from bartpy.mutation import GrowMutation, PruneMutation
        from bartpy.node import LeafNode
        kind, f = self.forward
        if kind == "grow":
            node = r.updated_node
            if not any(node is n for n in tree.nodes):
                return
            back = PruneMutation(node, LeafNode(node.split, depth=node.depth))
        else:
            from operator import gt, le
            from bartpy.node import split_node
            from bartpy.splitcondition import SplitCondition
            leaf = r.updated_node
            if not any(leaf is n for n in tree.nodes):
                return
            v, t = ref.rule_of(r.existing_node)
            back = GrowMutation(leaf, split_node(leaf, (SplitCondition(v, t, le), SplitCondition(v, t, gt))))
        b = float(w.likelihood.log_probability_ratio(w.model, tree, back))
        w.ctx.count("reversals_compared")
        w.ctx.check(np.isfinite(b) and abs(f + b) <= 1e-7 * (self.size + abs(f)), "not-antisymmetric",
                    "log ratio %r of a %s, %r of undoing it", f, kind, b)


# ------------------------------------------------------------------------------------------------ C15

class Conditionals(Observer):
    """Leaf values and sigma come from their conditional posteriors at that very moment."""

    def attach(self, w):
        self.i = None
        self.pending = None
        w.ctx.check(abs(float(w.model.sigma_m) - w.sd()) <= 1e-12 * (1 + w.sd()), "leaf-prior",
                    "leaf prior standard deviation is %r, should be %r", float(w.model.sigma_m), w.sd())

    def sweep_start(self, w):
        self.pending = None

    def tree_pre(self, w, tree, i):
        self.finish_tree(w)
        self.i = i

    def tree_post(self, w, tree, i, r):
        self.rows = dict((id(n), rows) for n, rows in ref.rows_by_node(ref.root_of(tree), w.X) if ref.is_leaf(n))
        self.pending = dict((id(n), n) for n in ref.walk(ref.root_of(tree)) if ref.is_leaf(n))

    def finish_tree(self, w):
        if self.pending is not None:
            w.ctx.check(not self.pending, "leaf-not-redrawn", "%d leaves of tree %s were not redrawn", len(self.pending), self.i)
        self.pending = None

    def leaf_pre(self, w, leaf):
        w.ctx.check(self.pending is not None and id(leaf) in self.pending, "leaf-redrawn-twice",
                    "a leaf was drawn twice in one sweep, or is not a leaf of the current tree")
        del self.pending[id(leaf)]
        r = w.target_for(self.i)[self.rows[id(leaf)]]
        s2, t2 = float(w.model.sigma.current_value()) ** 2, w.sd() ** 2
        n = len(r)
        self.mean = float(np.sum(r)) * t2 / (s2 + n * t2)
        self.std = float(np.sqrt(s2 * t2 / (s2 + n * t2)))

    def leaf_post(self, w, leaf, result):
        v = float(leaf.current_value)
        w.ctx.check(np.isfinite(v) and (result is None or float(result) == v), "value-not-stored",
                    "drew %r but the leaf holds %r", result, v)
        if len(w.z_drawn) == 1:
            z = w.z_drawn[0]
            tol = 1e-7 * (abs(self.mean) + self.std * (1 + abs(z))) + 1e-12
            w.ctx.check(min(abs(v - (self.mean + z * self.std)), abs(v - (self.mean - z * self.std))) <= tol,
                        "leaf-posterior", "leaf value %r for z=%r; posterior mean %r sd %r", v, z, self.mean, self.std)
            w.ctx.count("leaf_values_checked")
        else:
            w.ctx.check(abs(v - self.mean) <= 9 * self.std + 1e-9, "leaf-posterior-range",
                        "leaf value %r is %0.1f posterior standard deviations from the posterior mean %r", v,
                        abs(v - self.mean) / self.std, self.mean)

    def end(self, w):
        fresh(w.ctx, w.z_all, "norm", "normal draws of the leaf values")

    def sigma_pre(self, w, sigma):
        self.finish_tree(w)
        from . import sim as S
        res = w.yn - ref.predict_trees(w.model.trees, w.X)
        self.a = w.plan["sigma_a"] + len(w.X) / 2.0
        self.b = w.plan["sigma_b"] + 0.5 * float(np.sum(res ** 2))
        self.state = S.get_state()
        rs = np.random.RandomState()
        rs.set_state(self.state)
        self.expect = float(np.power(rs.gamma(self.a, 1.0 / self.b), -0.5))
        # remember enough to redo the draw many times if the code draws it another way
        self.sigma_before = float(sigma.current_value())

    def sigma_post(self, w, sigma, result):
        v = float(sigma.current_value())
        w.ctx.check(np.isfinite(v) and v > 0 and (result is None or float(result) == v), "sigma-not-stored",
                    "drew %r but sigma is %r", result, v)
        w.ctx.check(sigma is w.model.sigma, "sigma-object", "the sigma drawn is not the model's")
        w.ctx.count("sigma_draws_checked")
        if abs(v - self.expect) <= 1e-9 * abs(self.expect):
            return
        self.distribution(w, sigma)

    def distribution(self, w, sigma):
        """Not the reference's draw: is it at least from the right distribution?"""
        from scipy import stats
        from . import sim as S
        keep_state, keep = S.get_state(), float(sigma.current_value())
        rs = np.random.RandomState(12345)
        draws = []
        for k in range(3000):
            S.set_state(np.random.RandomState(rs.randint(2 ** 31)).get_state(legacy=False))
            sigma.set_value(self.sigma_before)
            draws.append(float(w.sigma_sampler.sample(w.model, sigma)))
        sigma.set_value(keep)
        S.set_state(keep_state)
        precision = np.power(np.array(draws), -2.0)
        p = stats.kstest(precision, stats.gamma(self.a, scale=1.0 / self.b).cdf).pvalue
        w.ctx.count("sigma_distribution_tests")
        w.ctx.check(p > 1e-9, "sigma-posterior", "sigma is not drawn from the inverse gamma posterior "
                    "(shape %r, rate %r): p=%.2g over 3000 draws", self.a, self.b, p)
