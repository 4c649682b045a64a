"""
Reference semantics, recomputed from scratch through the public interface of trees and nodes.

Nothing here uses a cached quantity of the code under test: a tree is read as child links, thresholds and leaf
values, and everything else (rows, predictions, targets, statistics, ratios) is recomputed from the raw data.
"""
import numpy as np


def is_leaf(node):
    return node.left_child is None and node.right_child is None


def root_of(tree):
    """The only node that is nobody's child (None if there is not exactly one)."""
    children = set()
    for n in tree.nodes:
        for c in (n.left_child, n.right_child):
            if c is not None:
                children.add(id(c))
    roots = [n for n in tree.nodes if id(n) not in children]
    return roots[0] if len(roots) == 1 else None


def rule_of(node):
    c = node.most_recent_split_condition()
    return int(c.splitting_variable), float(c.splitting_value)


def walk(node):
    """All nodes below and including node, through child links, left first."""
    out, stack = [], [node]
    while stack:
        n = stack.pop()
        out.append(n)
        if len(out) > 100000:
            raise RuntimeError("child links do not form a tree")
        if not is_leaf(n):
            stack.append(n.right_child)
            stack.append(n.left_child)
    return out


def rows_by_node(root, X):
    """[(node, boolean row set)] following thresholds from the root."""
    out, stack = [], [(root, np.ones(len(X), dtype=bool))]
    while stack:
        node, rows = stack.pop()
        out.append((node, rows))
        if not is_leaf(node):
            v, t = rule_of(node)
            left = X[:, v] <= t
            stack.append((node.right_child, rows & ~left))
            stack.append((node.left_child, rows & left))
    return out


def predict_tree(tree, X):
    out = np.zeros(len(X))
    for node, rows in rows_by_node(root_of(tree), X):
        if is_leaf(node):
            out[rows] = node.current_value
    return out


def predict_trees(trees, X):
    out = np.zeros(len(X))
    for t in trees:
        out = out + predict_tree(t, X)
    return out


def shape(node):
    """Nested tuple describing structure, thresholds and leaf values below a node (via child links)."""
    if is_leaf(node):
        return ("L", int(node.depth), float(node.current_value))
    v, t = rule_of(node)
    return ("D", int(node.depth), v, t, shape(node.left_child), shape(node.right_child))


def skeleton(node):
    """Same, without leaf values."""
    if is_leaf(node):
        return ("L", int(node.depth))
    v, t = rule_of(node)
    return ("D", int(node.depth), v, t, skeleton(node.left_child), skeleton(node.right_child))


def tree_shape(tree):
    r = root_of(tree)
    return None if r is None else shape(r)


def listing(tree):
    """What the node list says, independent of links: kinds, depths, rules or values - as a sorted list."""
    out = []
    for n in tree.nodes:
        if is_leaf(n):
            out.append(("L", int(n.depth), float(n.current_value)))
        else:
            out.append(("D", int(n.depth)) + rule_of(n))
    return sorted(out, key=repr)


def regions(tree, probes):
    """For each listed leaf (sorted by value and row set), which probe rows it claims."""
    out = []
    for n in tree.nodes:
        if is_leaf(n):
            s = n.split
            cond = s.condition(probes)
            out.append((float(n.current_value), tuple(np.nonzero(np.asarray(cond))[0].tolist())))
    return sorted(out)


def model_print(model, probes=None):
    """A full, comparable description of a (live or recorded) model."""
    out = {
        "sigma": float(model.sigma.current_value()),
        "links": [tree_shape(t) for t in model.trees],
        "list": [listing(t) for t in model.trees],
    }
    if probes is not None:
        out["pred"] = [float(x) for x in model.predict(probes)]
    return out


def depth_stats(tree):
    leaves = [n for n in tree.nodes if is_leaf(n)]
    return len(leaves), max(n.depth for n in tree.nodes)


# ------------------------------------------------------------------------- Metropolis-Hastings reference

def distinct(col):
    return len(np.unique(col))


def splittable_columns(X, rows):
    sub = X[rows]
    return [j for j in range(X.shape[1]) if len(sub) > 1 and (sub[:, j] != sub[0, j]).any()]


def log_marginal(r, sigma, sd):
    """log of the integral of prod N(r_i | mu, sigma^2) over mu ~ N(0, sd^2), without terms free of the partition."""
    n, s = len(r), float(np.sum(r))
    v, t = sigma * sigma, sd * sd
    return 0.5 * np.log(v / (v + n * t)) + t * s * s / (2.0 * v * (v + n * t))


def log_split(alpha, beta, depth):
    return np.log(alpha) - beta * np.log(1.0 + depth)


def log_nosplit(alpha, beta, depth):
    return np.log1p(-alpha * (1.0 + depth) ** (-beta))


def tree_counts(root, X):
    """(number of splittable leaves, number of splits with two leaf children), from first principles."""
    n_split = n_prune = 0
    for node, rows in rows_by_node(root, X):
        if is_leaf(node):
            n_split += 1 if splittable_columns(X, rows) else 0
        elif is_leaf(node.left_child) and is_leaf(node.right_child):
            n_prune += 1
    return n_split, n_prune


def log_accept_ratio(root, X, target, node, kind, rule, sigma, sd, alpha, beta, p_grow, p_prune):
    """
    log(posterior ratio * reverse proposal / forward proposal) of growing leaf `node` by `rule`
    or of pruning split `node`, in the tree below root, for this target.
    The probability of the rule itself cancels between prior and proposal.
    """
    rows = parent = sibling_leaf = None
    for nd, rw in rows_by_node(root, X):
        if nd is node:
            rows = rw
        if not is_leaf(nd) and (nd.left_child is node or nd.right_child is node):
            parent = nd
    if rows is None:
        return None
    if parent is not None:
        sib = parent.right_child if parent.left_child is node else parent.left_child
        sibling_leaf = is_leaf(sib)
    v, t = rule
    L, R = rows & (X[:, v] <= t), rows & ~(X[:, v] <= t)
    d = node.depth
    lik = log_marginal(target[L], sigma, sd) + log_marginal(target[R], sigma, sd) - log_marginal(target[rows], sigma, sd)
    prior = log_split(alpha, beta, d) + 2.0 * log_nosplit(alpha, beta, d + 1) - log_nosplit(alpha, beta, d)
    ns, npr = tree_counts(root, X)
    child_split = (1 if splittable_columns(X, L) else 0) + (1 if splittable_columns(X, R) else 0)
    if kind == "grow":
        small_ns, small_np = ns, npr
        big_ns, big_np = ns - 1 + child_split, npr + 1 - (1 if (parent is not None and sibling_leaf) else 0)
    else:
        big_ns, big_np = ns, npr
        small_ns, small_np = ns - child_split + 1, npr - 1 + (1 if (parent is not None and sibling_leaf) else 0)
    tot = p_grow + p_prune
    g, q = p_grow / tot, p_prune / tot
    log_grow = (np.log(g) if small_np > 0 else 0.0) - np.log(small_ns)
    log_prune = (np.log(q) if big_ns > 0 else 0.0) - np.log(big_np)
    up = lik + prior + log_prune - log_grow
    return up if kind == "grow" else -up
