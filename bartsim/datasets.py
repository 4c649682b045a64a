"""Training sets and probe rows, from a small JSON description."""
import numpy as np
import pandas as pd

from .core import derive

COLS = ["normal", "unif", "int3", "int9", "binary", "const", "unique", "dup", "bigint", "skew", "skewlow", "scaled",
        "offset", "desc", "neg", "twins", "adjacent", "faroff", "blocks"]
YS = ["lin", "step", "noise", "two", "outlier", "offset", "tiny", "int", "big", "faint", "bytes"]


def gen(r, nmin=1, nmax=40, pmax=5, hard=False, cols=None, ys=None, big=0.05, ymode=None):
    """Draw a data set description from the python generator r."""
    u = r.random()
    if u < 0.15:
        n = r.randint(nmin, max(nmin, 6))
    elif u < 1 - big:
        n = r.randint(max(nmin, 3), nmax)
    else:
        n = r.randint(nmax, nmax * 5)
    if big and r.random() < 0.008:
        n = r.randint(257, 1100)
    p = r.randint(1, pmax)
    if r.random() < 0.04:
        p = r.choice([r.randint(8, 14), r.randint(8, 14), r.randint(15, 40)])
    pool = cols or COLS
    kinds = [r.choice(pool) for _ in range(p)]
    if not hard and all(k in ("const",) for k in kinds):
        kinds[0] = "normal"
    yk = ymode or r.choice(ys or YS)
    if hard and r.random() < 0.25:
        yk = "const"
    return {"n": n, "cols": kinds, "y": yk, "seed": r.randrange(1 << 30)}


def arrays(d):
    rs = np.random.RandomState(derive("data", d["seed"]) % (2 ** 32))
    n, cols = d["n"], []
    for k in d["cols"]:
        if k == "normal":
            c = rs.standard_normal(n)
        elif k == "unif":
            c = rs.random_sample(n)
        elif k == "int3":
            c = rs.randint(0, 3, n).astype(float)
        elif k == "int9":
            c = rs.randint(-4, 5, n).astype(float)
        elif k == "binary":
            c = (rs.random_sample(n) < 0.5).astype(float)
        elif k == "const":
            c = np.full(n, rs.choice([0.0, 1.0, -3.5]))
        elif k == "unique":
            c = rs.permutation(n).astype(float)
        elif k == "dup":
            c = cols[-1].copy() if cols else rs.standard_normal(n)
        elif k == "bigint":
            c = 16777216.0 + rs.randint(0, 6, n)
        elif k == "skew":
            c = np.ones(n)
            c[rs.randint(0, n)] = 0.0
        elif k == "skewlow":
            c = np.zeros(n)
            c[rs.randint(0, n)] = 1.0
        elif k == "scaled":
            c = rs.standard_normal(n) * 10.0 ** rs.randint(-8, 9)
        elif k == "offset":
            c = 1e6 + rs.standard_normal(n)
        elif k == "desc":
            c = np.sort(rs.standard_normal(n))[::-1].copy()
        elif k == "neg":
            c = -np.abs(rs.standard_normal(n)) - 1.0
        elif k == "twins":
            c = np.repeat(rs.standard_normal((n + 1) // 2), 2)[:n]
        elif k == "adjacent":
            # values that differ by one or a few units in the last place, with different frequencies
            c = np.full(n, [0.3, 1.0, -7.7, 1e5][rs.randint(4)])
            for step in (1, 3):
                move = rs.random_sample(n) < 0.35
                c[move] = c[move] + step * np.spacing(np.abs(c[move]))
        elif k == "blocks":
            c = np.sort(rs.randint(0, 3, n)).astype(float)
        elif k == "faroff":
            c = 1e15 + 0.5 * rs.randint(0, 7, n)
        elif k == "vast":
            c = rs.standard_normal(n) * 1e200
        elif k == "minute":
            c = rs.standard_normal(n) * 1e-300
        elif k == "first":
            c = np.zeros(n)
            c[0] = -1.0
        elif k == "last":
            c = np.zeros(n)
            c[-1] = 1.0
        else:
            raise KeyError(k)
        cols.append(np.asarray(c, dtype=float))
    X = np.column_stack(cols)
    yk = d["y"]
    e = rs.standard_normal(n)
    x0 = X[:, 0] if np.ptp(X[:, 0]) else np.zeros(n)
    if np.ptp(x0):
        x0 = (x0 - x0.min()) / np.ptp(x0)
    if yk == "lin":
        y = 2.0 * x0 + 0.3 * e
    elif yk == "step":
        y = np.where(x0 > 0.5, 3.0, -1.0) + 0.1 * e
    elif yk == "noise":
        y = e
    elif yk == "two":
        y = (e > 0).astype(float)
        if n > 1:
            y[0], y[1] = 0.0, 1.0
    elif yk == "outlier":
        y = e.copy()
        y[rs.randint(0, n)] += 50.0
    elif yk == "offset":
        y = 1e4 + x0 + 0.1 * e
    elif yk == "tiny":
        y = 1e-7 * e
    elif yk == "int":
        y = np.round(5 * e).astype(np.int64)
        if n > 1 and np.ptp(y) == 0:
            y[0] += 1
    elif yk == "big":
        y = 1e8 * e
    elif yk == "faint":
        y = 1e-13 * e
    elif yk == "bytes":
        y = rs.randint(-128, 128, n).astype(float)
    elif yk == "vast":
        y = 1e140 * e
    elif yk == "minute":
        y = 1e-140 * e
    elif yk == "const":
        y = np.full(n, rs.choice([0.0, 7.25, -1e5]))
    elif yk == "tagged":
        y = rs.permutation(n).astype(float) + 0.25
    else:
        raise KeyError(yk)
    if n > 1 and yk not in ("const", "two", "int") and np.ptp(y) == 0:
        y = y + np.arange(n)
    return X, y


def normalized(y):
    """The documented normalization of the target, into (-0.5, 0.5); a constant target is all zeros."""
    y = np.asarray(y, dtype=float)
    lo, hi = y.min(), y.max()
    if lo == hi:
        return np.zeros(len(y))
    return -0.5 + (y - lo) / (hi - lo)


def in_form(X, form):
    """The same numbers in another container."""
    if form == "array":
        return X.copy()
    if form == "frame":
        return pd.DataFrame(X.copy(), columns=["c%d" % i for i in range(X.shape[1])])
    if form == "intnames":
        return pd.DataFrame(X.copy(), index=np.arange(len(X)) * 3 + 7)
    if form == "fortran":
        return np.asfortranarray(X.copy())
    if form == "strided":
        big = np.zeros((X.shape[0] * 2, X.shape[1] * 2))
        big[::2, ::2] = X
        return big[::2, ::2]
    if form == "readonly":
        Z = X.copy()
        Z.flags.writeable = False
        return Z
    if form in ("ints", "mixed"):
        # integer columns where the values are integers
        whole = [bool(np.all(X[:, j] == np.round(X[:, j])) and np.all(np.abs(X[:, j]) < 2.0 ** 40)) for j in range(X.shape[1])]
        if form == "ints":
            return X.astype(np.int64) if all(whole) else X.copy()
        return pd.DataFrame({"c%d" % j: X[:, j].astype(np.int64) if whole[j] else X[:, j].copy() for j in range(X.shape[1])})
    if form == "flags":
        # 0/1 columns as truth values, so that the frame has no common numeric type
        return pd.DataFrame({"c%d" % j: X[:, j].astype(bool) if np.isin(X[:, j], (0.0, 1.0)).all() else X[:, j].copy()
                             for j in range(X.shape[1])})
    if form == "small":
        # the narrowest type that holds the same numbers
        if np.isin(X, (0.0, 1.0)).all():
            return X.astype(bool)
        for kind in (np.int8, np.uint8, np.int16, np.float16, np.float32):
            with np.errstate(all="ignore"):
                Z = X.astype(kind)
            if np.array_equal(Z.astype(float), X):
                return Z
        return X.copy()
    if form == "reindexed":
        return pd.DataFrame(X.copy(), index=np.arange(len(X))[::-1] * 5 - 3)
    if form == "sameindex":
        return pd.DataFrame(X.copy(), index=np.zeros(len(X), dtype=int))
    if form == "unsorted":
        return pd.DataFrame(X.copy(), columns=["c%d" % i for i in range(X.shape[1])][::-1])
    raise KeyError(form)


FORMS = ["array", "frame", "fortran", "strided", "readonly", "intnames", "ints", "mixed", "unsorted", "reindexed", "sameindex", "flags",
         "small"]


def target_in(A, y):
    """The target in a container that goes with these covariates: a column of the same frame, or an array, and now and then in the
    narrowest type that holds the same numbers."""
    y = np.array(y)
    if len(y) % 3 == 1:
        if len(y) % 2 and np.isin(y, (0.0, 1.0)).all():
            y = y.astype(bool)
        elif np.array_equal(y, np.round(y)) and y.min() >= -128 and y.max() <= 127:
            y = y.astype(np.int8)
        elif len(y) % 2 == 0:
            with np.errstate(all="ignore"):
                z = y.astype(np.float32)
            y = z if np.array_equal(z.astype(float), y) else y
    if isinstance(A, pd.DataFrame) and len(y) % 4:
        return pd.Series(y, index=A.index.copy(), name="y")
    return y


def overwrite(A, values):
    """Write other values into a container, in place, keeping its types (the owner of a read-only array can do that too)."""
    if isinstance(A, pd.DataFrame):
        new = np.broadcast_to(np.asarray(values, dtype=float), A.shape)
        for j in range(A.shape[1]):
            A.iloc[:, j] = new[:, j].astype(A.dtypes.iloc[j])
    elif isinstance(A, pd.Series):
        A.iloc[:] = np.broadcast_to(np.asarray(values, dtype=float), A.shape).astype(A.dtype)
    else:
        was = A.flags.writeable
        A.flags.writeable = True
        A[...] = np.broadcast_to(np.asarray(values, dtype=float), A.shape).astype(A.dtype)
        A.flags.writeable = was


def probes(X, seed, m=24):
    """Rows to predict for: training rows, threshold values mixed across columns, outside the range, midpoints."""
    rs = np.random.RandomState(derive("probe", seed) % (2 ** 32))
    n, p = X.shape
    rows = []
    for _ in range(m):
        u = rs.random_sample()
        if u < 0.25:
            rows.append(X[rs.randint(n)].copy())
        elif u < 0.65:
            rows.append(np.array([X[rs.randint(n), j] for j in range(p)]))
        elif u < 0.8:
            rows.append(np.array([X[:, j].max() + rs.random_sample() * (1 + abs(X[:, j].max())) if rs.random_sample() < 0.5
                                  else X[:, j].min() - rs.random_sample() * (1 + abs(X[:, j].min())) for j in range(p)]))
        elif u < 0.9:
            a, b = X[rs.randint(n)], X[rs.randint(n)]
            rows.append((a + b) / 2.0)
        else:
            rows.append(np.array([np.nextafter(X[rs.randint(n), j], np.inf if rs.random_sample() < 0.5 else -np.inf)
                                  for j in range(p)]))
    return np.array(rows)
