"""
The estimator world: fits, refits, copies and predictions of whole estimators, with worker processes or threads that
are tasks of the simulator.
"""
import contextlib
import copy
import pickle

import numpy as np

from . import datasets, ref
from .core import Injected, Violation, derive
from .sim import Sim


# ------------------------------------------------------------------------------------------------- plans

def gen_params(r, chains=None, store=None, big=0.08, init=0.12, jobs=None, burn=None):
    n_trees = r.choice([1, 2, 3, 4, 5, 8])
    p = {
        "n_trees": n_trees,
        "n_chains": chains or r.choice([1, 2, 2, 3, 3, 4, 6]),
        "n_samples": r.choice([1, 2, 3, 5, 8, 12]),
        "n_burn": burn if burn is not None else r.choice([0, 1, 2, 5]),
        "thin": r.choice([1.0, 1.0, 0.5, 0.3, 0.7, 0.25]),
        "alpha": r.choice([0.95, 0.95, 0.8, 0.99]),
        "beta": r.choice([2.0, 2.0, 1.0, 0.5]),
        "sigma_a": r.choice([0.001, 0.001, 1.0]),
        "sigma_b": r.choice([0.001, 0.001, 0.1]),
        "store": r.random() < 0.7 if store is None else store,
        "store_acc": r.random() < 0.6,
        "p_grow": r.choice([None, None, 0.5, 0.3, 0.8]),
        "init": r.randint(1, 3) if r.random() < init else None,
        "n_jobs": jobs if jobs is not None else r.choice([2, 2, 3, 4, 8, -1]),
    }
    if r.random() < big:
        p["n_trees"], p["n_samples"] = r.choice([(20, 4), (50, 2), (3, 40), (10, 12)])
    # one estimator in nine samples its trees with the oblivious sampler
    h = derive("oblivious", repr(sorted(p.items(), key=lambda x: x[0])))
    p["oblivious"] = p["p_grow"] is not None and h % 5 == 0
    if h // 5 % 33 == 0:
        # many small chains
        p.update(n_chains=11 + h // 165 % 4, n_trees=1 + h // 660 % 2, n_samples=1 + h // 1320 % 2, n_burn=h // 2640 % 2)
    return p


def gen_schedule(r, rate=None):
    s = {"seed": r.randrange(1 << 30), "rate": r.choice([0.0, 0.002, 0.01, 0.03, 0.1, 0.3]) if rate is None else rate}
    if r.random() < 0.25:
        s["slow"] = [r.randrange(4)]
    return s


def gen_world(r, modes=("isolated", "threads")):
    return {"mode": r.choice(modes), "schedule": gen_schedule(r), "cpu": r.choice([1, 2, 3, 4, 8]),
            "batch": r.choice([1, 1, 1, 2, 5]), "readonly": r.random() < 0.3, "seed": r.randrange(1 << 30),
            "clock": [[r.randint(5, 4000), r.choice([-3600.0, 86400.0, -0.5, 30.0])]] if r.random() < 0.2 else []}


def world_of(plan):
    """The world of a plan, with the recorded scheduling decisions if the plan holds some."""
    w = dict(plan["world"])
    if plan.get("schedule"):
        w["schedule"] = plan["schedule"]
    return w


# ------------------------------------------------------------------------------------------------- building

def arguments(p):
    """The constructor arguments, all of them given."""
    if p.get("oblivious"):
        from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler
    else:
        from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
    from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
    kw = dict(n_trees=p["n_trees"], n_chains=p["n_chains"], n_samples=p["n_samples"], n_burn=p["n_burn"], thin=p["thin"],
              alpha=p["alpha"], beta=p["beta"], sigma_a=p["sigma_a"], sigma_b=p["sigma_b"],
              store_in_sample_predictions=p["store"], store_acceptance_trace=p["store_acc"], n_jobs=p["n_jobs"])
    grow = 0.5 if p["p_grow"] is None else p["p_grow"]
    kw["tree_sampler"] = get_tree_sampler(grow, 1.0 - grow)
    kw["initializer"] = None if p["init"] is None else SklearnTreeInitializer(max_depth=p["init"])
    return kw


def simple_arguments(p):
    return {k: v for k, v in arguments(p).items() if k not in ("tree_sampler", "initializer")}


def make(p, cls=None, **extra):
    from bartpy.sklearnmodel import SklearnModel
    kw = arguments(p)
    if p["p_grow"] is None:
        del kw["tree_sampler"]
    if p["init"] is None:
        del kw["initializer"]
    kw.update(extra)
    return (cls or SklearnModel)(**kw)


@contextlib.contextmanager
def backend(mode):
    import joblib
    if mode == "threads":
        with joblib.parallel_backend("threading"):
            yield
    elif mode == "multiprocessing":
        with joblib.parallel_backend("multiprocessing"):
            yield
    else:
        yield


def open_sim(ctx, world, faults=(), streams=None, **kw):
    base = world["seed"]
    return Sim(ctx, schedule=world.get("schedule"), faults=faults,
               streams=streams or (lambda i: derive("stream", base, i)), cpu=world["cpu"], batch=world["batch"],
               clock=world.get("clock"), main_seed=derive("main", base), readonly_transport=world.get("readonly", False), **kw)


QUIET = {"mode": "isolated", "schedule": {"seed": 0, "rate": 0.0}, "cpu": 2, "batch": 1, "readonly": False, "seed": 0,
         "clock": []}


# ------------------------------------------------------------------------------------------------- fingerprints

def sample_print(m):
    return (float(m.sigma.current_value()), tuple(ref.tree_shape(t) for t in m.trees), tuple(tuple(ref.listing(t)) for t in m.trees))


def chain_print(chain):
    """Everything one chain recorded."""
    return {"model": [sample_print(m) for m in chain["model"]],
            "pred": [np.asarray(a, dtype=float).tobytes() for a in chain["in_sample_predictions"]],
            "acc": [sorted((str(k), float(v)) for k, v in a.items()) for a in chain["acceptance"]]}


def fit_chain(est):
    """What a fitted estimator publishes, as one long chain."""
    store = est.prediction_samples
    acc = est.acceptance_trace
    return chain_print({"model": list(est.model_samples), "in_sample_predictions": [] if store is None else list(store),
                        "acceptance": [] if acc is None else list(acc)})


def fit_print(est, probes):
    """Bitwise behaviour of a fitted estimator."""
    out = fit_chain(est)
    out["predict"] = np.asarray(est.predict(probes.copy()), dtype=float).tobytes()
    if est.store_in_sample_predictions:
        out["own"] = np.asarray(est.predict(), dtype=float).tobytes()
        out["residuals"] = np.asarray(est.residuals(), dtype=float).tobytes()
    out["y"] = np.asarray(est.data.y.unnormalized_y, dtype=float).tobytes()
    out["X"] = np.ascontiguousarray(np.asarray(est.data.X.values, dtype=float)).tobytes()
    return out


def behaviour(est, probes):
    """Observable behaviour, fitted or not: what every read gives, or which kind of failure."""
    out = {}

    def note(name, f):
        try:
            out[name] = f()
        except Exception as e:      # noqa
            out[name] = ("raises", type(e).__name__)
    note("predict", lambda: np.asarray(est.predict(probes.copy()), dtype=float).tobytes())
    note("own", lambda: np.asarray(est.predict(), dtype=float).tobytes())
    note("residuals", lambda: np.asarray(est.residuals(), dtype=float).tobytes())
    note("residuals_of", lambda: np.asarray(est.residuals(probes.copy(), np.arange(len(probes)) * 1.0), dtype=float).tobytes())
    note("rmse", lambda: float(est.rmse(probes.copy(), np.arange(len(probes)) * 1.0)))
    note("samples", lambda: None if est.model_samples is None else [sample_print(m) for m in est.model_samples])
    note("n_pred", lambda: None if est.prediction_samples is None else np.asarray(est.prediction_samples).tobytes())
    note("acceptance", lambda: [sorted((str(k), float(v)) for k, v in a.items()) for a in est.acceptance_trace])
    note("extract", lambda: None if est.extract is None else [chain_print(c) for c in est.extract])
    note("data", lambda: None if est.data is None else (np.asarray(est.data.y.values).tobytes(),
                                                        np.asarray(est.data.X.values).tobytes()))
    note("sigma", lambda: None if est.sigma is None else float(est.sigma.scaling_factor))
    note("params", lambda: sorted((k, repr(v)) for k, v in est.get_params(deep=False).items()
                                  if not hasattr(v, "__dict__")))
    return out


def differs(a, b):
    """Name of the first differing entry."""
    for k in a:
        if k not in b:
            return k
        if a[k] != b[k]:
            if isinstance(a[k], list) and isinstance(b[k], list):
                if len(a[k]) != len(b[k]):
                    return "%s (%d and %d entries)" % (k, len(a[k]), len(b[k]))
                for i, (x, y) in enumerate(zip(a[k], b[k])):
                    if x != y:
                        return "%s[%d]" % (k, i)
            return k
    for k in b:
        if k not in a:
            return k
    return None


def split_chain(whole, n):
    """Cut the published record into n equal contiguous parts; None if it cannot be."""
    out = [dict() for _ in range(n)]
    for k in ("model", "pred", "acc"):
        if len(whole[k]) % n:
            return None
        m = len(whole[k]) // n
        for i in range(n):
            out[i][k] = whole[k][i * m:(i + 1) * m]
    return out


# ------------------------------------------------------------------------------------------------- references

def reference_chain(params, data, stream_seed, form="array"):
    """One chain alone, by a new estimator, in a worker of its own. To be called inside pristine()."""
    from .core import Ctx
    p = dict(params, n_chains=1, n_jobs=2)
    X, y = datasets.arrays(data)
    with Sim(Ctx({}), schedule=None, streams=lambda i: stream_seed, cpu=2, main_seed=12345):
        est, A = make(p), datasets.in_form(X, form)
        est.fit(A, datasets.target_in(A, y))
        return fit_chain(est)


def clone_of(est, how):
    """Another estimator (or selector) made from this one; that it can be made at all is part of what is promised."""
    from sklearn.base import clone
    import cloudpickle
    make_one = {"clone": clone, "deepcopy": copy.deepcopy, "copy": copy.copy, "pickle": lambda e: pickle.loads(pickle.dumps(e)),
                "cloudpickle": lambda e: cloudpickle.loads(cloudpickle.dumps(e))}[how]
    try:
        return make_one(est)
    except (AttributeError, TypeError, ValueError, RuntimeError, NotImplementedError, pickle.PicklingError) as e:
        if isinstance(e, Injected):
            raise
        raise Violation("cannot-be-copied", "%s of a %s failed: %s: %s" % (how, type(est).__name__, type(e).__name__, str(e)[:200]))


# ------------------------------------------------------------------------------------------------- histories

HISTORY = ["fit_self", "fit_other", "set_params", "fit_clone", "fit_serial", "predict", "clone", "pickle", "deepcopy", "interrupted_self",
           "interrupted_other", "bad_data", "gibbs", "draws"]


def other_params(params, s):
    """Parameters of some other estimator in the same process."""
    return dict(params, n_trees=[1, 2, 3, 6][s % 4], alpha=[0.3, 0.95, 0.6, 0.99][s // 4 % 4], beta=[0.5, 2.0, 1.0, 3.0][s // 16 % 4],
                sigma_a=[0.001, 2.0][s // 64 % 2], sigma_b=[0.001, 0.5][s // 128 % 2], thin=[1.0, 0.5][s // 256 % 2],
                p_grow=[None, 0.2, 0.7][s // 512 % 3], init=[None, None, 1, 2][s // 1536 % 4], store=bool(s // 6144 % 2),
                store_acc=bool(s // 12288 % 2), n_samples=1 + s // 24576 % 4, n_burn=s // 98304 % 3)


def set_params(est, **kw):
    try:
        est.set_params(**kw)
    except (ValueError, AttributeError, TypeError) as e:
        raise Violation("parameters-cannot-be-set", "setting %s of a %s failed: %s: %s" % (sorted(kw), type(est).__name__,
                                                                                         type(e).__name__, str(e)[:200]))


def set_parameters(est, p, assign=False, names=None):
    """Every constructor argument (or some of them), by set_params or by assigning the attributes."""
    kw = {k: v for k, v in arguments(p).items() if names is None or k in names}
    if assign:
        for k, v in kw.items():
            setattr(est, k, v)
    else:
        set_params(est, **kw)


def gen_history(r, most=4, kinds=HISTORY):
    return [[r.choice(kinds), r.randrange(1 << 20)] for _ in range(r.randint(0, most))]


def gibbs_model(est, X, y):
    """A Model as the estimator would set it up on these data, for driving its sampler directly."""
    build = getattr(est, "_construct_model", None)
    if build is not None:
        return build(X, y)
    from bartpy.data import make_bartpy_data
    from bartpy.model import Model
    from bartpy.sigma import Sigma
    data = make_bartpy_data(X, np.asarray(y))
    return Model(data, Sigma(est.sigma_a, est.sigma_b, data.y.normalizing_scale), n_trees=est.n_trees, alpha=est.alpha,
                 beta=est.beta, initializer=est.initializer)


def play(ctx, sim, est, params, history, data, first_op=100):
    """Things that happen in the process before the fit under test. Returns the estimator to use."""
    from .core import Injected
    X, y = datasets.arrays(data)
    keep = []
    for k, (what, s) in enumerate(history):
        sim.begin_op(first_op + k)
        ctx.event("history", what, s)
        ctx.count("history_" + what)
        if what == "fit_self":
            est.fit(X.copy(), y.copy())
        elif what == "fit_other":
            other = make(params if s % 4 == 0 else other_params(params, s))
            other.fit(X.copy(), y.copy())
            keep.append(other)
        elif what == "set_params":
            # the estimator itself is taken through other parameters; the right ones are set at the end of the history
            set_parameters(est, other_params(params, s), assign=s // 2 % 3 == 0)
            if s % 2:
                est.fit(X.copy(), y.copy())
        elif what == "fit_clone":
            other = clone_of(est, ["clone", "deepcopy", "copy"][s % 3])
            other.fit(X.copy(), y.copy())
            keep.append(other)
        elif what == "fit_serial":
            other = make(dict(other_params(params, s), n_jobs=1, n_chains=1 + s % 3))
            other.fit(X.copy(), y.copy())
            keep.append(other)
        elif what == "predict":
            if est.model_samples is not None:
                est.predict(datasets.probes(np.asarray(est.data.X.values), s, 6))
        elif what in ("clone", "pickle", "deepcopy"):
            est = clone_of(est, what)
        elif what in ("interrupted_self", "interrupted_other"):
            who = est if what == "interrupted_self" else make(params)
            f = {"on": ["draw", "draw", "write"][s % 3], "k": s % 97 if s % 3 < 2 else s % 5, "task": None,
                 "op": first_op + k, "exc": ["RuntimeError", "KeyboardInterrupt", "MemoryError"][(s // 3) % 3], "fired": False}
            sim.faults.append(f)
            try:
                who.fit(X.copy(), y.copy())
            except BaseException as e:      # noqa
                if not isinstance(e, Injected):
                    raise
            sim.faults.remove(f)
            keep.append(who)
        elif what == "bad_data":
            try:
                est.fit(np.zeros((0, 2)), np.zeros(0))
                ctx.fail("bad-data-accepted", "fitting an empty covariate matrix did not fail")
            except (ValueError, IndexError, TypeError):
                pass
        elif what == "gibbs":
            # the estimator's own sampler, driven directly
            m = gibbs_model(make(other_params(params, s)), X.copy(), y.copy())
            est.sampler.samples(m, 1 + s % 3, s % 2, 1.0, True, True)
        elif what == "draws":
            np.random.normal(size=1 + s % 50)
        else:
            raise KeyError(what)
    sim.begin_op(first_op + 50)
    last = [s for what, s in history if what == "set_params"]
    if last:
        set_parameters(est, params, assign=last[-1] % 5 < 2)
    return est, keep
