"""Helpers shared by the drivers: they run the real wildwood from /repo and write traces (one JSON object per line)."""
import json, os, struct, sys, traceback, warnings
warnings.simplefilter("ignore")
import numpy as np
import pandas as pd

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


def f2(x):
    """A number as the two signed 32-bit halves of its double encoding (see spec/Float64.tla)."""
    x = float(x)
    if x == 0.0:
        x = 0.0
    return list(struct.unpack(">ii", struct.pack(">d", x)))


def f2s(a):
    return [f2(x) for x in np.asarray(a, dtype=np.float64).ravel()]


class Out:
    """Writer of traces."""

    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def write(self, obj):
        for e in obj.get("ev", ()):
            if e.get("t") == "hidden":
                obj = dict(unobservable=e["what"])
                break
        self.f.write(json.dumps(obj, separators=(",", ":")) + "\n")
        self.n += 1

    def close(self):
        self.f.close()


def brief(exc):
    return "%s: %s" % (type(exc).__name__, str(exc)[:200])


def bins_of(forest, X):
    from wildwood.preprocessing.features_bitarray import features_bitarray_to_array
    return features_bitarray_to_array(forest._encoder.transform(X))


def inner(tree):
    """The array-based tree and the context inside a fitted TreeClassifier or TreeRegressor."""
    if getattr(tree, "_tree_classifier", None) is not None:
        return tree._tree_classifier, tree._tree_classifier_context
    return tree._tree_regressor, tree._tree_regressor_context


def rng_for(*key):
    return np.random.RandomState(abs(hash_key(key)) % (2 ** 32))


def hash_key(key):
    import hashlib
    return int(hashlib.sha256(repr((SEED,) + key).encode()).hexdigest()[:8], 16)


def mults(forest, n):
    """Per tree: (train rows, valid rows, multiplicities) of a forest fitted without any weight."""
    res = []
    for tree in forest.trees:
        _, ctx = inner(tree)
        tr = np.asarray(tree._train_indices, dtype=int)
        va = np.asarray(tree._valid_indices, dtype=int)
        m = np.ones(n, dtype=int)
        m[tr] = np.rint(np.asarray(ctx.sample_weights)[tr]).astype(int)
        res.append((tr, va, m))
    return res


def mfp_of(v):
    """max_features as spec/Draw.tla has it."""
    if v is None:
        return dict(k="all")
    if isinstance(v, str):
        return dict(k="log2" if v == "log2" else "sqrt")
    if isinstance(v, float):
        a, b = v.as_integer_ratio()
        return dict(k="share", v=[a, b])
    return dict(k="int", v=int(v))


def params_of(f):
    return dict(agg=bool(f.aggregation), mss=int(f.min_samples_split), msl=int(f.min_samples_leaf),
                maxd=-1 if f.max_depth is None else int(f.max_depth), crit=f.criterion, step=f2(np.float32(f.step)))


def growth_traces(name, f, X, y, P, sw=None, twin=None, exact=False, full=True, rows=True, trees=None, probes=True):
    """One trace per tree of the fitted forest f (see spec/TraceGrowth.tla). twin: the same forest fitted without
    weights, from which the bootstrap multiplicities are read."""
    clf = hasattr(f, "dirichlet")
    n = len(y)
    B = bins_of(f, X)
    PB = bins_of(f, P)
    boots = mults(twin if twin is not None else f, n)
    cat = [bool(c) for c in f.is_categorical_]
    if clf:
        classes = list(f.classes_)
        yy = [classes.index(v) for v in y]
        ovr = len(f.trees) != f.n_estimators
        K = 2 if ovr else len(classes)
        preds = f.predict_proba_trees(P)
        cw = "none" if f.class_weight is None else "balanced"
        strat = f.cat_split_strategy
    else:
        yy = f2s(np.asarray(y, dtype=np.float32))
        ovr, K, cw, strat = False, 1, "none", "binary"
        preds = f.predict_trees(P)[:, :, None]
    leaves = f.apply(P)
    depths = None
    if not clf and f.aggregation and hasattr(f, "_weighted_depth"):
        depths = f._weighted_depth(P)
    sws = f2s(np.ones(n) if sw is None else np.asarray(sw, dtype=np.float32))
    out = []
    for t, tree in enumerate(f.trees):
        if trees is not None and t not in trees:
            continue
        core, ctx = inner(tree)
        tr, va, m = boots[t]
        nn = int(core.node_count)
        nodes = core.nodes[:nn]
        ypred = np.asarray(core.y_pred)[:nn].reshape(nn, -1)
        pt, pv = np.asarray(ctx.partition_train), np.asarray(ctx.partition_valid)
        parts = np.asarray(core.bin_partitions)
        ev = []
        for j in range(nn):
            nd = nodes[j]
            leaf, iscat = bool(nd["is_leaf"]), bool(nd["is_split_categorical"])
            root = j == 0
            pa = nodes[0 if root else int(nd["parent"])]
            isl, isr = int(pa["left_child"]) == j, int(pa["right_child"]) == j
            e = dict(t="node", p=0 if root else int(nd["parent"]) + 1,
                     side="root" if root else "left" if isl and not isr else "right" if isr and not isl else "none", d=int(nd["depth"]), leaf=leaf,
                     f=0 if leaf else int(nd["feature"]) + 1, iscat=(not leaf) and iscat,
                     thr=0 if leaf else int(nd["bin_threshold"]),
                     part=[] if leaf or not iscat else
                     [int(b) for b in parts[int(nd["bin_partition_start"]):int(nd["bin_partition_end"])]],
                     l=0 if leaf else int(nd["left_child"]) + 1, r=0 if leaf else int(nd["right_child"]) + 1,
                     nt=int(nd["n_samples_train"]), nv=int(nd["n_samples_valid"]),
                     wt=f2(nd["w_samples_train"]), wv=f2(nd["w_samples_valid"]), pred=f2s(ypred[j]))
            if rows:
                e["rt"] = [int(r) + 1 for r in pt[int(nd["start_train"]):int(nd["end_train"])]]
                e["rv"] = [int(r) + 1 for r in pv[int(nd["start_valid"]):int(nd["end_valid"])]]
            ev.append(e)
        ev.append(dict(t="grown"))
        if probes:
            for i in range(len(PB)):
                ev.append(dict(t="probe", x=[int(b) for b in PB[i]], leaf=int(leaves[t][i]) + 1, pred=f2s(preds[t][i]),
                               depth=[] if depths is None else [f2(depths[t][i])]))
        d = dict(id="%s/t%d" % (name, t), kind="clf" if clf else "reg", K=K, cls=(t // f.n_estimators) if ovr else -1,
                 cw=cw, strat=strat, mfp=mfp_of(f.max_features), cat=cat, X=[[int(b) for b in r] for r in B], y=yy, sw=sws,
                 mult=[int(v) for v in m], train=[int(r) + 1 for r in tr], valid=[int(r) + 1 for r in va],
                 dir=f2(np.float32(f.dirichlet)) if clf else f2(0), exact=bool(exact), full=bool(full), rows=bool(rows),
                 nn=nn, ev=ev)
        d.update(params_of(f))
        out.append(d)
    return out


def error_trace(name, exc):
    """A growth trace that says that the code failed on valid input."""
    return dict(id=name, kind="reg", K=1, cls=-1, cw="none", strat="binary", mfp=dict(k="all"), cat=[False], X=[[0], [0]],
                y=[f2(0), f2(0)], sw=[f2(1), f2(1)], mult=[1, 1], train=[1], valid=[2], dir=f2(0), exact=False, full=False,
                rows=False, nn=0, agg=False, mss=2, msl=1, maxd=-1, crit="mse", step=f2(1), ev=[failed(exc)],
                what=brief(exc), trace=traceback.format_exc()[-1500:])


def from_code(exc):
    """Was the exception raised while code of wildwood was running?"""
    tb = exc.__traceback__
    while tb is not None:
        if "/wildwood/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def hidden(exc):
    """Is this an internal of wildwood, read by the driver, that is not there (any more)? Then nothing can be said."""
    if from_code(exc):
        return False
    if isinstance(exc, AttributeError):
        m = type(getattr(exc, "obj", None)).__module__
        return m.startswith(("wildwood", "numba"))
    return isinstance(exc, ImportError) or (isinstance(exc, ValueError) and "no field of name" in str(exc))


def failed(exc):
    """The event that says that the code failed on valid input."""
    if hidden(exc):
        return dict(t="hidden", what=brief(exc))
    return dict(t="error", what=brief(exc), trace=traceback.format_exc()[-1500:])
