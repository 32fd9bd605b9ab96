"""What calls do to the objects of the caller, and equivalent ways of giving weights. usage: calls.py PROPERTY OUT shard nshards"""
import hashlib, pickle
from wwlib import *
PROP, OUT, SHARD, NSHARDS = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
from wildwood import ForestClassifier, ForestRegressor


def look(v):
    """A digest of what the caller sees of an object."""
    h = hashlib.sha256()

    def add(*a):
        h.update(repr(a).encode())

    def go(v):
        if isinstance(v, np.ndarray):
            add("array", v.dtype.str, v.shape, v.strides, v.flags.writeable)
            if v.dtype == object:
                add([(type(x).__name__, repr(x)) for x in v.ravel().tolist()])
            else:
                h.update(v.tobytes())
            b = v.base
            while isinstance(b, np.ndarray) and isinstance(b.base, np.ndarray):
                b = b.base
            if isinstance(b, np.ndarray) and b.dtype != object:
                add("base", b.shape)
                h.update(b.tobytes())
        elif isinstance(v, pd.DataFrame):
            add("frame", list(v.columns), str(v.columns.dtype), v.shape)
            go(v.index.to_numpy())
            for j in range(v.shape[1]):
                go(v.iloc[:, j])
        elif isinstance(v, pd.Series):
            add("series", v.name, str(v.dtype))
            go(v.index.to_numpy())
            if isinstance(v.dtype, pd.CategoricalDtype):
                add([str(x) for x in v.cat.categories], v.cat.ordered)
                h.update(v.cat.codes.to_numpy().tobytes())
            else:
                w = v.to_numpy()
                go(w if w.dtype == object else w.copy())
        elif isinstance(v, (list, tuple)):
            add(type(v).__name__, [(type(x).__name__, repr(x)) for x in v])
        else:
            add(type(v).__name__, repr(v))
    go(v)
    return h.hexdigest()[:16]


def call(ev, op, fn, **args):
    names = sorted(args)
    before = [look(args[a]) for a in names]
    try:
        return fn()
    finally:
        ev.append(dict(t="call", op=op, args=names, before=before, after=[look(args[a]) for a in names]))


def forms_X(rng, X, frameable):
    """The same matrix in the layouts, types and containers that are accepted."""
    n, d = X.shape
    big = np.full((2 * n, d + 2), 7.0)
    big[::2, 1:-1] = X
    wide = np.asfortranarray(np.full((n, 2 * d), 3.0))
    wide[:, ::2] = X
    obj = X.astype(object)
    D = pd.DataFrame(X, columns=["x%d" % j for j in range(d)], index=np.arange(n)[::-1] * 2 + 1)
    E = D.copy()
    E["c"] = pd.Categorical(np.where(np.nan_to_num(X[:, 0]) > 0, "p", "q"), categories=["q", "r", "p"])
    E["s"] = np.where(np.nan_to_num(X[:, 0]) > 1, "aa", "b")
    E["t"] = np.nan_to_num(X[:, 1]) > 0
    E["i"] = np.nan_to_num(X[:, 1]).astype(np.int32)
    G = E.copy()
    G.loc[G.index[::7], "s"] = None
    G["c"] = G["c"].where(np.arange(n) % 5 > 0)
    return [("C", np.ascontiguousarray(X)), ("F", np.asfortranarray(X)), ("rows", big[::2, 1:-1]), ("cols", wide[:, ::2]),
            ("back", np.ascontiguousarray(X[::-1])[::-1]), ("f4", X.astype(np.float32)), ("i8", np.nan_to_num(X).astype(np.int64)),
            ("i1", np.nan_to_num(X).astype(np.int8)), ("u2", np.abs(np.nan_to_num(X)).astype(np.uint16)), ("object", obj), ("frame", D),
            ("frame-f4", D.astype(np.float32)), ("mixed", E), ("mixed-missing", G), ("bool", np.nan_to_num(X) > 0)]


def forms_w(rng, w):
    n = len(w)
    two = np.zeros((n, 2), dtype=np.float32)
    two[:, 1] = w
    return [("none", None), ("f4", w.astype(np.float32)), ("f8", w.astype(np.float64)), ("view", two[:, 1]), ("list", w.tolist()),
            ("series", pd.Series(w, index=np.arange(n)[::-1])), ("int", np.rint(w + 0.5).astype(int)), ("f2", w.astype(np.float16)),
            ("back", w.astype(np.float32)[::-1].copy()[::-1])]


def forms_y(rng, y, clf):
    n = len(y)
    if not clf:
        two = np.zeros((n, 2), dtype=np.float32)
        two[:, 0] = y
        return [("f4", y.astype(np.float32)), ("f8", y.astype(np.float64)), ("view", two[:, 0]), ("list", y.tolist()),
                ("series", pd.Series(y, index=np.arange(n) + 4)), ("int", np.rint(y).astype(int)),
                ("back", y.astype(np.float32)[::-1].copy()[::-1])]
    return [("int", y.astype(int)), ("f4", y.astype(np.float32)), ("str", np.array(["a", "bb", "c", "d"])[y]), ("object", np.array(["a", "bb", "c", "d"], dtype=object)[y]),
            ("list", y.tolist()), ("series", pd.Series(y)), ("cat", pd.Series(np.array(["a", "bb", "c", "d"])[y]).astype("category")),
            ("view", np.stack([y, y], axis=1)[:, 0]), ("bool", y % 2 == 0), ("u1", y.astype(np.uint8))]


def answers(f, X, clf):
    return np.asarray(f.predict_proba(X) if clf else f.predict(X), dtype=np.float64)


def kept(k, out):
    rng = rng_for("calls", k)
    pick = lambda *a: a[rng.randint(len(a))]
    clf = k % 3 != 2
    n, d = int(pick(30, 60)), 3
    X = np.round(rng.normal(size=(n, d)) * 3, 1)
    if k % 2:
        X[rng.rand(n, d) < 0.1] = np.nan
    K = int(pick(2, 3, 4))
    y = rng.permutation(np.arange(n) % K) if clf else np.round(rng.normal(size=n) * 5, 2)
    fx = forms_X(rng, X, True)
    xname, XX = fx[k % len(fx)]
    wf, yf = forms_w(rng, np.round(rng.gamma(2, 1, n) + 0.2, 2)), forms_y(rng, y, clf)
    wname, ww = wf[(k // 2 + k // 15) % len(wf)]
    yname, yy = yf[(k // 3 + k // 15) % len(yf)]
    if isinstance(XX, pd.DataFrame):
        cat = pick(None, None, np.arange(XX.shape[1]) >= 2 if xname.startswith("mixed") else np.array([True, False, False]))
    else:
        cat = pick(None, [0], np.array([True, False, True]), np.array([0, 2]), [False, False, True])
    common = dict(n_estimators=int(pick(2, 4)), random_state=int(rng.randint(1 << 30)), n_jobs=int(pick(1, 2)), aggregation=bool(rng.rand() < 0.6),
                  handle_unknown="consider_missing", max_depth=4)
    if clf:
        common.update(class_weight=pick(None, "balanced"), multiclass=pick("multinomial", "ovr"), cat_split_strategy=pick("binary", "all", "random"))
    ev = []
    try:
        f = (ForestClassifier if clf else ForestRegressor)(**common)
        how = k % 2
        if how:
            f.categorical_features = cat
        kw = dict() if how else dict(categorical_features=cat)
        call(ev, "fit", lambda: f.fit(XX, yy, sample_weight=ww, **kw), X=XX, y=yy, w=ww, cat=cat)
        P = XX.iloc[::2] if isinstance(XX, pd.DataFrame) else XX[::2]
        for op in ["predict"] + (["predict_proba", "predict_proba_trees", "apply"] if clf else ["predict_trees", "apply", "weighted_depth"]):
            if hasattr(f, op):
                call(ev, op, lambda: getattr(f, op)(P), X=P, base=XX, y=yy, w=ww, cat=cat)
        call(ev, "score", lambda: f.score(XX, yy), X=XX, y=yy, w=ww)
        call(ev, "step", lambda: setattr(f, "step", 0.5), X=XX, y=yy, w=ww, cat=cat)
        if clf:
            call(ev, "dirichlet", lambda: setattr(f, "dirichlet", 0.9), X=XX, y=yy, w=ww, cat=cat)
        # a second fit with the same objects
        before = answers(f, P, clf)
        call(ev, "refit", lambda: f.fit(XX, yy, sample_weight=ww, **kw), X=XX, y=yy, w=ww, cat=cat)
        ev.append(dict(t="pair", what="refit", left=f2s(before), right=f2s(answers(f, P, clf)), scale=f2(max(1.0, np.abs(before).max()))))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id="kept%d" % k, ev=ev, what={a: str(b) for a, b in dict(clf=clf, n=n, X=xname, y=yname, w=wname, cat=cat, **common).items()}))


def pairs(k, out):
    """Different ways of giving the same weights."""
    rng = rng_for("pairs", k)
    pick = lambda *a: a[rng.randint(len(a))]
    clf = k % 3 != 2
    n = 64
    X = np.round(rng.normal(size=(n, 3)) * 3, 1)
    y = rng.permutation(np.repeat([0, 1, 2, 3], [8, 8, 16, 32])) if clf else np.round(X[:, 0] + rng.normal(size=n), 2)
    common = dict(n_estimators=3, random_state=int(rng.randint(1 << 30)), n_jobs=1, aggregation=bool(rng.rand() < 0.6), max_features=None,
                  max_depth=pick(None, 4))
    if clf:
        common.update(multiclass=pick("multinomial", "multinomial", "ovr"), cat_split_strategy=pick("binary", "all"), criterion=pick("gini", "entropy"))
    cls = ForestClassifier if clf else ForestRegressor
    ev = []

    def same(what, a, b, rows=X):
        ya = [answers(f, rows, clf) for f in (a, b)]
        ev.append(dict(t="pair", what=what, left=f2s(ya[0]), right=f2s(ya[1]), scale=f2(max(1.0, np.abs(ya[0]).max()))))

    try:
        w = pick(1.0, 0.5, 2.0) * 2.0 ** rng.randint(-1, 3, n)     # exact in single precision
        plain = cls(**common).fit(X, y)
        same("ones", plain, cls(**common).fit(X, y, sample_weight=np.ones(n)))
        same("ones", plain, cls(**common).fit(X, y, np.ones(n, dtype=int)))
        ww = cls(**common).fit(X, y, sample_weight=w)
        same("type", ww, cls(**common).fit(X, y, sample_weight=w.astype(np.float32)))
        same("type", ww, cls(**common).fit(X, y, sample_weight=w.tolist()))
        same("type", ww, cls(**common).fit(X, y, sample_weight=pd.Series(w, index=np.arange(n)[::-1])))
        if clf and common["multiclass"] == "multinomial":
            cw = np.array([2.0, 2.0, 1.0, 0.5])[y]
            same("balanced", cls(class_weight="balanced", **common).fit(X, y), cls(**common).fit(X, y, sample_weight=cw))
            same("balanced", cls(class_weight="balanced", **common).fit(X, y, sample_weight=w), cls(**common).fit(X, y, sample_weight=cw * w))
        if not clf and not common["aggregation"]:
            same("scale", ww, cls(**common).fit(X, y, sample_weight=4 * w))
        if not clf and common["aggregation"]:
            # the losses are proportional to the weights, and multiplied by step
            same("scale", ww, cls(step=0.25, **common).fit(X, y, sample_weight=4 * w))
        if clf and not common["aggregation"]:
            same("scale", cls(dirichlet=0.5, **common).fit(X, y, sample_weight=w), cls(dirichlet=2.0, **common).fit(X, y, sample_weight=4 * w))
        if clf and common["aggregation"]:
            same("scale", cls(dirichlet=0.5, **common).fit(X, y, sample_weight=w), cls(dirichlet=2.0, step=0.25, **common).fit(X, y, sample_weight=4 * w))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id="pairs%d" % k, ev=ev, what={a: str(b) for a, b in dict(clf=clf, n=n, **common).items()}))


out = Out(OUT)
for k in range(720 if THOROUGH else 120):
    if k % NSHARDS == SHARD:
        kept(k, out)
for k in range(240 if THOROUGH else 40):
    if k % NSHARDS == SHARD:
        pairs(k, out)
out.close()
