"""Histories of the real encoder (and forests, for the declarations). usage: encoder.py PROPERTY OUT shard nshards"""
from wwlib import *
PROP, OUT, SHARD, NSHARDS = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
from wildwood.preprocessing.encoder import Encoder
from wildwood.preprocessing.features_bitarray import features_bitarray_to_array

NONE = dict(k="none", v=[])
isna = lambda v: bool(pd.isna(v))


def tok(v):
    """The token of a category; equal values have equal tokens."""
    if isna(v):
        return ""
    if isinstance(v, (bool, np.bool_)):
        return "b:%s" % bool(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return "n:%r" % float(v)
    return "s:" + str(v)


def columns(X):
    if isinstance(X, pd.DataFrame):
        return [X.iloc[:, j] for j in range(X.shape[1])]
    return [X[:, j] for j in range(X.shape[1])]


def dtype_of(col):
    if isinstance(col, pd.Series):
        if col.dtype.name == "category":
            return "category"
        k = col.dtype.kind
    else:
        k = col.dtype.kind
        if k in "OSUb":
            return "free"     # an array of objects: not claimed without declaration
    return {"b": "bool", "O": "text", "S": "text", "U": "text", "u": "num", "i": "num", "f": "num"}.get(k, "other")


def cats_of(col):
    if isinstance(col, pd.Series) and col.dtype.name == "category":
        return sorted({tok(v) for v in col.cat.categories})
    return sorted({tok(v) for v in list(col) if not isna(v)})


def nums_of(col):
    a = np.asarray(col)
    a = a.astype(np.float64)
    return np.unique(a[~np.isnan(a)])


def fit_event(X, types, err, decl=NONE, rule=None, mb=256, policy="error", openrule=False):
    cols = []
    for j, col in enumerate(columns(X)):
        d = dtype_of(col)
        distinct = len(cats_of(col)) if d in ("text", "bool", "category", "other", "free") else len(nums_of(col))
        if d == "num" and decl["k"] == "none" and not isinstance(col, pd.Series) and np.isnan(np.asarray(col, float)).any():
            d = "free"       # whether NaN counts as a value is not claimed
        c = dict(dtype=d, distinct=distinct, vals=[], cats=[])
        if not err:
            if types[j]:
                c["cats"] = cats_of(col)
            else:
                c["vals"] = f2s(nums_of(col))
        cols.append(c)
    return dict(t="fit", err=err, n=int(X.shape[0]), decl=decl, rule=rule or dict(k="log", v=0), cols=cols, mb=mb, policy=policy,
                types=[] if err else [bool(t) for t in types])


def batch_event(enc, X, types, src):
    try:
        B = features_bitarray_to_array(enc.transform(X))
    except ValueError as exc:
        cells = [[dict(v=(tok(v) if types[j] else ([] if isna(v) else f2(v))), b=-1) for v in list(col)]
                 for j, col in enumerate(columns(X))]
        return dict(t="batch", err=True, src=src, cols=cells, what=brief(exc))
    cells = []
    for j, col in enumerate(columns(X)):
        cells.append([dict(v=(tok(v) if types[j] else ([] if isna(v) else f2(v))), b=int(B[r, j]))
                      for r, v in enumerate(list(col))])
    return dict(t="batch", err=False, src=src, cols=cells)


# ------------------------------------------------------------------ C01
def num_column(rng, n, style):
    if style == "int":
        return rng.randint(0, max(2, n // 2), n).astype(float)
    if style == "normal":
        return rng.normal(size=n)
    if style == "skew":
        return np.round(np.exp(rng.normal(size=n) * 3), 3)
    if style == "few":
        return rng.choice([-7.25, 0.0, 1e-3, 3.5, 1e6], n)
    if style == "heavy":
        return np.where(rng.rand(n) < 0.8, 2.0, np.round(rng.normal(size=n), 2))
    if style == "const":
        return np.full(n, 4.5)
    if style == "inf":
        c = np.round(rng.normal(size=n), 1)
        c[rng.randint(n)] = np.inf
        if rng.rand() < 0.5:
            c[rng.randint(n)] = -np.inf
        return c
    if style == "infs":
        c = np.round(rng.normal(size=n), 2)
        c[rng.rand(n) < rng.rand()] = np.inf
        c[rng.rand(n) < rng.rand() / 2] = -np.inf
        return c
    if style == "tiny":
        return rng.randint(0, 40, n) * 1e-300
    if style == "large":
        return rng.randint(-40, 40, n) * 1e17
    if style == "near":
        return 1e9 + rng.randint(0, 30, n) * 1e-6
    if style == "neg":
        return -rng.randint(0, 60, n).astype(float)
    return np.full(n, np.nan)      # "nan"


STYLES = ["int", "normal", "skew", "few", "heavy", "const", "inf", "tiny", "large", "near", "neg", "nan", "infs"]


def c01(k, out):
    rng = rng_for("c01", k)
    n = 1500 if k % 20 == 13 else int(rng.choice([2, 3, 5, 10, 30, 80, 300]))
    styles = [STYLES[(k + i) % len(STYLES)] if i == 0 else STYLES[rng.randint(len(STYLES))] for i in range(int(rng.randint(1, 4)))]
    X = np.stack([num_column(rng, n, s) for s in styles], axis=1)
    if rng.rand() < 0.4:
        X[rng.rand(*X.shape) < 0.2] = np.nan
    mb = int(rng.choice([3, 4, 5, 8, 16, 50, 255, 256, 257]))
    if n == 1500:
        mb = int(rng.choice([300, 1000, 70000]))
    if k % 5 == 0:     # as many distinct values as bins, one more, one less
        d = int(nums_of(X[:, 0]).size)
        mb = max(3, d + int(rng.randint(-1, 2)))
    frame = rng.rand() < 0.5
    mk = (lambda A: pd.DataFrame(A, columns=["x"] * A.shape[1] if k % 7 == 0 else None)) if frame else (lambda A: A)
    ev = []
    types = [False] * X.shape[1]
    try:
        enc = Encoder(max_bins=mb, is_categorical=np.zeros(X.shape[1], bool), handle_unknown="error")
        enc.fit(mk(X))
        ev.append(fit_event(mk(X), types, False, decl=dict(k="mask", v=types), mb=mb))
        ev.append(batch_event(enc, mk(X), types, "fit data"))
        # probes
        probes = []
        for j in range(X.shape[1]):
            u = nums_of(X[:, j])
            fin = u[np.isfinite(u)]
            p = [np.nan, -1e290, 1e290, 0.0, -np.inf, np.inf]
            for a, b in zip(fin[:-1][:30], fin[1:][:30]):
                m = 0.5 * (a + b)
                p += [m, np.nextafter(m, np.inf), np.nextafter(m, -np.inf), a, b, a + (b - a) * rng.rand()]
            probes.append(p)
        m = max(map(len, probes))
        P = np.stack([np.array((p * (m // len(p) + 1))[:m]) for p in probes], axis=1)
        P = P[rng.permutation(len(P))][: 120]
        variants = [("array", P), ("frame", pd.DataFrame(P)), ("rows reversed", P[::-1]), ("fortran", np.asfortranarray(P)),
                    ("no missing", P[~np.isnan(P).any(axis=1)]), ("one row", P[:1]), ("only missing", np.full((3, P.shape[1]), np.nan)),
                    ("float32", P[np.isfinite(P).all(axis=1) & (np.abs(P) < 1e30).all(axis=1)].astype(np.float32)),
                    ("frame float32", pd.DataFrame(X.astype(np.float32))),
                    ("int64", np.round(np.clip(np.nan_to_num(X, nan=3.0, posinf=7), -1e6, 1e6)).astype(np.int64)),
                    ("frame int32", pd.DataFrame(np.round(np.clip(np.nan_to_num(X, nan=2.0, posinf=7), -1e6, 1e6)).astype(np.int32))),
                    ("uint8", np.round(np.clip(np.nan_to_num(X, nan=2.0), 0, 200)).astype(np.uint8)),
                    ("frame, index", pd.DataFrame(P, index=np.arange(len(P))[::-1] * 3)),
                    ("frame, half missing", pd.DataFrame(np.where(rng.rand(*X.shape) < 0.5, np.nan, X)))]
        for i in rng.permutation(len(variants))[:7]:
            src, A = variants[i]
            if len(A):
                ev.append(batch_event(enc, A, types, src))
        # balance
        for j in range(X.shape[1]):
            col = np.sort(X[:, j][~np.isnan(X[:, j])])
            if np.unique(col).size > mb:
                B = features_bitarray_to_array(enc.transform(mk(np.repeat(col[:, None], X.shape[1], axis=1))))
                Mi = features_bitarray_to_array(enc.transform(mk(np.full((1, X.shape[1]), np.nan))))
                lo, hi = np.searchsorted(col, col, "left"), np.searchsorted(col, col, "right")
                ev.append(dict(t="ranks", n=len(col), mb=mb, slack=2, miss=int(Mi[0, j]),
                               cells=[dict(r1=int(a) + 1, r2=int(b), b=int(c)) for a, b, c in zip(lo, hi, B[:, j])]))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id="num%d" % k, what=dict(styles=styles, n=n, mb=mb, frame=bool(frame)), ev=ev))


def c01_big(k, out):
    """More rows than subsample."""
    rng = rng_for("c01big", k)
    n = 65000
    frame = k % 2 == 0
    mb = [16, 100, 256][k % 3]
    order = [np.arange(n), np.arange(n)[::-1], rng.permutation(n)]
    X = np.stack([order[(k + j) % 3].astype(float) for j in range(2)], axis=1)
    mk = pd.DataFrame if frame else np.asarray
    ev = []
    try:
        enc = Encoder(max_bins=mb, is_categorical=np.zeros(2, bool), subsample=50000 if k < 3 else None, random_state=k).fit(mk(X))
        v = np.unique(np.concatenate([np.linspace(0, n - 1, 400).round(), [0, 1, n - 2, n - 1]]))
        B = features_bitarray_to_array(enc.transform(mk(np.stack([v, v], axis=1))))
        Mi = features_bitarray_to_array(enc.transform(mk(np.full((1, 2), np.nan))))
        for j in range(2):
            ev.append(dict(t="ranks", n=n, mb=mb, slack=900 if k < 3 else 2, miss=int(Mi[0, j]),
                           cells=[dict(r1=int(a) + 1, r2=int(a) + 1, b=int(b)) for a, b in zip(v, B[:, j])]))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id="big%d" % k, what=dict(n=n, mb=mb, frame=frame), ev=ev))


# ------------------------------------------------------------------ C02
def pools(rng, kind):
    if kind == "str":
        return ["a", "b", "c", "dd", "e e", "Z", "10", "9", "", "nan"][: int(rng.randint(1, 11))]
    if kind == "long":
        return ["k%03d" % i for i in range(int(rng.choice([126, 127, 128, 129, 200, 300])))]
    if kind == "int":
        return [int(v) for v in rng.choice(np.arange(-20, 60), int(rng.randint(1, 9)), replace=False)]
    if kind == "float":
        return [float(v) / 4 for v in rng.choice(np.arange(-20, 60), int(rng.randint(1, 9)), replace=False)]
    if kind == "bool":
        return [True, False]
    if kind == "mixed":
        return ["a", "b", "cc"]


def cat_series(rng, values, pool, kind, style):
    """A DataFrame column; style: plain, category, permuted categories, extra categories."""
    if style == "plain":
        if kind in ("int", "float") and any(v is None for v in values):
            return pd.Series([np.nan if v is None else v for v in values], dtype=[float, np.float32][int(rng.randint(2))])
        if kind == "int":
            return pd.Series(values, dtype=[np.int64, np.int32, np.int16, float][int(rng.randint(4))])
        if kind == "float":
            return pd.Series(values, dtype=[np.float64, np.float32][int(rng.randint(2))])
        if kind == "bool" and not any(v is None for v in values):
            return pd.Series(values, dtype=bool)
        return pd.Series(values, dtype=object)
    cats = list(dict.fromkeys([v for v in values if v is not None]))
    if style == "permuted":
        cats = [cats[i] for i in rng.permutation(len(cats))]
    elif style == "declared":
        cats = list(dict.fromkeys(list(pool) + cats))
    return pd.Series(pd.Categorical(values, categories=cats))


def c02(k, out):
    rng = rng_for("c02", k)
    kinds = [["str", "long", "int", "float", "bool", "str"][(k + i) % 6] for i in range(int(rng.randint(1, 4)))]
    policy = ["error", "consider_missing"][int(rng.randint(2))]
    container = ["frame", "frame", "object", "natural"][int(rng.randint(4))]
    if container == "natural":      # an array of one type
        kinds = [kinds[0]] * len(kinds)
    P = [pools(rng, kd) for kd in kinds]
    n = int(rng.choice([2, 5, 20, 60])) if "long" not in kinds else 400
    extra = {"str": ["new", "x"], "long": ["k9999"], "int": [1000, -77], "float": [0.125, 1e9], "bool": [], "mixed": ["q"]}
    miss_ok = [True] * len(kinds)

    def draw(m, unknown, missing):
        cols = []
        for j, kd in enumerate(kinds):
            v = [P[j][i] for i in rng.randint(0, len(P[j]), m)]
            if kd == "long" and m >= len(P[j]):
                v[: len(P[j])] = P[j]
            for i in range(m):
                if extra[kd] and rng.rand() < unknown:
                    v[i] = extra[kd][rng.randint(len(extra[kd]))]
                elif rng.rand() < missing and not (container == "natural" and kd in ("int", "bool", "str", "long")):
                    v[i] = None
            cols.append(v)
        return cols

    def build(cols, style):
        if container == "frame":
            d = {("c%d" % j if k % 5 else "same%d" % j): cat_series(rng, v, P[j], kinds[j], style) for j, v in enumerate(cols)}
            X = pd.DataFrame(d)
            if k % 5 == 0:
                X.columns = ["same"] * X.shape[1]
            if rng.rand() < 0.3:
                X.index = rng.permutation(len(X)) + 5
            return X
        m = len(cols[0])
        if container == "object":
            A = np.empty((m, len(cols)), dtype=object)
            for j, v in enumerate(cols):
                A[:, j] = [np.nan if x is None and rng.rand() < 0.5 else x for x in v]
            return A
        if kinds[0] in ("str", "long"):
            return np.array(cols, dtype=str).T.copy()
        if kinds[0] == "bool":
            return np.array(cols, dtype=bool).T.copy()
        if kinds[0] == "int":
            return np.array(cols, dtype=[np.int64, np.int32, np.int16, float, np.float32][int(rng.randint(5))]).T.copy()
        return np.array([[np.nan if x is None else x for x in v] for v in cols], dtype=[float, np.float32][int(rng.randint(2))]).T.copy()

    ev = []
    types = [True] * len(kinds)
    styles = ["plain", "category", "permuted", "declared"]
    try:
        X = build(draw(n, 0, 0.15 if rng.rand() < 0.5 else 0), styles[int(rng.randint(4))])
        enc = Encoder(max_bins=256, is_categorical=np.ones(len(kinds), bool), handle_unknown=policy).fit(X)
        ev.append(fit_event(X, types, False, decl=dict(k="mask", v=types), policy=policy))
        ev.append(batch_event(enc, X, types, "fit data"))
        for _ in range(8):
            m = int(rng.choice([1, 2, 7, 25]))
            u = [0, 0, 0.1, 1.0][int(rng.randint(4))]
            w = [0, 0.2, 1.0][int(rng.randint(3))]
            st = styles[int(rng.randint(4))]
            ev.append(batch_event(enc, build(draw(m, u, w), st), types, "%s u%s m%s" % (st, u, w)))
        if container == "frame":
            sub = X.iloc[::-1].iloc[: max(1, n // 2)]
            ev.append(batch_event(enc, sub, types, "rows of the fit data, reversed"))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id="cat%d" % k, what=dict(kinds=kinds, policy=policy, container=container, n=n), ev=ev))


def c02_big(k, out):
    """Numbers of categories around the limits of integer types."""
    rng = rng_for("c02big", k)
    n = [255, 256, 257, 32767, 32768, 65535, 65536][k]
    names = ["v%06d" % i for i in rng.permutation(n)]
    frame = k % 2 == 0
    mk = (lambda v: pd.DataFrame(dict(a=pd.Series(v, dtype=object)))) if frame else (lambda v: np.array(v, dtype=object)[:, None])
    ev, types = [], [True]
    try:
        enc = Encoder(max_bins=256, is_categorical=np.ones(1, bool), handle_unknown="consider_missing").fit(mk(names))
        ev.append(fit_event(mk(names), types, False, decl=dict(k="mask", v=types), policy="consider_missing"))
        for _ in range(3):
            v = [names[i] for i in rng.randint(0, n, 12)] + [sorted(names)[0], sorted(names)[-1], None, "new"]
            ev.append(batch_event(enc, mk([v[i] for i in rng.permutation(len(v))]), types, "some of %d categories" % n))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id="cats%d" % n, what=dict(categories=n, frame=frame), ev=ev))


# ------------------------------------------------------------------ C03
def c03(k, out):
    from wildwood import ForestClassifier
    rng = rng_for("c03", k)
    n = int(rng.choice([8, 20, 21, 54, 55, 56, 100, 148, 149, 150]))
    rule = [dict(k="log", v=0), dict(k="sqrt", v=0), dict(k="int", v=int(rng.choice([4, 5, 7, 20])))][int(rng.randint(3))]
    limit = {"log": max(2, int(np.floor(np.log(n)))), "sqrt": max(2, int(np.floor(np.sqrt(n)))), "int": rule["v"]}[rule["k"]]
    frame = rng.rand() < 0.6
    nf = int(rng.randint(1, 5))

    def number(d, dt):
        d = max(1, min(d, n))
        v = np.concatenate([np.arange(d), rng.randint(0, d, n - d)])[rng.permutation(n)]
        return (v * 1.5).astype(dt) if dt == np.float64 else v.astype(dt)
    cols, ev = [], []
    for j in range(nf):
        d = int(limit + rng.choice([-1, 0, 1, 2, 30, -limit + 1]))
        if frame:
            kd = ["num", "num", "num", "text", "bool", "category", "date" if rng.rand() < 0.15 else "num"][int(rng.randint(7))]
        else:
            kd = "num"
        if kd == "num":
            c = number(d, [np.float64, np.int64, np.int32][int(rng.randint(3))] if frame else np.float64)
            if frame and c.dtype == np.float64 and rng.rand() < 0.4:
                c[rng.permutation(n)[: n // 10]] = np.nan
        elif kd == "text":
            c = np.array(["w%d" % v for v in rng.randint(0, max(1, d), n)], dtype=object)
        elif kd == "bool":
            c = rng.rand(n) < 0.5
        elif kd == "category":
            c = pd.Categorical(["v%d" % v for v in rng.randint(0, 4, n)])
        else:
            c = pd.date_range("2020-01-01", periods=n)
        cols.append(c)
    if frame:
        X = pd.DataFrame({"f%d" % j: c for j, c in enumerate(cols)})
    else:
        X = np.stack(cols, axis=1)
        if rng.rand() < 0.3:
            X = (X / 1.5).astype(np.int64)
    how = ["none", "mask", "index", "none", "mask", "index", "index-out", "mask-len", "bad-float", "bad-str", "empty",
           "index-neg"][int(rng.randint(12))]
    decl, arg = NONE, None
    if how == "mask":
        m = [bool(v) for v in rng.rand(nf) < 0.5]
        decl, arg = dict(k="mask", v=m), [m, np.array(m)][int(rng.randint(2))]
    elif how == "index":
        ix = sorted(int(v) for v in rng.permutation(nf)[: int(rng.randint(1, nf + 1))])
        decl, arg = dict(k="index", v=ix), [ix, np.array(ix), tuple(ix)][int(rng.randint(3))]
    elif how == "index-out":
        decl, arg = dict(k="index", v=[0, nf]), [0, nf]
    elif how == "index-neg":
        decl, arg = dict(k="index", v=[-1]), [-1]
    elif how == "mask-len":
        ln = nf + [1, -1][int(rng.randint(2))]
        ln = ln if ln > 0 else nf + 1
        decl, arg = dict(k="mask", v=[True] * ln), [True] * ln
    elif how == "bad-float":
        decl, arg = dict(k="bad", v=[0]), [0.0]
    elif how == "bad-str":
        decl, arg = dict(k="bad", v=["f0"]), ["f0"]
    elif how == "empty":
        decl, arg = dict(k="index", v=[]), []
    y = np.arange(n) % 2
    where = ["init", "fit", "encoder"][int(rng.randint(3))]
    if where == "encoder" and how not in ("none", "mask", "mask-len"):
        where = "init"
    cmc = rule["v"] if rule["k"] == "int" else rule["k"]
    try:
        try:
            if where == "encoder":
                e = Encoder(is_categorical=None if arg is None else np.array(arg), cat_min_categories=cmc)
                e.fit(X)
                types, err = e.is_categorical_, False
                e.transform(X)
            else:
                f = ForestClassifier(n_estimators=1, max_depth=2, cat_min_categories=cmc, random_state=1,
                                     categorical_features=arg if where == "init" else None)
                f.fit(X, y, categorical_features=arg if where == "fit" else None)
                types, err = f.is_categorical_, False
        except ValueError as exc:
            types, err = None, True
        ev.append(fit_event(X, types, err, decl=decl, rule=rule))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id="type%d" % k, what=dict(how=how, where=where, n=n, rule=rule, frame=bool(frame),
                                              dtypes=[str(getattr(c, "dtype", "")) for c in cols]), ev=ev))


def c03_reject(out):
    """Unsupported inputs."""
    from wildwood import ForestClassifier
    y = np.arange(10) % 2
    bad = {"list": [[1.0, 2.0]] * 10, "1d": np.zeros(10), "3d": np.zeros((10, 2, 2)), "complex": np.zeros((10, 2), complex),
           "dates": np.zeros((10, 2), "datetime64[s]"), "dict": dict(a=1)}
    for name, X in bad.items():
        ev = []
        for who in ("encoder", "forest"):
            err = False
            try:
                if who == "encoder":
                    Encoder().fit(X)
                else:
                    ForestClassifier(n_estimators=1).fit(X, y)
            except ValueError:
                err = True
            except Exception as exc:
                err = who == "forest" and not from_code(exc)
            ev.append(dict(t="fit", err=err, n=10, decl=dict(k="bad", v=[0]), rule=dict(k="log", v=0), cols=[], mb=256, policy="error",
                           types=[]))
        out.write(dict(id="reject-" + name, what=name, ev=ev[:1]))


# ------------------------------------------------------------------ C20
def inverse_event(enc, X, bits, types, src):
    """Values, their bins, and what comes back from the bins."""
    B = features_bitarray_to_array(bits)
    D = enc.inverse_transform(bits)
    cols = []
    for j, col in enumerate(columns(X)):
        back, cells = list(D.iloc[:, j]), []
        for r, v in enumerate(list(col)):
            w = back[r] if r < len(back) else "no such row"
            if types[j]:
                cells.append(dict(v=tok(v), b=int(B[r, j]), back=tok(w)))
            else:
                gone = isna(w)
                cells.append(dict(v=[] if isna(v) else f2(v), b=int(B[r, j]), lo=[] if gone else f2(w.left), hi=[] if gone else f2(w.right)))
        cols.append(cells)
    return dict(t="inverse", src=src, rows=int(D.shape[0]), cols=cols, nf=int(D.shape[1]))


def c20(k, out):
    rng = rng_for("c20", k)
    n = int(rng.choice([2, 5, 30, 120, 320]))
    layout = ["num", "cat", "both", "both"][k % 4]
    nnum = 0 if layout == "cat" else int(rng.randint(1, 4))
    kinds = [] if layout == "num" else [["str", "long", "int", "float", "bool"][(k // 4 + i) % 5] for i in range(int(rng.randint(1, 4)))]
    P = [pools(rng, kd) for kd in kinds]
    extra = {"str": ["new", "x"], "long": ["k9999"], "int": [1000, -77], "float": [0.125, 1e9], "bool": []}
    rates = [[0, 0, 0.2, 0.6, 1.0][int(rng.randint(5))] for _ in range(nnum + len(kinds))]
    styles = ["int", "normal", "skew", "few", "heavy", "const", "tiny", "large", "near", "neg"]
    picked = [styles[(k + i) % len(styles)] for i in range(nnum)]
    order = rng.permutation(nnum + len(kinds))

    def build(m, unknown, rate, style):
        cols = []
        for j in range(nnum):
            v = num_column(rng, max(m, 2), picked[j])[:m]
            v[rng.rand(m) < rate(j)] = np.nan
            cols.append(pd.Series(v))
        for j, kd in enumerate(kinds):
            v = [P[j][i] for i in rng.randint(0, len(P[j]), m)]
            if kd == "long" and m >= len(P[j]):
                v[: len(P[j])] = P[j]
            v = [None if rng.rand() < rate(nnum + j) else extra[kd][rng.randint(len(extra[kd]))] if extra[kd] and rng.rand() < unknown else x
                 for x in v]
            cols.append(cat_series(rng, v, P[j], kd, style))
        if not kinds and k % 8 < 4:
            return np.stack([cols[j] for j in order], axis=1)
        X = pd.DataFrame({"c%d" % j: cols[j] for j in order})
        if k % 3 == 0:
            X.index = rng.permutation(m) * 2 + 7
        return X
    types = [bool(j >= nnum) for j in order]
    mb = int(rng.choice([3, 4, 8, 50, 255, 256]))
    ev, ways = [], ["plain", "category", "permuted", "declared"]
    try:
        X = build(n, 0, lambda j: rates[j], ways[int(rng.randint(4))])
        enc = Encoder(max_bins=mb, is_categorical=np.array(types), handle_unknown="consider_missing")
        bits = enc.fit_transform(X) if k % 2 else enc.fit(X).transform(X)
        ev.append(fit_event(X, types, False, decl=dict(k="mask", v=types), mb=mb, policy="consider_missing"))
        ev.append(inverse_event(enc, X, bits, types, "fit data"))
        if k % 5 == 0:
            ev.append(inverse_event(enc, X, bits, types, "fit data, again"))
        for _ in range(4):
            w = [0, 0.3, 1.0][int(rng.randint(3))]
            A = build(int(rng.choice([1, 2, 9, 40])), [0, 0.3, 1.0][int(rng.randint(3))], lambda j: w, ways[int(rng.randint(4))])
            ev.append(inverse_event(enc, A, enc.transform(A), types, "batch, missing %s" % w))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id="back%d" % k, what=dict(n=n, mb=mb, types=types, kinds=kinds, styles=picked, missing=rates), ev=ev))


def main():
    out = Out(OUT)
    N = {"C01": 160, "C02": 220, "C03": 240, "C20": 240}[PROP] * (8 if THOROUGH else 1)
    fn = {"C01": c01, "C02": c02, "C03": c03, "C20": c20}[PROP]
    for k in range(N):
        if k % NSHARDS == SHARD:
            fn(k, out)
    if PROP == "C01":
        for k in range(6):
            if k % NSHARDS == SHARD:
                c01_big(k, out)
    if PROP == "C02":
        for k in range(7):
            if k % NSHARDS == SHARD:
                c02_big(k, out)
    if PROP == "C03" and SHARD == 0:
        c03_reject(out)
    out.close()


main()
