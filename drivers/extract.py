"""Extractions from real Dataset objects. usage: extract.py PROPERTY OUT shard nshards"""
from wwlib import *
PROP, OUT, SHARD, NSHARDS = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
import hashlib, logging
logging.disable(logging.CRITICAL)
from wildwood.datasets.dataset import Dataset
from wildwood.datasets import loaders


def nan2(x):
    return f2(x)


def digest(df):
    h = hashlib.sha256(pd.util.hash_pandas_object(df, index=True).values.tobytes())
    h.update(repr([(c, str(t)) for c, t in df.dtypes.items()]).encode())
    return h.hexdigest()


def raw_random(rng):
    """A data frame, with its declaration. Column "rid" tells the rows apart."""
    pick = lambda *a: a[rng.randint(len(a))]
    n = int(pick(12, 20, 33, 60))
    reg = rng.rand() < 0.35
    nc, nk = int(pick(0, 1, 2)), int(pick(0, 1, 2, 3))
    cols, cont, cat = {}, ["rid"], []
    cols["rid"] = rng.permutation(n) * 1.5 - 7
    for j in range(nc):
        c = "num%d" % j
        v = np.round(rng.normal(size=n) * pick(1, 100), 2)
        if rng.rand() < 0.2:
            v[:] = 3.25
        elif rng.rand() < 0.3:
            v[rng.rand(n) < 0.15] = np.nan
        elif rng.rand() < 0.3:
            v = rng.randint(0, 9, n)
        cols[c] = v
        cont.append(c)
    for j in range(nk):
        c = "cat%d" % j
        m = int(pick(2, 3, 8))
        v = np.array(["m%d" % (i * 7 % 11) for i in range(m)])[rng.randint(m, size=n)]
        if rng.rand() < 0.7:
            v[rng.randint(n)] = "rare"
        cols[c] = pd.Series(v).astype("category") if rng.rand() < 0.6 else pd.Series(v, dtype=object)
        cat.append(c)
    if reg:
        cols["target"] = np.round(rng.normal(size=n), 3)
    else:
        K = int(pick(2, 3))
        y = np.arange(n) % K
        rng.shuffle(y)
        cols["target"] = np.array(["no", "yes", "maybe"])[y] if rng.rand() < 0.5 else y * 2 - 1
    order = list(cols)
    rng.shuffle(order)
    df = pd.DataFrame({c: cols[c] for c in order})
    if rng.rand() < 0.3:
        df["unused"] = 1.0
    if rng.rand() < 0.4:
        df.index = rng.permutation(n) + 50
    rng.shuffle(cont)
    rng.shuffle(cat)
    task = "regression" if reg else "binary-classification" if len(set(cols["target"])) == 2 else "multiclass-classification"
    d = Dataset("random", task, label_column="target", continuous_columns=list(cont), categorical_columns=list(cat) or pick(None, []),
                test_size=pick(0.3, 0.25, 0.5, 5 if n > 12 else 4))
    d.df_raw = df
    return d


LOADERS = ["load_breastcancer", "load_boston", "load_cardio", "load_churn", "load_letter", "load_satimage", "load_spambase"]


def raw_real(name, rng):
    """Some rows of a data set that comes with wildwood, with a column that tells the rows apart."""
    d = getattr(loaders, name)()
    df = d.df_raw
    lab = df[d.label_column]
    if d.task == "regression":
        rows = rng.permutation(len(df))[:60]
    else:
        rows = []
        for c in sorted(set(lab), key=str)[:5]:
            rows += list(rng.permutation(np.flatnonzero((lab == c).values))[: int(rng.randint(8, 16))])
        rows = rng.permutation(rows)
    df = df.iloc[rows].copy()
    d.continuous_columns = list(d.continuous_columns or [])
    if any(isinstance(c, (int, np.integer)) for c in df.columns): # for scikit-learn whole numbers are positions, not names
        df.columns = ["c%s" % c for c in df.columns]
        d.label_column = "c%s" % d.label_column
        d.continuous_columns = ["c%s" % c for c in d.continuous_columns]
        d.categorical_columns = ["c%s" % c for c in d.categorical_columns or []]
    rid = "rid"
    df[rid] = np.random.RandomState(1).permutation(len(df)) * 2.5
    d.continuous_columns.insert(int(rng.randint(len(d.continuous_columns) + 1)), rid)
    if len(d.continuous_columns) > 14:
        keep = sorted(rng.permutation(len(d.continuous_columns))[:12])
        cols = [d.continuous_columns[k] for k in keep]
        d.continuous_columns = cols if rid in cols else cols + [rid]
    d.df_raw = df
    return d


def dense(a):
    if hasattr(a, "toarray"):
        a = a.toarray()
    return np.asarray(a, dtype=np.float64)


def run(name, d, rng, out):
    pick = lambda *a: a[rng.randint(len(a))]
    df = d.df_raw
    n = len(df)
    reg = d.task == "regression"
    cont, cat = list(d.continuous_columns or []), list(d.categorical_columns or [])
    lab = df[d.label_column].tolist()
    uniq = sorted(set(lab))
    catv = []
    for c in cat:
        v = df[c].tolist()
        u = sorted(set(v))
        catv.append([u.index(x) + 1 for x in v])
    ev = []
    tr = dict(id=name, n=n, reg=reg, cont=[[nan2(x) for x in df[c]] for c in cont], cat=catv, contname=[str(c) for c in cont],
              catname=[str(c) for c in cat], y=[1] * n if reg else [uniq.index(v) + 1 for v in lab],
              yf=[f2(v) for v in lab] if reg else [], labels=[] if reg else [str(v) for v in uniq], ev=ev,
              what=dict(task=d.task, dtypes={str(k): str(v.name) for k, v in df.dtypes.items()}))
    rid = cont.index("rid")
    by_rank = np.argsort(df["rid"].values)
    before = digest(df)
    snap = df.copy()
    try:
        s = [3, int(rng.randint(1000)), int(rng.randint(1 << 31)), 42][rng.randint(4)]
        states = [[s, 0, s, 0, None], [0, s, None, 0, s], [0, None, 0, s, 2 ** 32 - 1]][rng.randint(3)]
        for rs in states:
            d.standardize = bool(rng.rand() < 0.6)
            d.one_hot_encode = bool(rng.rand() < 0.6)
            d.drop = pick(None, None, "first", "if_binary") if d.one_hot_encode else None
            d.sparse = bool(d.one_hot_encode and cat and rng.rand() < 0.3)
            d.pd_df_categories = bool(not d.one_hot_encode and rng.rand() < 0.4)
            if rng.rand() < 0.3:
                d.test_size = pick(0.3, 0.4, 0.2 if n >= 20 else 0.35)
            if rng.rand() < 0.5:
                np.random.seed(int(rng.randint(1000)))   # of no consequence for an extraction with a random_state
            Xtr, Xte, ytr, yte = d.extract(random_state=rs)
            frames = [isinstance(x, pd.DataFrame) for x in (Xtr, Xte)]
            named = not any(frames) or all([str(c) for c in x.columns] == [str(c) for c in d.columns_] for x in (Xtr, Xte))
            A, B = dense(Xtr), dense(Xte)
            col = np.concatenate([A[:, rid], B[:, rid]]) if A.ndim == 2 and B.ndim == 2 and min(A.shape[1], B.shape[1]) > rid else np.zeros(0)
            if len(col) != n or len(np.unique(np.round(col, 9))) != n:
                ev.append(dict(t="undecoded", what="%d rows of %d" % (len(np.unique(np.round(col, 9))), n)))
                continue
            ids = by_rank[np.argsort(np.argsort(col))] + 1
            ts = d.test_size
            size = ["rows", ts] if isinstance(ts, int) else ["share", int(round(ts * 100)), 100]
            ev.append(dict(t="extract", rs=str(rs), size=size, std=bool(d.standardize), onehot=bool(d.one_hot_encode), drop=d.drop or "none",
                           train=[int(x) for x in ids[: len(A)]], test=[int(x) for x in ids[len(A):]],
                           xtrain=[[nan2(v) for v in r] for r in A], xtest=[[nan2(v) for v in r] for r in B],
                           ytrain=f2s(np.asarray(ytr)), ytest=f2s(np.asarray(yte)), columns=[str(c) for c in d.columns_] if named else ["?"],
                           classes=[] if reg else [str(c) for c in d.classes_], mask=[] if d.categorical_features_ is None else [bool(b) for b in d.categorical_features_],
                           counts=[int(d.n_samples_in_), int(d.n_samples_train_), int(d.n_samples_test_), int(d.n_features_in_),
                                   int(d.n_features_categorical_), int(d.n_features_continuous_), int(d.n_columns_)],
                           rawsame=bool(d.df_raw is df and digest(d.df_raw) == before and snap.equals(d.df_raw))))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(tr)


out = Out(OUT)
for k in range(700 if THOROUGH else 150):
    if k % NSHARDS == SHARD:
        rng = rng_for("extract", k)
        run("random%d" % k, raw_random(rng), rng, out)
for k in range(42 if THOROUGH else 14):
    if k % NSHARDS == SHARD:
        rng = rng_for("extract-real", k)
        name = LOADERS[k % len(LOADERS)]
        try:
            d = raw_real(name, rng)
        except Exception as exc:
            out.write(dict(id="%s-%d" % (name, k), n=0, reg=True, cont=[], cat=[], contname=[], catname=[], y=[], yf=[], labels=[], ev=[failed(exc)], what={}))
            continue
        run("%s-%d" % (name, k), d, rng, out)
out.close()
