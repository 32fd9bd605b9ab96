"""Predictions of forests on batches. usage: combine.py PROPERTY OUT shard nshards"""
from wwlib import *
PROP, OUT, SHARD, NSHARDS = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
from wildwood import ForestClassifier, ForestRegressor


def tok(v):
    if isinstance(v, (bool, np.bool_)):
        return "b:%s" % bool(v)
    if isinstance(v, (int, np.integer)):
        return "i:%d" % int(v)
    if isinstance(v, (float, np.floating)):
        return "f:%r" % float(v)
    return "s:%s" % v


LABELS = [
    ("range", lambda K: np.arange(K)), ("shift", lambda K: np.arange(K) + 5), ("neg", lambda K: np.arange(K) * 3 - 4),
    ("float", lambda K: np.arange(K) * 2.0 - 1), ("str", lambda K: np.array(["k%d" % (7 * i % 13) for i in range(K)])),
    ("len", lambda K: np.array(["b" * (K - i) for i in range(K)])), ("obj", lambda K: np.array(["z", "aa", "m", "Q", "_", "y2", "w", "e"][:K], dtype=object)),
    ("huge", lambda K: np.array([10 ** 12, -(10 ** 15), 3, 2 ** 53 + 1, -1, 0, 7, 9][:K], dtype=np.int64)),
    ("int8", lambda K: np.array([3, -5, 100, 0, 7, 9, 11, -90][:K], dtype=np.int8)),
    ("uint8", lambda K: np.array([3, 250, 100, 0, 7, 9, 11, 200][:K], dtype=np.uint8)),
    ("bool", lambda K: np.array([True, False])),
]


def tree_answers(f, X, clf):
    """The answer of each tree on its own, one after the other."""
    fb = f._encoder.transform(X)
    res = []
    for tree in f.trees:
        v = np.asarray(tree.predict_proba(fb) if clf else tree.predict(fb), dtype=np.float64)
        res.append(v.reshape(len(v), -1))
    return np.stack(res)          # trees, rows, columns


def run(k, out):
    rng = rng_for("combine", k)
    pick = lambda *a: a[rng.randint(len(a))]
    clf = k % 4 != 3
    d = int(pick(1, 2, 3, 5))
    n = int(pick(12, 30, 80, 200))
    lname, mk = LABELS[k % len(LABELS)]
    K = 2 if lname == "bool" else int(pick(2, 3, 3, 4, 5, 8))
    n_est = int(pick(1, 2, 3, 5, 10, 17))
    ovr = bool(rng.rand() < 0.5)
    sparse = k % 6 == 1      # one-versus-rest, rows whose probabilities sum to little or nothing before they are normalised
    if sparse:
        clf, ovr, K, n_est = True, True, max(K, 3) if lname != "bool" else 2, int(pick(1, 1, 2))
    frame = bool(rng.rand() < 0.4)
    X = np.round(rng.normal(size=(n, d)), 1)
    X[rng.rand(n, d) < 0.05] = np.nan
    cat = bool(frame and rng.rand() < 0.6)
    common = dict(n_estimators=n_est, random_state=int(rng.randint(1 << 30)), n_jobs=int(pick(1, 2, 4, -1)), aggregation=bool(rng.rand() < 0.6),
                  max_depth=pick(None, None, 2, 4), max_features=pick(None, "auto", 1), step=float(pick(0.3, 1.0, 10.0)),
                  handle_unknown="consider_missing")

    if sparse:
        common.update(aggregation=bool(rng.rand() < 0.2), max_depth=None, max_features=None)

    def frame_of(A):
        if not frame:
            return A
        D = pd.DataFrame(A, columns=["x%d" % j for j in range(d)])
        if cat:
            D["c"] = np.where(np.isnan(A[:, 0]), "miss", np.where(A[:, 0] > 0, "p", "q"))
        return D

    ev = []
    kk = K if clf else 1
    tr = dict(id="forest%d" % k, kind="clf" if clf else "reg", K=kk, ovr=bool(clf and ovr and K > 2), nest=n_est, classes=[], ev=ev,
              trees=n_est * (K if clf and ovr and K > 2 else 1),
              what={a: str(b) for a, b in dict(n=n, d=d, labels=lname, frame=frame, cat=cat, ovr=ovr, **common).items()})
    try:
        if clf:
            names = mk(K)
            z = (np.nan_to_num(X[:, 0]) * 2 + rng.normal(size=n))
            lab = np.searchsorted(np.quantile(z, np.linspace(0, 1, K + 1)[1:-1]), z)
            lab[rng.permutation(n)[:K]] = np.arange(K)
            lab = rng.permutation(K)[lab]
            if sparse:
                lab = rng.permutation(np.arange(n) % K)
            y = names[lab]
            # "the class labels (single output problem)", sorted
            srt = sorted(set(y.tolist()))
            tr["classes"] = [tok(v) for v in srt]
            yy = y
            form = pick("array", "array", "list", "series")
            if form == "list":
                yy = y.tolist()
            elif form == "series":
                yy = pd.Series(y, index=np.arange(n)[::-1] + 3)
            f = ForestClassifier(multiclass="ovr" if ovr else "multinomial", dirichlet=float(pick(0.01, 0.5, 2.0)) if not sparse else float(pick(0.02, 1e-3, 1e-5 if common["aggregation"] else 0.0)),
                                 class_weight=pick(None, "balanced"), **common)
        else:
            y = np.round(rng.normal(size=n) * float(pick(1, 1e-3, 1e4)), 5) + float(pick(0, 0, 100))
            if rng.rand() < 0.3:
                y = np.round(y).astype(int)
            yy = pick(y, y.tolist(), pd.Series(y, index=np.arange(n)[::-1]))
            f = ForestRegressor(**common)
        sw = None if rng.rand() < 0.6 else rng.gamma(2, 1, n) + 0.1
        f.fit(frame_of(X), yy, sample_weight=sw)
        if clf:
            ev.append(dict(t="classes", got=[tok(v) for v in f.classes_], n=int(f.n_classes_)))
        m = 40
        P = np.round(rng.normal(size=(m, d)) * 1.5, 1)
        P[rng.rand(m, d) < 0.05] = np.nan
        P[: m // 2] = X[rng.randint(n, size=m // 2)]

        def batch(rows, jobs):
            f.n_jobs = jobs
            A = P[rows]
            B = frame_of(A)
            if not frame and rng.rand() < 0.5:
                B = np.asfortranarray(A)
            if frame and rng.rand() < 0.5:
                B.index = rng.permutation(len(B)) + 100
            try:
                vec = tree_answers(f, B, clf)
            except Exception as exc:
                if not hidden(exc):
                    raise
                vec = None
            if clf:
                ans = np.asarray(f.predict_proba(B), dtype=np.float64)
                lab = f.predict(B)
                slots = np.asarray(f.predict_proba_trees(B), dtype=np.float64)
            else:
                ans = np.asarray(f.predict(B), dtype=np.float64).reshape(len(rows), -1)
                lab = None
                slots = np.asarray(f.predict_trees(B), dtype=np.float64)
                slots = slots.reshape(slots.shape + (1,))
            if vec is None:
                vec = slots
            ev.append(dict(t="shape", got=list(ans.shape) + list(slots.shape[:2]), want=[len(rows), kk, tr["trees"], len(rows)]))
            # every row of a small batch, a sample of a large one
            some = range(len(rows)) if len(rows) <= m else sorted(set(rng.randint(len(rows), size=20)) | {0, len(rows) - 1})
            for i in some:
                ev.append(dict(t="row", row=int(rows[i]), vecs=[f2s(vec[t, i]) for t in range(len(vec))],
                               slots=[f2s(slots[t, i]) for t in range(len(slots))], ans=f2s(ans[i]), label="" if lab is None else tok(lab[i])))

        batch(np.arange(m), common["n_jobs"])
        batch(rng.permutation(m)[: m // 2], 1)
        batch(np.array([rng.randint(m)]), 8)
        batch(rng.randint(m, size=70000 if k % 24 == 5 else int(pick(7, 64, 65, 1000, 2500))), int(pick(2, 3, 8)))
        batch(np.repeat(rng.randint(m), 5), -1)
    except Exception as exc:
        ev.append(failed(exc))
    out.write(tr)


out = Out(OUT)
for k in range(600 if THOROUGH else 120):
    if k % NSHARDS == SHARD:
        run(k, out)
out.close()
