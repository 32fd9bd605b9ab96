"""Fits the same forests in many circumstances. usage: determinism.py PROPERTY OUT shard nshards
Shards s and s + nshards/2 fit the same forests, so that the digests of two processes are compared as well."""
import copy, hashlib, pickle, random, threading
from wwlib import *
PROP, OUT, SHARD, NSHARDS = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
HALF = max(1, NSHARDS // 2)
import numba
from sklearn.base import clone
from wildwood import ForestClassifier, ForestRegressor


@numba.jit(nopython=True)
def numba_noise(seed, k):
    np.random.seed(seed)
    s = 0.0
    for i in range(k):
        s += np.random.rand() + np.random.randint(10)
    return s


def bags(f):
    """Digest of the bootstrap of each tree."""
    res = []
    try:
        for tree in f.trees:
            h = hashlib.sha256(np.asarray(tree._train_indices, dtype=np.int64).tobytes())
            h.update(np.asarray(tree._valid_indices, dtype=np.int64).tobytes())
            res.append(h.hexdigest()[:16])
    except Exception as exc:
        if not hidden(exc):
            raise
        return []
    return res


def digest(f, X):
    """What the forest shows: single trees, leaves, splits. n_jobs=1, so that no sum depends on the order of threads."""
    jobs = f.n_jobs
    f.n_jobs = 1
    h = hashlib.sha256()
    if isinstance(f, ForestClassifier):
        h.update(repr([str(c) for c in f.classes_]).encode())
        h.update(np.ascontiguousarray(f.predict_proba_trees(X)).tobytes())
        h.update(np.ascontiguousarray(f.predict_proba(X)).tobytes())
    else:
        h.update(np.ascontiguousarray(f.predict_trees(X)).tobytes())
        h.update(np.ascontiguousarray(f.predict(X)).tobytes())
    h.update(np.ascontiguousarray(f.apply(X)).tobytes())
    try:
        for tree in f.trees:
            core, _ = inner(tree)
            nodes = core.nodes[: int(core.node_count)]
            for field in ("depth", "is_leaf", "left_child", "right_child", "n_samples_train", "n_samples_valid", "w_samples_train"):
                h.update(np.ascontiguousarray(nodes[field]).tobytes())
            inside = nodes[~nodes["is_leaf"].astype(bool)]
            h.update(np.ascontiguousarray(inside["feature"]).tobytes())
    except Exception as exc:
        if not hidden(exc):
            raise
    f.n_jobs = jobs
    return h.hexdigest()[:24]


def dataset(rng, n, d):
    X = np.round(rng.normal(size=(n, d)), 1)
    for j in range(0, d, 2):
        X[:, j] = rng.randint(0, 7, n)
    s = X[:, 0] + X[:, -1] + rng.normal(size=n)
    return X, s


SEEDS = [0, 1, 7, 2 ** 16 + 7, 2 ** 31 + 7, 12345, 2 ** 32 - 1]


def run(k, out):
    rng = np.random.RandomState(1000 * SEED + k)       # the same in every process
    pick = lambda *a: a[rng.randint(len(a))]
    big = k % 12 == 5
    n = 50400 if big else int(pick(30, 60, 120))
    d = 4
    X, s = dataset(rng, n, d)
    if big:
        X[:, 1] = rng.normal(size=n)        # more distinct values than bins: the subsample decides the cuts
        X[:, 3] = rng.normal(size=n)
    kind = ["multinomial", "ovr", "reg"][k % 3]
    mf = [1, 2, None, "auto", 0.6][k % 5]
    kw = dict(n_estimators=2 if big else int(pick(2, 4, 7)), max_features=mf, aggregation=bool(pick(True, False)),
              max_depth=4 if big else pick(None, None, 3), min_samples_leaf=int(pick(1, 2)))
    cats = pick([True, False, True, False], [0], None)
    if big:
        kw.update(subsample=50000, max_bins=40, categorical_features=[0])
    else:
        kw.update(categorical_features=cats)
    if kind != "reg":
        K = int(pick(2, 3, 4))
        y = np.searchsorted(np.quantile(s, np.linspace(0, 1, K + 1)[1:-1]), s)
        kw.update(multiclass=kind, cat_split_strategy=["binary", "all", "random"][k // 3 % 3], criterion=pick("gini", "entropy"),
                  class_weight=pick(None, None, "balanced"))
        cls = ForestClassifier
    else:
        y = np.round(s, 2)
        cls = ForestRegressor
    sw = None if rng.rand() < 0.6 else rng.gamma(2, 1, n) + 0.1
    rd = bool(k % 7 == 3)
    base = "%d %s %s %s" % (k, cls.__name__, sorted(kw.items(), key=str), rd)
    P = X[rng.permutation(n)[:200]]
    ev = []

    def show(f, seed, ctx):
        ev.append(dict(t="fit", base=base, seed=str(seed), digest=digest(f, P), boots=bags(f), many=n >= 25, ctx=ctx))

    def fresh(seed, jobs=1):
        return cls(random_state=seed, n_jobs=jobs, **copy.deepcopy(kw))

    def fit(f, rows=None):
        if rows is not None:
            return f.fit(X[rows], y[rows], sample_weight=None if sw is None else sw[rows])
        return f.fit(X, y, sample_weight=sw, randomized_depth=True) if rd else f.fit(X, y, sample_weight=sw)

    def others(seed):
        for kw2 in (dict(max_depth=3), dict(max_depth=None), dict(max_features=1, aggregation=False)):
            A, t = dataset(np.random.RandomState(seed), 40, 3)
            ForestRegressor(n_estimators=2, random_state=seed, **kw2).fit(A, t)
            ForestClassifier(n_estimators=2, random_state=seed, cat_split_strategy="random", **kw2).fit(A, np.arange(40) % 3)

    tr = dict(id="det%d" % k, ev=ev, what=dict(base=base))
    try:
        seeds = SEEDS[:2] if big else SEEDS
        for seed in seeds:
            np.random.seed(5)
            show(fit(fresh(seed)), seed, "alone")
        seed = seeds[k % len(seeds)]
        np.random.seed(99)
        random.seed(99)
        numba_noise(3, 50)
        np.random.rand(17)
        show(fit(fresh(seed)), seed, "global generators moved")
        show(fit(fresh(seed, 4)), seed, "n_jobs=4")
        if not big:
            show(fit(fresh(seed, 3)), seed, "n_jobs=3")
            show(fit(fresh(seed, -1)), seed, "n_jobs=-1")
        f = fit(fresh(seed))
        show(fit(f), seed, "refit")
        if not big:
            rows = np.arange(n - 3)[::-1]
            f = fresh(seed, 2)
            try:
                fit(f, rows)
            except ValueError:
                pass
            show(fit(f), seed, "refit after other data")
            others(k)
            show(fit(fresh(seed)), seed, "after other forests")
            f.predict(P)
            f.predict(P[:3])
            show(f, seed, "after predictions")
            show(fit(clone(f)), seed, "clone")
            show(fit(pickle.loads(pickle.dumps(f))), seed, "refit of a pickle")
        # concurrent fits, some of the same forest and some of others, disturbing the global generators
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        res, errs = {}, []

        def work(i):
            try:
                if i == 3:
                    for j in range(3):
                        np.random.seed(j)
                        others(j)
                elif i == 2:
                    res[i] = fit(fresh(seeds[0] if seed != seeds[0] else seeds[1], 2))
                else:
                    res[i] = fit(fresh(seed, 1 + 3 * i))
            except Exception as exc:
                errs.append(exc)

        th = [threading.Thread(target=work, args=(i,)) for i in range(3 if big else 4)]
        for t in th:
            t.start()
        for t in th:
            t.join()
        sys.setswitchinterval(old)
        if errs:
            raise errs[0]
        for i, f in sorted(res.items()):
            show(f, f.random_state, "concurrent %d" % i)
    except Exception as exc:
        ev.append(failed(exc))
    out.write(tr)


out = Out(OUT)
for k in range(240 if THOROUGH else 60):
    if k % HALF == SHARD % HALF:
        run(k, out)
out.close()
