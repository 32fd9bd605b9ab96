"""Bootstraps of fitted forests. usage: bootstrap.py PROPERTY OUT shard nshards"""
from wwlib import *
PROP, OUT, SHARD, NSHARDS = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
from wildwood import ForestClassifier, ForestRegressor


def run(k, out):
    rng = rng_for("boot", k)
    big = k % 8 == 0
    n = 30 if big else int(rng.choice([2, 3, 4, 6, 10, 25, 40, 150]))
    huge = k == 7
    if huge:
        n, big = 70000, False
    n_est = 2 if huge else 120 if big else int(rng.randint(1, 8))
    clf = rng.rand() < 0.65
    K = int(rng.choice([2, 3, 4])) if n >= 8 and not huge else 2
    ovr = clf and (rng.rand() < 0.6) and not big
    X = rng.normal(size=(n, 2))
    sw = None
    if rng.rand() < 0.4:
        sw = np.round(rng.gamma(2, 1, n) + 0.1, 2)
    common = dict(n_estimators=n_est, max_depth=2, random_state=int(rng.randint(1 << 31 - 1)) if k % 5 else None, n_jobs=int(rng.choice([1, 2, 4, -1])),
                  aggregation=bool(rng.rand() < 0.5), max_features=None)
    ev = []
    base = np.ones(n, np.float32) if sw is None else sw.astype(np.float32)
    d = dict(id="boot%d" % k, n=n, base=f2s(base), ev=ev, trees=n_est,
             what={a: str(b) for a, b in dict(n=n, n_est=n_est, clf=clf, K=K, ovr=ovr, **common).items()})
    try:
        if clf:
            y = np.arange(n) % K
            f = ForestClassifier(multiclass="ovr" if ovr else "multinomial", **common)
            d["trees"] = n_est * (K if ovr and K > 2 else 1)
        else:
            y = rng.normal(size=n)
            f = ForestRegressor(**common)
        kept = None if sw is None else sw.copy()
        if k % 3 == 1:
            f.fit(X[: max(2, n - 1)], y[: max(2, n - 1)] if not clf else np.arange(max(2, n - 1)) % K)   # an earlier fit
        f.fit(X, y, sample_weight=sw)
        if sw is not None and not np.array_equal(sw, kept):
            raise AssertionError("fit changed the caller's weights")
        for t, tree in enumerate(f.trees):
            _, ctx = inner(tree)
            tr = [int(r) + 1 for r in tree._train_indices]
            va = [int(r) + 1 for r in tree._valid_indices]
            w = np.asarray(ctx.sample_weights)
            m = np.zeros(n, int)
            ix = np.array(tr) - 1
            m[ix] = np.rint(w[ix] / base[ix]).astype(int)
            ev.append(dict(t="tree", c=t // n_est, j=t % n_est, train=tr, valid=va, mult=[int(x) for x in m], w=f2s(w)))
        ev.append(dict(t="end"))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(d)


out = Out(OUT)
for k in range(480 if THOROUGH else 80):
    if k // 2 % NSHARDS == SHARD:
        run(k, out)
out.close()
