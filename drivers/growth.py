"""Fits real forests on generated data and records their trees. usage: growth.py PROPERTY OUT [shard nshards]"""
import sys
from wwlib import *
from wildwood import ForestClassifier, ForestRegressor

PROP, OUT = sys.argv[1], sys.argv[2]
SHARD, NSHARDS = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, 1)


def make_X(rng, n, kinds):
    """A matrix of floats: 'n' few bins, 'N' more bins, 'm' with missing values, 'c' categorical, 'C' many categories."""
    cols = []
    for k in kinds:
        if k == "n":
            c = rng.randint(0, 5, n).astype(float)
        elif k == "N":
            c = np.round(rng.normal(size=n) * 4)
        elif k == "W":   # nearly all values distinct
            c = rng.permutation(n).astype(float)
            c[rng.rand(n) < 0.1] = 0.0
        elif k == "m":
            c = np.round(rng.normal(size=n) * 3)
            c[rng.rand(n) < 0.15] = np.nan
        elif k == "c":
            c = rng.randint(0, 4, n).astype(float)
        elif k == "C":
            c = rng.randint(0, 12, n).astype(float)
        elif k == "d":   # categorical with missing values
            c = rng.randint(0, 5, n).astype(float)
            c[rng.rand(n) < 0.1] = np.nan
        cols.append(c)
    return np.stack(cols, axis=1)


def probes_for(rng, X, kinds, m):
    P = X[rng.permutation(len(X))[: m // 2]].copy()
    Q = make_X(rng, m - len(P), kinds)
    Q[rng.rand(*Q.shape) < 0.1] = 99.0      # above every value, or an unknown category
    Q[rng.rand(*Q.shape) < 0.1] = np.nan
    Q[rng.rand(*Q.shape) < 0.1] = -99.0
    return np.vstack([P, Q])


def iscat(kinds):
    return np.array([k in "cCd" for k in kinds])


def labels(rng, X, K, kind):
    Z = np.nan_to_num(X, nan=1.0)
    n = len(Z)
    if kind == "periodic":
        y = np.zeros(n, dtype=int)
        y[np.argsort(Z[:, 0], kind="stable")[:: n // 10]] = 1
        return y
    if kind == "bycat":      # classes drawn according to the last column
        P = {v: rng.dirichlet([0.7] * K) for v in np.unique(Z[:, -1])}
        y = np.array([rng.choice(K, p=P[v]) for v in Z[:, -1]])
        for k in range(K):
            y[k] = k
        return y
    if kind == "coin":
        return rng.randint(0, K, n)
    if kind == "rare":       # a few rows of the other classes: deep, unbalanced trees
        y = np.zeros(n, dtype=int)
        r = rng.permutation(n)
        m = max(1, int(n * rng.choice([0.02, 0.05, 0.1])))
        for k in range(1, K):
            y[r[(k - 1) * m: k * m]] = k
        return y
    if kind == "blocks":     # blocks of growing sizes along the first column: chains
        y, at, size, k = np.zeros(n, dtype=int), 0, 1.0, 0
        order = np.argsort(Z[:, 0], kind="stable")
        while at < n:
            y[order[at: at + int(size)]] = k % K
            at, size, k = at + int(size), size * 1.35, k + 1
        return y
    s = Z[:, 0] - (Z[:, -1] % 3) + rng.normal(size=len(Z)) * (0.5 if kind == "signal" else 3)
    q = np.quantile(s, np.linspace(0, 1, K + 1)[1:-1])
    y = np.searchsorted(q, s)
    for k in range(K):
        if not (y == k).any():
            y[rng.randint(len(y))] = k
    return y


KINDS = ["n", "N", "nN", "nc", "c", "C", "mC", "ncNd", "mmcc", "NNN", "nnnn", "cdN", "CN"]


def scenario(i, bias):
    rng = rng_for("growth", i)
    pick = lambda *a: a[rng.randint(len(a))]
    kinds = pick(*KINDS)
    s = dict(i=i, rng=rng, kinds=kinds, n=int(pick(8, 15, 25, 40, 60)), clf=rng.rand() < 0.65,
             K=int(pick(2, 2, 3, 4)), crit=pick("gini", "entropy"), agg=bool(rng.rand() < 0.6),
             mss=int(pick(2, 2, 3, 5, 10)), msl=int(pick(1, 1, 2, 4)), maxd=pick(None, None, 2, 3, 6),
             strat=pick("binary", "all", "random"), mf=pick(None, None, None, 1, 2, 2, "auto", "sqrt", "log2", 0.5, 0.75), dir=float(pick(0.1, 0.5, 1.0, 3.0)),
             step=float(pick(0.1, 1.0, 1.0, 4.0)), ovr=rng.rand() < 0.25, cw=pick(None, None, None, "balanced"),
             sw=pick("none", "none", "int", "frac"), noise=pick("signal", "noise"), scale=float(pick(1.0, 1.0, 1.0, 100.0, 0.01)),
             off=float(pick(0.0, 0.0, 0.0, 50.0)), n_jobs=int(pick(1, 1, 2)))
    s["max_bins"] = int(pick(256, 256, 256, 40, 10, 4))
    if i[1] % 5 == 4:      # deep trees
        s.update(n=int(pick(150, 250, 400)), kinds=pick("W", "W", "Wc", "NW", "Wn"), mss=2, msl=int(pick(1, 1, 1, 2)),
                 maxd=pick(None, None, None, 12, 9), noise=pick("rare", "blocks", "coin"), n_est=1, strat="binary", K=int(pick(2, 2, 3)),
                 agg=bool(rng.rand() < 0.25), off=0.0, scale=1.0, m=8, max_bins=512, clf=rng.rand() < 0.8)
    if i[1] % 6 == 2:       # several classes spread over categories
        s.update(n=int(pick(40, 80, 150)), kinds=pick("c", "C", "nC", "dC", "Nc"), noise="bycat", clf=True, K=int(pick(3, 3, 4, 5)),
                 strat=pick("all", "all", "all", "random", "binary"), ovr=False, mf=None)
    if i[1] % 20 == 19:     # large nodes with hardly any rows of the other class
        s.update(n=int(pick(800, 1200)), kinds="W", noise="periodic", agg=False, clf=True, K=2, maxd=None, msl=1, max_bins=2000,
                 strat="binary", mss=2, n_est=1, off=0.0, scale=1.0, m=8)
    s.update(bias)
    return s


def run(s, out):
    name = "%s-%d" % s["i"]
    rng, kinds, n = s["rng"], s["kinds"], s["n"]
    X = make_X(rng, n, kinds)
    P = probes_for(rng, X, kinds, s.get("m", 16))
    mf = s["mf"]
    if isinstance(mf, int):
        mf = min(mf, len(kinds))
    common = dict(n_estimators=s.get("n_est", 2), aggregation=s["agg"], step=s["step"], max_depth=s["maxd"],
                  min_samples_split=s["mss"], min_samples_leaf=s["msl"], max_features=mf, n_jobs=s["n_jobs"],
                  categorical_features=iscat(kinds), random_state=int(rng.randint(1 << 30)), max_bins=s.get("max_bins", 256),
                  handle_unknown="consider_missing")
    sw = None
    if s["sw"] == "int":
        sw = rng.randint(1, 4, n).astype(np.float64)
    elif s["sw"] == "frac":
        sw = np.round(rng.gamma(2.0, 1.0, n) + 0.05, 3)
    if s["clf"]:
        y = labels(rng, X, s["K"], s["noise"])
        mk = lambda cw: ForestClassifier(criterion=s["crit"], dirichlet=s["dir"], class_weight=cw,
                                         multiclass="ovr" if s["ovr"] else "multinomial",
                                         cat_split_strategy=s["strat"], **common)
        cw = s["cw"]
        exact = cw is None and s["sw"] != "frac"
    else:
        y = np.round(labels(rng, X, 6, s["noise"]) - 2.0 + (rng.rand(n) < 0.2)) * s["scale"] + s["off"]
        mk = lambda cw: ForestRegressor(**common)
        cw = None
        exact = s["sw"] != "frac" and s["scale"] == 1.0
    if s["clf"] and s["K"] == 2 and len(np.unique(y)) < 2:
        return
    f = mk(cw).fit(X, y, sample_weight=None if sw is None else sw.copy())
    twin = None
    if sw is not None or cw is not None:
        twin = mk(None).fit(X, y)
    for t in growth_traces(name, f, X, y, P, sw=sw, twin=twin, exact=exact, full=s.get("full", True), rows=s.get("rows", True)):
        t["what"] = {k: str(v) for k, v in s.items() if k != "rng"}
        out.write(t)


BIAS = {
    "C06": {},
    "C07": {},
    "C08": {},
    "C09": {},
    "C10": dict(agg=True),
    "C16": {},
}


def special(out):
    """Large, deep and wide trees."""
    rng = rng_for("special", PROP)
    jobs = []
    if PROP == "C06":
        # more nodes than the initial capacity (2047), deep stacks
        jobs.append(dict(i="big-reg", kinds="NNN", n=3000, clf=False, agg=False, n_est=1, big=True))
        jobs.append(dict(i="big-clf", kinds="NNN", n=4500, clf=True, K=3, agg=False, n_est=1, big=True))
        jobs.append(dict(i="huge", kinds="NC", n=70000, clf=True, K=2, agg=False, n_est=1, big=True, maxd=2))
        jobs.append(dict(i="wide", kinds="Cw", n=2500, clf=True, K=2, agg=True, n_est=1, big=True))
        jobs.append(dict(i="widest", kinds="W", n=3000, clf=True, K=2, agg=False, n_est=1, big=True, maxd=3))
        jobs.append(dict(i="widest-reg", kinds="WC", n=3000, clf=False, agg=False, n_est=1, big=True, maxd=2))
        jobs.append(dict(i="wide3", kinds="ww", n=2500, clf=True, K=3, agg=False, n_est=1, big=True))
        jobs.append(dict(i="wide-reg", kinds="wC", n=2500, clf=False, agg=False, n_est=1, big=True))
    if PROP == "C07":
        # large impure nodes deep in the tree
        jobs.append(dict(i="big-periodic", kinds="P", n=4000, clf=True, K=2, agg=False, label="periodic"))
        jobs.append(dict(i="big-rare", kinds="NN", n=3000, clf=True, K=3, agg=False, label="rare"))
        jobs.append(dict(i="big-blocks", kinds="PC", n=3000, clf=True, K=2, agg=True, label="blocks"))
        jobs.append(dict(i="big-step", kinds="P", n=3000, clf=False, agg=False, label="periodic"))
        jobs.append(dict(i="big-leaf", kinds="NC", n=2500, clf=True, K=2, agg=False, label="coin", msl=3, mss=12))
        jobs.append(dict(i="big-depth", kinds="NN", n=2500, clf=True, K=2, agg=True, label="coin", maxd=14))
    if PROP in ("C08", "C09", "C10", "C16"):
        agg = PROP in ("C10", "C16")
        jobs.append(dict(i="big-rare", kinds="NC", n=2000, clf=True, K=3, agg=agg, label="rare", sw=PROP == "C16"))
        jobs.append(dict(i="big-coin", kinds="NN", n=2600 if agg else 1500, clf=True, K=2, agg=agg, label="coin", maxd=14, cw="balanced" if PROP == "C16" else None))
        jobs.append(dict(i="big-reg", kinds="NC", n=2000, clf=False, agg=agg, maxd=12, sw=PROP == "C16"))
        jobs.append(dict(i="big-nodes", kinds="NNN", n=4500, clf=True, K=3, agg=PROP in ("C10", "C16"), dirichlet=0.1))
    return jobs


def run_big(j, out):
    rng = rng_for("big", j["i"])
    n, kinds = j["n"], j["kinds"]
    cols = []
    for k in kinds:
        if k == "N":
            cols.append(np.round(rng.normal(size=n) * 1000))
        elif k == "P":
            cols.append(rng.permutation(n).astype(float))
        elif k == "w":
            cols.append(rng.randint(0, 300, n).astype(float))
        elif k == "W":
            cols.append((rng.permutation(n) % 1500).astype(float))
        else:
            cols.append(rng.randint(0, 12, n).astype(float))
    X = np.stack(cols, axis=1)
    P = X[:40].copy()
    P[20:, 0] = 5000.0
    P[30:, -1] = np.nan
    cat = np.array([k in "cCwW" for k in kinds])
    common = dict(n_estimators=1, aggregation=j["agg"], categorical_features=cat, max_features=None,
                  max_bins=n if "P" in kinds else 256, max_depth=j.get("maxd"), min_samples_leaf=j.get("msl", 1), min_samples_split=j.get("mss", 2),
                  random_state=int(rng.randint(1 << 30)))
    if "label" in j:
        y = labels(rng, X, j.get("K", 2), j["label"])
    sw = np.round(rng.gamma(2.0, 1.0, n) + 0.05, 3) if j.get("sw") else None
    if j["clf"]:
        y = y if "label" in j else rng.randint(0, j["K"], n)
        mk = lambda cw: ForestClassifier(cat_split_strategy="all" if j["K"] > 2 else "binary", dirichlet=j.get("dirichlet", 0.5), class_weight=cw, **common)
    else:
        y = y.astype(float) if "label" in j else rng.randint(0, 1000, n).astype(float)
        mk = lambda cw: ForestRegressor(**common)
    f = mk(j.get("cw")).fit(X, y, sample_weight=sw)
    twin = mk(None).fit(X, y) if sw is not None or j.get("cw") else None
    for t in growth_traces(j["i"], f, X, y, P, sw=sw, twin=twin, exact=twin is None, full=False, rows=True):
        t["what"] = {k: str(v) for k, v in j.items()}
        out.write(t)


def main():
    out = Out(OUT)
    counts = {"C06": 40, "C07": 70, "C08": 60, "C09": 60, "C10": 60, "C16": 50}
    N = counts[PROP] * (6 if THOROUGH else 1)
    jobs = special(out)
    for k, j in enumerate(jobs):
        if k % NSHARDS == SHARD:
            try:
                run_big(j, out)
            except Exception as exc:
                out.write(error_trace(str(j["i"]), exc))
    for i in range(N):
        if i % NSHARDS != SHARD:
            continue
        bias = dict(BIAS[PROP])
        if PROP == "C16":
            bias = dict([(("sw", "int"), ("cw", None)), (("sw", "frac"), ("cw", None)), (("sw", "none"), ("cw", "balanced")),
                         (("sw", "frac"), ("cw", "balanced"))][i % 4])
            if bias["cw"]:
                bias["clf"] = True
        s = scenario((PROP, i), bias)
        try:
            run(s, out)
        except Exception as exc:
            e = error_trace("%s-%d" % s["i"], exc)
            e["scenario"] = {k: str(v) for k, v in s.items() if k != "rng"}
            out.write(e)
    out.close()


main()
