"""Executes histories generated by TLC from MCLifecycle on real forests. usage: lifecycle.py PROPERTY OUT shard nshards HISTORIES"""
import copy, io, pickle, subprocess, tempfile
from wwlib import *
PROP, OUT, SHARD, NSHARDS, HIST = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
import joblib
from sklearn.base import clone
from sklearn.exceptions import NotFittedError
from wildwood import ForestClassifier, ForestRegressor

NAN = float("nan")
VALS = dict(step=[1.0, 0.2, 6.0], dir=[0.5, 0.02, 4.0], maxd=[None, 3], nest=[3, 5], rs=[7, 1234], agg=[True, False],
            crit=["gini", "entropy"], mss=[2, 8], msl=[1, 4], mf=["auto", 1, None], bins=[256, 6], cw=[None, "balanced"],
            mc=["multinomial", "ovr"], strat=["binary", "all", "random"], njobs=[1, 3], unk=["consider_missing", "error"],
            catmin=["log", 8, "sqrt"], sub=[200000, None], cat=[None, [True, False, False], [0, 2]], verb=[False, True])
# other values of the same parameters: close to one another, far apart
VARIANTS = [dict(), dict(step=[1.0, 1.02, 0.97], dir=[0.5, 0.51, 0.48]), dict(step=[0.05, 9.0, 0.06], dir=[1e-3, 20.0, 1.3e-3])]
BAD = dict(step=[0.0, -1.0, "a", None, NAN, [1.0]], dir=[-0.5, "a", None, NAN, -1e-9], maxd=[1, 0, -3, 2.5, "a"],
           nest=[0, -1, 2.5, "a", None], rs=[-1, 2.5, "a"], agg=[None, "a", 2.5, "True"], crit=["mse", "a", None, 1], mss=[1, 0, 2.5, "a", None],
           msl=[0, -2, 1.5, "a", None], mf=[0, -1, 1.5, 0.0, "a", -0.2, NAN, [1]], bins=[2, 0, -1, 2.5, "a", None], cw=["a", 1, 0.5],
           mc=["a", None, 1], strat=["a", None, 1], njobs=[0, -2, 1.5, "a", None], verb=["a", None, 2.5])
BADAT = dict(unk=["foo", "Error"], catmin=[3, -1, "a", "log2"], sub=[100, 0, "a", -1],
             cat=[[99], [-4], [True, False], ["u"], [[True, False, True]], [0.5], [True] * 4])
NAMES = dict(dir="dirichlet", maxd="max_depth", nest="n_estimators", rs="random_state", agg="aggregation", crit="criterion",
             mss="min_samples_split", msl="min_samples_leaf", mf="max_features", bins="max_bins", cw="class_weight", mc="multiclass",
             strat="cat_split_strategy", njobs="n_jobs", unk="handle_unknown", catmin="cat_min_categories", sub="subsample",
             cat="categorical_features", verb="verbose")
name = lambda p: NAMES.get(p, p)
LOCKED = {"nest", "rs", "mc", "strat"}


def data(kind, d):
    rng = np.random.RandomState(40 + d)
    n = 44 if d == 1 else 36
    X = np.round(rng.normal(size=(n, 3)), 1)
    X[:, 0] = rng.randint(0, 6 if d == 1 else 3, n)
    X[:, 2] = rng.randint(0, 5, n)
    if d == 2:
        X[rng.rand(n) < 0.1, 1] = np.nan
    s = (X[:, 0] * 7 % 5) + X[:, 2] + rng.normal(size=n)
    if kind == "reg":
        return X, np.round(s, 2), X
    K = 3 if d == 1 else 2
    y = np.searchsorted(np.quantile(s, np.linspace(0, 1, K + 1)[1:-1]), s)
    return X, (np.array(["a", "b", "c"])[y] if d == 1 else y * 4 - 1), X


DATA = {(k, d): data(k, d) for k in ("clf", "reg") for d in (1, 2)}
PROBE = {}
for k in ("clf", "reg"):
    for d in (1, 2):
        rng = np.random.RandomState(9 + d)
        PROBE[k, d] = DATA[k, d][0][rng.permutation(36)[:8]]


# what else a forest is built and fitted with, the same all along a history ("weights" and "frame" are about fit)
PROFILES = dict(
    clf=[dict(), dict(multiclass="ovr"), dict(aggregation=False), dict(categorical_features=[True, False, True], cat_split_strategy="all"),
         dict(frame=True), dict(multiclass="ovr", class_weight="balanced", n_estimators=2), dict(weights=True, criterion="entropy"),
         dict(n_estimators=1, weights=True, frame=True), dict(multiclass="ovr", weights=True, frame=True, cat_split_strategy="random"),
         dict(max_depth=3, min_samples_leaf=2, n_jobs=2, max_features=None), dict(multiclass="ovr", aggregation=False)],
    reg=[dict(), dict(weights=True), dict(aggregation=False), dict(categorical_features=[True, False, True]), dict(frame=True, weights=True),
         dict(n_estimators=1, max_features=None), dict(max_depth=4, min_samples_split=5, n_jobs=2)])
WEIGHTS = {(k, d): np.round(np.random.RandomState(60 + d).gamma(2, 1, len(DATA[k, d][0])) + 0.1, 2) for k, d in DATA}
PROFILE = [0]


def variant():
    return PROFILE[0] // 11 % len(VARIANTS)


def vals(p):
    return VARIANTS[variant()].get(p, VALS[p])


def profile(kind):
    return PROFILES[kind][PROFILE[0] % len(PROFILES[kind])]


def given(kind, X):
    if not profile(kind).get("frame"):
        return X
    D = pd.DataFrame(X, columns=["a", "b", "c"])
    D["a"] = ["v%d" % int(v) for v in X[:, 0]]
    D["c"] = D["c"].astype(int).astype("category")
    return D


def fitted_on(kind, f, d, **kw):
    X, y, _ = DATA[kind, d]
    X, y = X.copy(), y.copy()
    w = WEIGHTS[kind, d].copy() if profile(kind).get("weights") else None
    D = given(kind, X)
    D0, y0 = D.copy(), y.copy()
    r = f.fit(D, y, sample_weight=w, **kw)
    same = D.equals(D0) if isinstance(D, pd.DataFrame) else np.array_equal(D, D0, equal_nan=True)
    if r is not f or not same or not np.array_equal(y, y0) or (w is not None and not np.array_equal(w, WEIGHTS[kind, d])):
        return "fit changed its arguments"


def build(kind, prm):
    cls = ForestClassifier if kind == "clf" else ForestRegressor
    kw = dict(n_estimators=3, random_state=7)
    kw.update({a: copy.deepcopy(b) for a, b in profile(kind).items() if a not in ("weights", "frame")})
    for p, v in prm.items():
        kw[name(p)] = copy.deepcopy(vals(p)[v])
    return cls(**kw)


CANON = {}


def answers(kind, f, d):
    P = given(kind, PROBE[kind, d])
    leaves = np.asarray(f.apply(P)).ravel()
    p = f.predict_proba(P) if kind == "clf" else f.predict(P)
    if kind == "clf":
        q = f.predict(P)
        c = f.classes_[np.argmax(p, axis=1)]
        if np.mean(q != c) > 0.3 and not np.any(np.isclose(np.sort(p, axis=1)[:, -1], np.sort(p, axis=1)[:, -2], atol=1e-6)):
            raise AssertionError("predict does not follow predict_proba")
        labels = [str(c) for c in f.classes_]
    else:
        labels = []
    return f2s(p), [int(x) for x in leaves], labels


def canonical(kind, at, d):
    key = (kind, variant(), PROFILE[0] % len(PROFILES[kind]), tuple(sorted(at.items())), d)
    if key not in CANON:
        f = build(kind, at)
        f.verbose = False
        f.n_jobs = 1
        fitted_on(kind, f, d)
        CANON[key] = answers(kind, f, d)
    return CANON[key]


def values_of(f, params):
    got = f.get_params()
    res = {}
    for p in params:
        v = got[name(p)]
        idx = [i for i, w in enumerate(vals(p)) if type(w) is type(v) and (w == v if not isinstance(v, list) else list(w) == list(v))]
        res[p] = idx[0] if idx else -1
    return res


METHODS = {"clf": ["predict", "predict_proba", "predict_proba_trees", "apply"], "reg": ["predict", "predict_trees", "apply"]}
counter = [0]


class Quiet:
    def __enter__(self):
        self.fd = [os.dup(1), os.dup(2)]
        sys.stdout.flush()
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
        os.close(nul)

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.fd[0], 1)
        for x in self.fd:
            os.close(x)


def do(kind, objs, mirror, op):
    """Executes op on the real objects, and on the mirror that says which canonical forest to fit. Returns the result."""
    counter[0] += 1
    c = counter[0]
    o, t = op["o"], op["t"]
    f, m = objs[o], mirror[o]
    try:
        if t == "set":
            v = copy.deepcopy(vals(op["p"])[op["v"]])
            if c % 2:
                setattr(f, name(op["p"]), v)
            else:
                f.set_params(**{name(op["p"]): v})
            m["prm"] = dict(m["prm"], **{op["p"]: op["v"]})
        elif t == "bad":
            b = BAD[op["p"]]
            v = b[c % len(b)]
            if c % 3:
                setattr(f, name(op["p"]), v)
            else:
                f.set_params(**{name(op["p"]): v})
        elif t == "badat":
            b = BADAT[op["p"]]
            keep = getattr(f, name(op["p"]))
            X, y, _ = DATA[kind, 1]
            try:
                setattr(f, name(op["p"]), copy.deepcopy(b[c % len(b)]))
                f.fit(X.copy(), y.copy())
            finally:
                setattr(f, name(op["p"]), keep)
        elif t == "use":
            X = given(kind, PROBE[kind, m["data"] or 1])
            errs = 0
            for meth in METHODS[kind]:
                try:
                    getattr(f, meth)(X)
                except NotFittedError:
                    errs += 1
            return "ok" if errs == 0 else "unfitted" if errs == len(METHODS[kind]) else "mixed"
        elif t in ("fit", "fitcat"):
            if t == "fit":
                r = fitted_on(kind, f, op["d"])
            else:
                r = fitted_on(kind, f, op["d"], categorical_features=copy.deepcopy(VALS["cat"][op["v"]]))
                m["prm"] = dict(m["prm"], cat=op["v"])
            if r:
                return r
            m.update(fitted=True, at=dict(m["prm"]), data=op["d"])
        elif t == "badfit":
            X, y, _ = DATA[kind, 1 + c % 2]
            X, y = X.copy(), y.copy()
            w = c % 6
            if w == 0:
                f.fit(X, y[:-1])
            elif w == 1:
                f.fit(X, y, categorical_features=[99])
            elif w == 2:
                f.fit(X[:, 0], y)
            elif w == 3:
                f.fit(X.astype(complex), y)
            elif w == 4:
                f.fit(X, y, sample_weight=np.ones(3))
            else:
                f.fit(X, y, categorical_features=["u", "v"])
        elif t == "light":
            f.lighten()
        elif t == "pickle":
            if c % 5 == 4:
                b = io.BytesIO()
                joblib.dump(f, b)
                b.seek(0)
                g = joblib.load(b)
            else:
                g = pickle.loads(pickle.dumps(f, protocol=2 + c % 4))
            objs[op["q"]], mirror[op["q"]] = g, copy.deepcopy(m)
        elif t == "copy":
            objs[op["q"]], mirror[op["q"]] = copy.deepcopy(f), copy.deepcopy(m)
        elif t == "clone":
            objs[op["q"]], mirror[op["q"]] = clone(f), dict(prm=dict(m["prm"]), fitted=False, at={}, data=0)
        return "ok"
    except NotFittedError:
        return "unfitted"
    except (ValueError, AttributeError, TypeError) as exc:
        if t in ("set", "bad", "badfit", "badat"):
            return "rejected"
        return brief(exc)
    except Exception as exc:
        return brief(exc)


def observe(kind, objs, mirror, o, params, ev):
    f, m = objs[o], mirror[o]
    fitted = False
    try:
        f.predict(given(kind, PROBE[kind, m["data"] or 1]))
        fitted = True
    except NotFittedError:
        pass
    e = dict(t="obs", o=o, prm=values_of(f, params), fitted=fitted)
    if fitted and m["fitted"]:
        at = {p: (m["prm"][p] if p in ("step", "dir") else v) for p, v in m["at"].items()}
        e["key"] = dict(at=at, data=m["data"])
        e["pred"], e["leaves"], lab = answers(kind, f, m["data"])
        e["canon"], e["canonleaves"], clab = canonical(kind, at, m["data"])
        if lab != clab:
            e["leaves"] = []
    else:
        e.update(key=0, pred=[], canon=[], leaves=[], canonleaves=[])
    ev.append(e)


def run(gid, k, g, ops, out):
    kind, params = g["kind"], g["params"]
    ev = []
    PROFILE[0] = k // 2
    tr = dict(id="%s-%d" % (gid, k), params=params, start=g["start"], ev=ev, what=dict(kind=kind, profile=str(profile(kind))))
    zero = {p: 0 for p in params}
    try:
        objs, mirror = {}, {}
        objs[1] = build(kind, zero)
        mirror[1] = dict(prm=zero, fitted=False, at={}, data=0)
        if g["start"]:
            fitted_on(kind, objs[1], 1)
            mirror[1].update(fitted=True, at=dict(zero), data=1)
        for n, op in enumerate(ops):
            ev.append(dict(t="op", op=op, res=do(kind, objs, mirror, op)))
            # after every operation, or only at the end, so that looking cannot hide what is wrong
            if k % 2 == 0 or n == len(ops) - 1:
                for o in sorted(objs):
                    if n == len(ops) - 1 or o == op["o"] or o == op.get("q"):
                        observe(kind, objs, mirror, o, params, ev)
    except Exception as exc:
        ev.append(failed(exc))
    out.write(tr)


CHILD = """
import pickle, sys, numpy as np
f, P, kind = pickle.load(open(sys.argv[1], "rb"))
res = []
for g, X, k in zip(f, P, kind):
    res.append((np.asarray(g.predict_proba(X) if k == "clf" else g.predict(X)), np.asarray(g.apply(X)).ravel()))
pickle.dump(res, open(sys.argv[2], "wb"))
"""


def remote_start():
    """Forests pickled for another process."""
    fs, Ps, kinds, want = [], [], [], []
    for kind in ("clf", "reg"):
        for d in (1, 2):
            PROFILE[0] = 0
            at = dict(step=d, agg=0)
            if kind == "clf":
                at.update(dir=d, mc=d - 1)
            f = build(kind, dict(at, step=0))
            X, y, _ = DATA[kind, d]
            f.fit(X, y)
            f.step = vals("step")[at["step"]]
            if d == 2:
                f.lighten()
            fs.append(f)
            Ps.append(PROBE[kind, d])
            kinds.append(kind)
            want.append(canonical(kind, at, d))
    src = tempfile.mkdtemp(dir=os.path.dirname(OUT))
    with open(src + "/in.pkl", "wb") as h:
        pickle.dump((fs, Ps, kinds), h)
    with open(src + "/child.py", "w") as h:
        h.write(CHILD)
    log = open(src + "/log", "w")
    p = subprocess.Popen([sys.executable, src + "/child.py", src + "/in.pkl", src + "/out.pkl"], stdout=log, stderr=log, cwd=src)
    return src, p, want


def remote_end(job, out):
    src, p, want = job
    ev = []
    try:
        p.wait(300)
        with open(src + "/out.pkl", "rb") as h:
            res = pickle.load(h)
        for (a, l), (wa, wl, _) in zip(res, want):
            ev.append(dict(t="remote", ok=True, pred=f2s(a), leaves=[int(x) for x in l], canon=wa, canonleaves=wl))
    except Exception as exc:
        text = open(src + "/log").read()[-1500:]
        ev.append(dict(t="remote", ok=False, pred=[], leaves=[], canon=[], canonleaves=[], what=brief(exc), log=text))
    out.write(dict(id="other-process", params=[], start=[], ev=ev, what={}))


out = Out(OUT)
groups = json.load(open(HIST))
job = None
if PROP == "C13" and SHARD == 0:
    try:
        job = remote_start()
    except Exception as exc:
        out.write(dict(id="other-process", params=[], start=[], ev=[failed(exc)], what={}))
with Quiet():
    for gid, g in groups.items():
        for k, ops in enumerate(g["hist"]):
            if k // 2 % NSHARDS == SHARD:
                run(gid, k, g, ops, out)
if job:
    remote_end(job, out)
out.close()
