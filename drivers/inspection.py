"""What fitted forests show of their trees. usage: inspection.py PROPERTY OUT shard nshards"""
import pickle, re
from wwlib import *
PROP, OUT, SHARD, NSHARDS = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
from wildwood import ForestClassifier, ForestRegressor


def small(v):
    """Numbers that stand for "none" (the largest integers) as -1."""
    v = int(v)
    return v if -1 <= v < 2 ** 31 else -1


def nums(s):
    """The numbers in a printed array."""
    return [float(x) for x in str(s).replace("[", " ").replace("]", " ").split()]


def cut(iscat, thr, part):
    return dict(iscat=bool(iscat), thr=0 if iscat else small(float(thr)), part=[int(x) for x in nums(part)] if iscat else [])


def table(f, t, step):
    tree = f.trees[t]
    df = f.get_nodes(t)
    rows = []
    for r in df.to_dict("records"):
        leaf = bool(r["is_leaf"])
        d = dict(id=int(r["node_id"]), p=small(r["parent"]) if r["depth"] > 0 else -1, l=small(r["left_child"]) if not leaf else -1,
                 r=small(r["right_child"]) if not leaf else -1, leaf=leaf, left=bool(r["is_left"]), d=int(r["depth"]),
                 f=0 if leaf else small(r["feature"]) + 1, tr=int(r["n_samples_train"]), va=int(r["n_samples_valid"]),
                 st=int(r["start_train"]), et=int(r["end_train"]), sv=int(r["start_valid"]), ev=int(r["end_valid"]),
                 loss=f2(r["loss_valid"]), lw=f2(r["log_weight_tree"]),
                 pred=[f2(x) for x in (nums(r["y_pred"]) if isinstance(r["y_pred"], str) else np.atleast_1d(r["y_pred"]))])
        d.update(dict(iscat=False, thr=0, part=[]) if leaf else cut(r["is_split_categorical"], r["bin_threshold"], r["bin_partition"]))
        rows.append(d)
    if {"w_samples_train", "w_samples_valid"} <= set(df.columns):
        for d, wt, wv in zip(rows, df["w_samples_train"], df["w_samples_valid"]):
            d.update(wt=f2(wt), wv=f2(wv))
    return dict(t="table", hasw="wt" in rows[0], tree=t + 1, rows=rows, depth=int(tree.get_depth()), adepth=int(tree.get_actual_depth()),
                nleaves=int(tree.get_n_leaves()), step=f2(np.float32(step)), ntrain=rows[0]["tr"], nvalid=rows[0]["va"])


def path(df):
    res = []
    for r in df.to_dict("records"):
        m = re.match(r"(left|right)\D*(\d+)", r["decision"])
        if m is None:
            return None
        e = dict(d=int(r["depth"]), f=int(r["feature"]) + 1, side=m.group(1), bin=int(m.group(2)))
        e.update(cut(r["is_split_categorical"], r["bin_threshold"], r["bin_partition"]))
        res.append(e)
    return res


def look(f, P, ev, step, seen):
    clf = hasattr(f, "dirichlet")
    B = bins_of(f, P)
    leaves = f.apply(P)
    preds = f.predict_proba_trees(P) if clf else f.predict_trees(P)[:, :, None]
    for t in range(len(f.trees)):
        e = table(f, t, step)
        if t < len(seen):
            e["ntrain"], e["nvalid"] = seen[t]
        ev.append(e)
        paths = f.path_leaf(P, t)
        if len(paths) != len(P):
            raise ValueError("path_leaf gave %d paths for %d rows" % (len(paths), len(P)))
        for i in range(len(P)):
            p = path(paths[i])
            ev.append(dict(t="row", tree=t + 1, x=[int(b) for b in B[i]], leaf=int(leaves[t][i]), haspath=p is not None,
                           path=p or [], pred=f2s(preds[t][i])))


def run(k, out):
    rng = rng_for("inspect", k)
    n = int(rng.randint(12, 70))
    kinds = ["N", "NC", "NNC", "CC", "NCD", "NNN"][rng.randint(6)]
    cols = []
    for c in kinds:
        cols.append(np.round(rng.normal(size=n), 1 if rng.rand() < 0.5 else 3) if c == "N" else
                    rng.randint(0, 5 if c == "C" else 25, n).astype(float))
    X = np.stack(cols, axis=1)
    if rng.rand() < 0.3:
        X[rng.rand(*X.shape) < 0.1] = np.nan
    P = X[rng.randint(0, n, 6)].copy()
    P[4] = 77.0
    P[5, rng.randint(len(kinds))] = np.nan
    clf = rng.rand() < 0.6
    K = int(rng.randint(2, 5))
    common = dict(n_estimators=int(rng.randint(1, 4)), aggregation=bool(rng.rand() < 0.75), step=float([0.3, 1.0, 2.5][rng.randint(3)]),
                  categorical_features=np.array([c != "N" for c in kinds]), handle_unknown="consider_missing",
                  max_depth=[None, 2, 4][rng.randint(3)], random_state=int(rng.randint(1 << 30)),
                  min_samples_leaf=int(rng.randint(1, 4)))
    if clf:
        y = rng.randint(0, K, n)
        y[:K] = np.arange(K)
        if k % 11 == 0:
            y[:] = 0
            y[0] = 1
        common["multiclass"] = "ovr" if rng.rand() < 0.3 else "multinomial"
        common["cat_split_strategy"] = ["binary", "all", "random"][rng.randint(3)] if K > 2 else "binary"
        f = ForestClassifier(dirichlet=float([0.1, 0.5, 2.0][rng.randint(3)]), **common)
        scale = 1.0
    else:
        common["min_samples_split"] = int(rng.randint(2, 6))
        y = np.round(np.nan_to_num(X[:, 0]) + rng.normal(size=n), 2)
        f = ForestRegressor(**common)
        scale = float(np.abs(y).max()) + 1e-6
    sw = np.round(rng.gamma(2.0, 1.0, n) + 0.05, 2) if rng.rand() < 0.4 else None
    ev = []
    tr = dict(id="insp%d" % k, agg=bool(common["aggregation"]), clf=bool(clf), scale=f2(scale), trees=0, ev=ev,
              what={a: str(b) for a, b in common.items()})
    try:
        if k % 5 == 0:   # a former fit, on other data
            f.fit(X[: n // 2 + 3], y[: n // 2 + 3] if not clf else np.arange(n // 2 + 3) % K)
        f.fit(X, y, sample_weight=sw)
        tr["trees"] = len(f.trees)
        seen = []
        try:
            seen = [(len(t._train_indices), len(t._valid_indices)) for t in f.trees]
        except AttributeError:
            pass
        step, light = common["step"], False
        look(f, P, ev, step, seen)
        for _ in range(3):
            op = ["step", "dir", "pickle", "light", "predict"][rng.randint(5)]
            if op == "dir" and (not clf or light):
                op = "step"
            ok = True
            if op == "step":
                step = float([0.1, 0.7, 1.0, 4.0][rng.randint(4)])
                if rng.rand() < 0.5:
                    f.step = step
                else:
                    f.set_params(step=step)
                ok = f.step == step
            elif op == "dir":
                f.dirichlet = float([0.05, 1.0, 3.0][rng.randint(3)])
            elif op == "pickle":
                f = pickle.loads(pickle.dumps(f))
            elif op == "light":
                f.lighten()
                light = True
            else:
                f.predict(P)
            ev.append(dict(t="op", op=op, ok=bool(ok)))
            look(f, P, ev, step, seen)
    except Exception as exc:
        ev.append(failed(exc))
    out.write(tr)


def wide(k, out):
    """Splits on columns of many categories, more than a printed line or array shows."""
    rng = rng_for("wide", k)
    C = [3000, 40, 70, 150, 300, 1200][k % 6]
    n = 3 * C if C > 1000 else 500
    clf = k % 3 != 1
    x = np.concatenate([np.arange(C), rng.randint(0, C, n - C)])
    X = np.stack([x, rng.randint(0, 9, n)], axis=1).astype(float)
    value = rng.permutation(C) / C
    y = (value[x] < 0.6).astype(int) if clf else np.round(value[x] + 0.05 * rng.normal(size=n), 3)
    common = dict(n_estimators=1, random_state=int(rng.randint(1 << 30)), categorical_features=np.array([True, False]),
                  max_depth=2 + k % 2, aggregation=bool(k % 4 != 3), handle_unknown="consider_missing")
    P = X[rng.randint(0, n, 12)].copy()
    P[11, 0] = C + 5
    ev = []
    tr = dict(id="wide%d" % k, agg=bool(common["aggregation"]), clf=bool(clf), scale=f2(1.2), trees=1, ev=ev,
              what={a: str(b) for a, b in common.items()})
    try:
        f = (ForestClassifier if clf else ForestRegressor)(**common).fit(X, y)
        look(f, P, ev, 1.0, [])
        f.lighten()
        ev.append(dict(t="op", op="light", ok=True))
        look(f, P, ev, 1.0, [])
    except Exception as exc:
        ev.append(failed(exc))
    out.write(tr)


def unfitted(out):
    """Inspecting a forest that is not fitted raises NotFittedError."""
    from sklearn.exceptions import NotFittedError
    ev = []
    for f in (ForestClassifier(), ForestRegressor()):
        for use in (lambda: f.get_nodes(0), lambda: f.path_leaf(np.zeros((2, 2)))):
            try:
                use()
                ok = False
            except NotFittedError:
                ok = True
            except Exception:
                ok = False
            ev.append(dict(t="op", op="unfitted", ok=ok))
    out.write(dict(id="unfitted", agg=False, clf=False, scale=f2(1), trees=0, ev=ev))


out = Out(OUT)
if SHARD == 0:
    unfitted(out)
for k in range(60 * (6 if THOROUGH else 1)):
    if k % NSHARDS == SHARD:
        run(k, out)
for k in range(8 * (4 if THOROUGH else 1)):
    if k % NSHARDS == SHARD:
        wide(k, out)
out.close()
