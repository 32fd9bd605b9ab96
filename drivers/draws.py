"""Records which features split the nodes of many trees. usage: draws.py PROPERTY OUT [shard nshards]"""
import math, sys
from wwlib import *
from wildwood import ForestClassifier, ForestRegressor

OUT = sys.argv[2]
SHARD, NSHARDS = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, 1)

def ranked_data(rng, F, K, n):
    """Features from the most to the least informative, in a random order of columns: rank[j] is the rank of column j."""
    y = rng.randint(0, K, n)
    agree = np.linspace(0.95, 0.3, F)
    cols = []
    for a in agree:
        wrong = rng.permutation(n) >= int(a * n)
        cols.append(np.where(wrong, rng.randint(0, K, n), y).astype(float))
    order = rng.permutation(F)
    return np.stack([cols[r] for r in order], axis=1), y, [int(r) + 1 for r in order]


def positions(f, t, depth):
    nodes = f.get_nodes(t)
    left, right = nodes.left_child.values, nodes.right_child.values
    leaf, feat = nodes.is_leaf.values, nodes.feature.values
    todo = [(0, "")]
    while todo:
        v, pos = todo.pop()
        if leaf[v]:
            continue
        yield pos, int(feat[v])
        if len(pos) < depth:
            todo += [(int(left[v]), pos + "L"), (int(right[v]), pos + "R")]


def jobs():
    for F in (2, 3, 4, 7):
        for kind in ("clf", "reg", "ovr", "cat"):
            yield dict(F=F, kind=kind, ranked=False, mf=1, agg=kind == "clf", depth=2)
    # k: the number of features meant, from which the number of trees follows
    for F, mf, k in ((3, 2, 2), (4, 2, 2), (4, 3, 3), (5, 3, 3), (4, "auto", 2), (5, "log2", 2), (9, "sqrt", 3), (6, (1, 2), 3), (5, (1, 2), 2),
                     (4, None, 4), (3, None, 3)):
        for kind in ("clf", "reg"):
            yield dict(F=F, kind=kind, ranked=True, mf=mf, k=k, agg=False, depth=0)


def run(k, j, out):
    rng = rng_for("draws", k)
    F, kind = j["F"], j["kind"]
    mf = j["mf"][0] / j["mf"][1] if isinstance(j["mf"], tuple) else j["mf"]
    # probability that the rarest winner is missed by all trees: below 1e-9
    rare = 1.0 / (math.comb(F, j["k"]) if j["ranked"] else F)
    enough = 1 if rare >= 1 else int(math.ceil(math.log(1e-9 / F) / math.log(1 - rare)))
    trees = 600 if THOROUGH else max(220, enough if enough < 500 else 0)
    name = "draw-%s-%d-%s-%s" % (kind, F, j["mf"], "ranked" if j["ranked"] else "alike")
    common = dict(random_state=int(rng.randint(1 << 30)), max_features=mf, aggregation=j["agg"], n_jobs=1)
    if j["ranked"]:
        n, K = 6000, 2
        X, y, rank = ranked_data(rng, F, K, n)
        common.update(max_depth=2)
    else:
        n, K = 80, 3 if kind == "ovr" else 2
        X, y, rank = rng.normal(size=(n, F)), rng.randint(0, K, n), list(range(1, F + 1))
        if kind == "cat":
            X = rng.randint(0, 9, size=(n, F)).astype(float)
        common.update(max_depth=4)
    cat = np.zeros(F, dtype=bool)
    if kind == "cat":
        cat[:] = True
    common["categorical_features"] = cat
    if kind == "reg":
        f = ForestRegressor(n_estimators=trees, **common).fit(X, y.astype(float))
    elif kind == "ovr":
        f = ForestClassifier(n_estimators=trees // 2, multiclass="ovr", **common).fit(X, y)
    else:
        f = ForestClassifier(n_estimators=trees, **common).fit(X, y)
    ev = []
    for t in range(len(f.trees)):
        for pos, c in positions(f, t, j["depth"]):
            if not 0 <= c < F:
                ev.append(dict(t="error", what="feature %d of %d" % (c, F)))
            else:
                ev.append(dict(t="chose", pos=pos, f=rank[c]))
    ev.append(dict(t="end"))
    out.write(dict(id=name, F=F, mfp=mfp_of(mf), ranked=j["ranked"], enough=enough, what={a: str(b) for a, b in j.items()}, ev=ev))


def main():
    out = Out(OUT)
    for k, j in enumerate(jobs()):
        if k % NSHARDS != SHARD:
            continue
        try:
            run(k, j, out)
        except Exception as exc:
            out.write(dict(id="draw%d" % k, F=1, mfp=dict(k="all"), ranked=False, enough=1, what={a: str(b) for a, b in j.items()}, ev=[failed(exc)]))
    out.close()


main()
