"""Replays interleavings generated by TLC from MCForest on the real prediction methods, and runs concurrent predictions.
usage: threads.py PROPERTY OUT shard nshards SCHEDULES

The trees of a fitted forest are replaced by stand-ins whose answers are known and whose "compute", "read" and "write" steps
(the last two around every arithmetic operation with the answer) wait for a scheduler that follows the interleaving."""
import threading, time
from wwlib import *
PROP, OUT, SHARD, NSHARDS, SCHED = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
from wildwood import ForestClassifier, ForestRegressor

PATIENCE = 0.012


class Sched:
    def __init__(self, order):
        self.left = [tuple(x) for x in order]
        self.cv = threading.Condition()
        self.pending, self.granted, self.free = {}, set(), False
        self.log = []
        self.stop = False

    def wait(self, key):
        with self.cv:
            if self.free or self.stop:
                return
            tag = (key, threading.get_ident())
            self.pending[tag] = key
            self.cv.notify_all()
            while tag not in self.granted and not self.free:
                self.cv.wait(1.0)
            self.granted.discard(tag)
            self.pending.pop(tag, None)
            self.log.append(list(key))

    def run(self):
        """Grants the steps in the wanted order; a step that does not show up (blocked by a lock) is overtaken."""
        idle = time.time()
        with self.cv:
            while not self.stop:
                ready = {v: k for k, v in self.pending.items() if k not in self.granted}
                want = self.left[0] if self.left else None
                if want in ready:
                    self.grant(ready[want], want)
                    idle = time.time()
                    continue
                if time.time() - idle > PATIENCE and ready:
                    for w in self.left:
                        if w in ready:
                            self.grant(ready[w], w)
                            break
                    else:
                        w = next(iter(ready))
                        self.grant(ready[w], w)
                    idle = time.time()
                    continue
                if time.time() - idle > 5:
                    self.free = True
                    self.cv.notify_all()
                    return
                self.cv.wait(0.002)

    def grant(self, tag, key):
        self.granted.add(tag)
        if key in self.left:
            self.left.remove(key)
        self.cv.notify_all()


CURRENT = [None]


class Val(np.ndarray):
    """An answer whose use in arithmetic is split into a read and a write."""
    who = None

    def __array_finalize__(self, obj):
        self.who = getattr(obj, "who", None)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        plain = [np.asarray(x).copy() if isinstance(x, np.ndarray) else x for x in inputs[:0]]
        s = CURRENT[0]
        if s is not None and self.who is not None:
            s.wait(self.who + ("read",))
        plain = [np.array(np.asarray(x)) if isinstance(x, np.ndarray) else x for x in inputs]
        res = getattr(ufunc, method)(*plain, **kw)
        if s is not None and self.who is not None:
            s.wait(self.who + ("write",))
        if out is not None:
            np.asarray(out[0])[...] = res
            return out[0]
        return res


class Stub:
    """Stands for tree t; callers are told apart by the number of rows they ask for."""

    def __init__(self, real, t, rows, K, base):
        self.real, self.t, self.rows, self.K, self.base = real, t, rows, K, base

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.__dict__["real"], name)

    def answer(self, n, cols):
        r = np.arange(n)[:, None]
        k = np.arange(cols)[None, :]
        return (self.base ** self.t * (1 + (r + 2 * k + self.t) % 3)).astype(float)

    def give(self, fb, a):
        s = CURRENT[0]
        n = len(a)
        who = (self.rows.index(n) + 1 if n in self.rows else 0, self.t + 1)
        if s is not None:
            s.wait(who + ("compute",))
        v = np.array(a).view(Val)
        v.who = who
        return v

    def size(self, fb):
        n = getattr(fb, "n_samples", None)
        return int(n) if n is not None else len(fb)

    def predict_proba(self, fb):
        return self.give(fb, self.answer(self.size(fb), self.K))

    def predict(self, fb):
        return self.give(fb, self.answer(self.size(fb), 1)[:, 0])

    def weighted_depth(self, fb):
        return self.predict(fb)

    def apply(self, fb):
        return self.give(fb, self.answer(self.size(fb), 1)[:, 0].astype(np.uintp))


def forest(kind, T):
    rng = rng_for("threads", kind, T)
    X = np.round(rng.normal(size=(24, 2)), 1)
    common = dict(random_state=3, n_jobs=T, max_features=None)
    if kind == "reg":
        f = ForestRegressor(n_estimators=T, **common).fit(X, rng.normal(size=24))
        K, ovr = 1, False
    elif kind == "multi":
        f = ForestClassifier(n_estimators=T, **common).fit(X, np.arange(24) % 3)
        K, ovr = 3, False
    else:
        f = ForestClassifier(n_estimators=T // 2, multiclass="ovr", **common).fit(X, np.arange(24) % 3)
        K, ovr = 3, True
    return f, K, ovr


FORESTS = {}


def stubbed(kind, T):
    if (kind, T) not in FORESTS:
        f, K, ovr = forest(kind, T)
        rows = [5, 6]
        real = list(f.trees)
        f.trees = [Stub(t, i, rows, 2 if ovr else K, 8 if len(real) <= 4 else 4) for i, t in enumerate(real)]
        f.n_jobs = len(real)
        FORESTS[kind, T] = (f, K, ovr, rows)
    return FORESTS[kind, T]


METHODS = {"reg": ["predict", "predict_trees", "apply"],
           "multi": ["predict_proba", "predict_proba_trees", "apply"],
           "ovr": ["predict_proba", "predict_proba_trees", "apply"]}


def calls(f, method, Xs, sched):
    res, errs = [None] * len(Xs), []

    def call(i):
        try:
            res[i] = getattr(f, method)(Xs[i])
        except Exception as exc:
            errs.append(exc)

    CURRENT[0] = sched
    th = [threading.Thread(target=call, args=(i,), daemon=True) for i in range(len(Xs))]
    ctl = threading.Thread(target=sched.run, daemon=True)
    ctl.start()
    for t in th:
        t.start()
    deadline = time.time() + 40
    for t in th:
        t.join(max(0.1, deadline - time.time()))
    hung = any(t.is_alive() for t in th)
    with sched.cv:
        sched.stop = True
        sched.free = True
        sched.cv.notify_all()
    for t in th:
        t.join(5)
    ctl.join(5)
    CURRENT[0] = None
    if errs:
        raise errs[0]
    if hung:
        raise RuntimeError("a prediction did not end")
    return res


def replay(out, name, kind, T, method, order, callers):
    f, K, ovr, rows = stubbed(kind, T)
    n_trees = len(f.trees)
    ev = []
    tr = dict(id=name, kind="reg" if kind == "reg" else "clf", K=K, ovr=ovr, nest=n_trees // K if ovr else n_trees, classes=[], ev=ev,
              trees=n_trees, what=dict(method=method, order=order))
    try:
        rng = rng_for("threads-x", callers)
        Xs = [np.round(rng.normal(size=(rows[c], 2)), 1) for c in range(callers)]
        sched = Sched(order)
        res = calls(f, method, Xs, sched)
        tr["what"]["log"] = sched.log
        for c in range(callers):
            n = rows[c]
            a = np.asarray(res[c], dtype=np.float64)
            if method in ("predict", "predict_proba"):
                a = a.reshape(n, -1)
                vec = [t.answer(n, 1 if kind == "reg" else t.K) for t in f.trees]
                ev.append(dict(t="shape", got=list(a.shape), want=[n, K]))
                for i in range(n):
                    ev.append(dict(t="sum", caller=c, row=i, vecs=[f2s(v[i]) for v in vec], ans=f2s(a[i])))
            else:
                cols = f.trees[0].K if method == "predict_proba_trees" else 1
                vec = np.stack([t.answer(n, cols) for t in f.trees])
                a = a.reshape(a.shape + (1,)) if a.ndim == 2 else a
                ev.append(dict(t="shape", got=list(a.shape), want=list(vec.shape)))
                for i in range(n):
                    ev.append(dict(t="slots", caller=c, row=i, vecs=[f2s(v[i]) for v in vec], slots=[f2s(v[i]) for v in a]))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(tr)


def digest(f):
    import hashlib
    h = hashlib.sha256()
    for t in f.trees:
        core, _ = inner(t)
        h.update(np.ascontiguousarray(core.nodes[: core.node_count]).tobytes())
        h.update(np.ascontiguousarray(core.y_pred[: core.node_count]).tobytes())
        h.update(np.ascontiguousarray(core.bin_partitions).tobytes())
    return h.hexdigest()


def stress(out, name, kind, rng):
    """Concurrent calls on one forest with real trees: all answers as when called alone."""
    ev = []
    tr = dict(id=name, kind="reg" if kind == "reg" else "clf", K=1, ovr=False, nest=1, classes=[], ev=ev, trees=1, what=dict(kind=kind))
    try:
        n, d = 400, 3
        X = np.round(rng.normal(size=(n, d)), 1)
        X[:, 0] = rng.randint(0, 6, n)
        common = dict(n_estimators=6, random_state=int(rng.randint(1000)), n_jobs=4, max_features=None, categorical_features=[True, False, False])
        if kind == "reg":
            f = ForestRegressor(**common).fit(X, X[:, 0] + rng.normal(size=n))
            methods = ["predict", "predict_trees", "apply"]
        else:
            y = np.searchsorted([-0.5, 0.5], X[:, 1] + rng.normal(size=n))
            f = ForestClassifier(multiclass=kind, **common).fit(X, y)
            methods = ["predict", "predict_proba", "predict_proba_trees", "apply"]
        sizes = [3000, 7, 900, 1, 3000, 500, 64, 2000]
        Xs = [X[rng.randint(n, size=m)] for m in sizes]
        f.n_jobs = 1
        before = digest(f)
        alone = [{m: np.asarray(getattr(f, m)(A)) for m in methods} for A in Xs]
        f.n_jobs = 4
        errs, got = [], []

        def work(i):
            try:
                for rep in range(6 if THOROUGH else 3):
                    for m in (methods if i % 2 else methods[::-1]):
                        got.append((i, m, np.asarray(getattr(f, m)(Xs[i]))))
            except Exception as exc:
                errs.append(exc)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        th = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(Xs))]
        for t in th:
            t.start()
        for t in th:
            t.join(200)
        sys.setswitchinterval(old)
        if errs:
            raise errs[0]
        if any(t.is_alive() for t in th):
            raise RuntimeError("a prediction did not end")
        worst = {}
        for i, m, a in got:
            b = alone[i][m]
            gap = np.inf if a.shape != b.shape else (float(np.max(np.abs(a.astype(float) - b.astype(float)))) if a.size else 0.0)
            if m == "predict" and kind != "reg":
                gap = 0.0 if gap == 0 else float(np.mean(a != b))
            worst[i, m] = max(worst.get((i, m), 0.0), gap if np.isfinite(gap) else 1e300)
        for (i, m), g in sorted(worst.items()):
            ev.append(dict(t="gap", method=m, rows=sizes[i], gap=f2(g)))
        ev.append(dict(t="unchanged", got=digest(f), want=before))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(tr)


out = Out(OUT)
sched = json.load(open(SCHED))
k = 0
for group in sched:          # {"callers", "trees", "orders"}
    C, T = group["callers"], group["trees"]
    for order in group["orders"]:
        k += 1
        if k % NSHARDS != SHARD:
            continue
        q = k // NSHARDS
        kind = ["multi", "ovr", "reg"][q % 3] if T % 2 == 0 else ["multi", "reg"][q % 2]
        ms = METHODS[kind]
        m = ms[0] if q % 4 else ms[1 + q // 4 % 2]
        replay(out, "replay-%d-%d-%d-%s-%s" % (C, T, k, kind, m), kind, T, m, [tuple(x) for x in order], C)
for j, kind in enumerate(["multinomial", "ovr", "reg"]):
    if (j + 1) % NSHARDS == SHARD:
        stress(out, "stress-" + kind, kind, rng_for("stress", kind))
out.close()
