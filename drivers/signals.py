"""Calls of the simulated signals. usage: signals.py PROPERTY OUT shard nshards"""
from wwlib import *
OUT, SHARD, NSHARDS = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
from wildwood.datasets.signals import get_signal, make_regression

NAMES = ["heavisine", "bumps", "blocks", "doppler"]
SPECIAL = [0.0, 1.0, 0.1, 0.13, 0.15, 0.23, 0.25, 0.4, 0.44, 0.65, 0.76, 0.78, 0.81, 0.3, 0.72]


def signal_events(rng, k):
    ev = []
    for _ in range(6):
        n = int(rng.choice([2, 5, 20, 60]))
        x = [rng.uniform(size=n), np.linspace(0, 1, n), rng.choice(SPECIAL, n), np.round(rng.uniform(size=n), 2), rng.uniform(0.5, 0.6, n)][int(rng.randint(5))]
        if rng.rand() < 0.5:
            x = x[rng.permutation(n)]
        single = bool(rng.rand() < 0.4)
        if single:      # away from the jumps, which single precision moves
            x = x[[min(abs(v - s) for s in SPECIAL) > 1e-5 or v in (0.0, 1.0) for v in x]].astype(np.float32)
            if len(x) < 2:
                continue
        if rng.rand() < 0.2:
            x = np.repeat(x, 2)[::2]
        before, name = f2s(x), NAMES[int(rng.randint(4))]
        y = get_signal(x, name) if name != "heavisine" or rng.rand() < 0.5 else get_signal(x)
        ev.append(dict(t="signal", name=name, x=before, y=f2s(y), after=f2s(x), single=single))
    return ev


def make_event(n, name, noise, seed, default=False):
    kw = dict(signal=name, noise=noise)
    if seed is not None:
        kw["random_state"] = seed
    X, y = make_regression(n, **kw)
    return dict(t="make", n=n, name=name, noise=f2(noise), seed="none" if seed is None else str(seed),
                shape=[int(v) for v in np.shape(X)], x=f2s(X), y=f2s(y))


def make_events(rng, k):
    ev = []
    sizes = [int(v) for v in rng.choice([1, 2, 6, 25, 70], 2)]
    seeds = [int(v) for v in rng.choice([0, 1, 2, 42, 123456], 3)]
    for _ in range(14):
        if rng.rand() < 0.3:
            np.random.seed(int(rng.randint(1000)))
        if rng.rand() < 0.3:
            np.random.uniform(size=int(rng.randint(5)))
        ev.append(make_event(sizes[int(rng.randint(2))], NAMES[int(rng.randint(4))], float(rng.choice([0.0, 0.03, 0.5, 3.0])),
                             seeds[int(rng.randint(3))] if rng.rand() < 0.85 else None))
    if k % 6 == 0:
        ev.append(make_event(1500, NAMES[k // 6 % 4], float(rng.choice([0.03, 1.0])), [None, 0, 7][k // 6 % 3]))
    return ev


def main():
    out = Out(OUT)
    for k in range(96 * (8 if THOROUGH else 1)):
        if k % NSHARDS == SHARD:
            rng = rng_for("signals", k)
            try:
                ev = signal_events(rng, k) if k % 2 else make_events(rng, k)
            except Exception as exc:
                ev = [failed(exc)]
            out.write(dict(id="sig%d" % k, what="signals" if k % 2 else "data sets", ev=ev))
    out.close()


main()
