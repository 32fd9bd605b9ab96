"""Histories of the packed storage. usage: bits.py PROPERTY OUT shard nshards"""
from wwlib import *
PROP, OUT, SHARD, NSHARDS = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
from wildwood.preprocessing.features_bitarray import (FeaturesBitArray, features_bitarray_fill_column, array_to_bitarray,
                                                      features_bitarray_to_array, get_value_from_column)

S = lambda col: [str(int(v)) for v in col]


def R(col):
    """A long column as its runs, which say just as much."""
    col = np.asarray(col)
    cut = np.flatnonzero(np.concatenate([[True], col[1:] != col[:-1]]))
    return ["%d from row %d" % (int(col[k]), k) for k in cut] + ["%d rows" % len(col)]


def col_of(rng, n, m, style):
    if style == 4:      # small values, and the largest one once
        c = np.array([rng.randint(0, min(m, 2 ** 31 - 2) + 1) for _ in range(n)], dtype=np.uint64)
        c[rng.randint(n)] = m
    elif style == 0:
        c = np.array([rng.randint(0, min(m, 2 ** 31 - 2) + 1) if rng.rand() < 0.7 else m - rng.randint(0, min(m, 3) + 1)
                      for _ in range(n)], dtype=np.uint64)
    elif style == 1:
        c = np.full(n, m, dtype=np.uint64)
    elif style == 2:
        c = np.zeros(n, dtype=np.uint64)
    else:
        c = np.array([m if i % 2 else 0 for i in range(n)], dtype=np.uint64)
    return c


def read(b, ev, n, c, rng, which):
    if which:
        ev.append(dict(t="matrix", cols=[S(x) for x in np.asarray(features_bitarray_to_array(b)).T]))
    else:
        for j in range(c):
            o = b.offsets
            words = b.bitarray[int(o[j]):int(o[j + 1])]
            ev.append(dict(t="column", j=j + 1, col=S([
                get_value_from_column(i, words, b.bitmasks[j], b.n_values_in_words[j], b.n_bits[j]) for i in range(n)])))


def dtype_for(rng, m):
    opts = [d for d in (np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.int64, np.uint64) if m <= np.iinfo(d).max]
    return opts[rng.randint(len(opts))]


def history(name, rng, n, maxs, steps, out):
    ev = []
    try:
        c = len(maxs)
        mv = np.array(maxs, dtype=np.uint64)
        b = FeaturesBitArray(n, mv)
        ev.append(dict(t="new", c=c))
        order = list(rng.permutation(c))
        for k in range(steps):
            j = int(order[k]) if k < c else int(rng.randint(c))
            col = col_of(rng, n, maxs[j], int(rng.randint(4)) if rng.rand() < 0.5 else 0)
            arr = col.astype(dtype_for(rng, maxs[j]))
            if rng.rand() < 0.2:      # a strided column
                M = np.zeros((n, 2), dtype=arr.dtype)
                M[:, 1] = arr
                arr = M[:, 1]
            ev.append(dict(t="fill", j=j + 1, col=S(col)))
            features_bitarray_fill_column(b, j, arr)
            if k >= c - 1:
                read(b, ev, n, c, rng, rng.rand() < 0.5)
        read(b, ev, n, c, rng, True)
        read(b, ev, n, c, rng, False)
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id=name, what=dict(n=n, maxs=S(maxs)), ev=ev))


def matrix(name, rng, n, maxs, dtype, out, style=0):
    ev = []
    try:
        M = np.stack([col_of(rng, n, min(m, int(np.iinfo(dtype).max)), style) for m in maxs], axis=1).astype(dtype)
        if rng.rand() < 0.5:
            M = np.asfortranarray(M)
        before = M.copy()
        b = array_to_bitarray(M)
        ev.append(dict(t="pack", cols=[S(x) for x in before.T]))
        read(b, ev, n, len(maxs), rng, True)
        read(b, ev, n, len(maxs), rng, False)
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id=name, what=dict(n=n, maxs=S(maxs), dtype=str(dtype)), ev=ev))


def tall(name, rng, n, out):
    """Many rows: blocks of equal values, the largest one only once or only towards an end."""
    ev = []
    try:
        cols = []
        for m in (int(2 ** (rng.rand() * 15)), int(rng.choice([1, 255, 256, 300])), 65535):
            at = np.sort(rng.randint(0, n, int(rng.randint(1, 30))))
            c = np.repeat(rng.randint(0, max(1, m // 2), len(at) + 1), np.diff(np.concatenate([[0], at, [n]])))
            c[[n - 1, n - 1 - int(rng.randint(min(n, 900))), 0, int(rng.randint(n))][rng.randint(4)]] = m
            cols.append(c)
        cols = [cols[i] for i in rng.permutation(3)][: int(rng.randint(1, 4))]
        big = max(int(c.max()) for c in cols)
        dt = [d for d in (np.uint8, np.uint16, np.uint32, np.uint64) if big <= np.iinfo(d).max][0]
        M = np.stack(cols, axis=1).astype(dt)
        if rng.rand() < 0.5:
            M = np.asfortranarray(M)
        whole = rng.rand() < 0.5
        if whole:
            b = array_to_bitarray(M.copy())
            ev.append(dict(t="pack", cols=[R(x) for x in M.T]))
        else:
            b = FeaturesBitArray(n, np.array([int(c.max()) for c in cols], dtype=np.uint64))
            ev.append(dict(t="new", c=len(cols)))
            for j in rng.permutation(len(cols)):
                features_bitarray_fill_column(b, int(j), M[:, j])
                ev.append(dict(t="fill", j=int(j) + 1, col=R(cols[j])))
        ev.append(dict(t="matrix", cols=[R(x) for x in np.asarray(features_bitarray_to_array(b)).T]))
        for j in range(len(cols)):
            o = b.offsets
            words = b.bitarray[int(o[j]):int(o[j + 1])]
            ev.append(dict(t="column", j=j + 1, col=R([
                get_value_from_column(i, words, b.bitmasks[j], b.n_values_in_words[j], b.n_bits[j]) for i in range(n)])))
    except Exception as exc:
        ev.append(failed(exc))
    out.write(dict(id=name, what=dict(n=n), ev=ev))


def main():
    out = Out(OUT)
    k = 0
    # every number of bits, around the boundaries of the words
    for b in list(range(1, 17)) + [20, 21, 22, 31, 32, 33, 40]:
        per = 64 // b
        for n in sorted({1, 2, max(1, per - 1), per, per + 1, 2 * per, 2 * per + 1, 3 * per - 1}):
            k += 1
            if k % NSHARDS != SHARD:
                continue
            rng = rng_for("bits", b, n)
            maxs = [2 ** b - 1, 2 ** (b - 1), int(rng.choice([0, 1, 2, 3])), max(0, 2 ** b - 2), 2 ** (b - 1) + 1 if b > 1 else 1]
            maxs = [maxs[i] for i in rng.permutation(5)][: int(rng.randint(1, 6))]
            history("h%d-%d" % (b, n), rng, n, maxs, len(maxs) + 2, out)
    for j in range(1200 if THOROUGH else 120):
        k += 1
        if k % NSHARDS != SHARD:
            continue
        rng = rng_for("bits2", j)
        n = int(rng.randint(1, 200))
        maxs = [int(2 ** (rng.rand() * 12)) - 1 + int(rng.randint(2)) for _ in range(int(rng.randint(1, 7)))]
        if j % 2:
            history("r%d" % j, rng, n, maxs, len(maxs) + 3, out)
        else:
            matrix("m%d" % j, rng, n, maxs, [np.uint8, np.uint16, np.uint32, np.uint64][int(rng.randint(4))], out)
    for j in range(80 if THOROUGH else 16):
        k += 1
        if k % NSHARDS == SHARD:
            rng = rng_for("tall", j)
            tall("tall%d" % j, rng, [1000, 4097, 5000, 8193, 20000, 33000, 66000, 131073][j % 8], out)
    # the largest value of a whole matrix around the limits of the types of integers
    for e in EDGES:
        for form in ("alone", "first", "last", "among"):
            k += 1
            if k % NSHARDS != SHARD:
                continue
            rng = rng_for("bits3", e, form)
            small = [int(rng.randint(0, min(e, 400) + 1)) for _ in range(int(rng.randint(1, 4)))]
            maxs = {"alone": [e], "first": [e] + small, "last": small + [e], "among": small + [e] + small[::-1]}[form]
            n = int(rng.randint(1, 40))
            history("e%d-%s" % (e, form), rng, n, maxs, len(maxs) + 3, out)
            for dt in (np.uint8, np.uint16, np.uint32, np.uint64):
                if e <= np.iinfo(dt).max:
                    matrix("em%d-%s-%s" % (e, form, np.dtype(dt).name), rng, n, maxs, dt, out, 4)
    out.close()


EDGES = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 4095, 4096,
         32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 31 - 1,
         2 ** 31, 2 ** 31 + 1, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 40 + 1]
main()
