"""Logarithmic averaging, merging, folding, filters.  argv: trace file."""
import sys

import numpy as np

from rec import Recorder, dress, ints, quiet, rng, THOROUGH


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def arr(r, shape, lo=-9, hi=9):
    n = int(np.prod(shape)) if shape else 1
    return np.array([r.randint(lo, hi) for _ in range(n)], "float64").reshape(shape)


def rows(x, scale=1):
    """Array (..., n) -> list of rows; complex data give a real and an imaginary row each."""
    x = np.asarray(x)
    x = x.reshape(-1, x.shape[-1])
    if x.dtype.kind != "c":
        return ints(x, scale) if len(x) else []
    out = []
    x = np.where(np.isnan(x), complex(np.nan, np.nan), x)
    for y in x:
        out += [ints(y.real, scale), ints(y.imag, scale)]
    return out


def nlevels(n, size):
    level = 0
    while size * 2 ** level < n:
        level += 1
    return level


def data(r, lead, n, cplx):
    x = arr(r, lead + (n,))
    if cplx:
        x = x + 1j * arr(r, lead + (n,))
    lay = r.random()
    if lay < 0.2:
        big = np.zeros(lead + (2 * n,), x.dtype)
        big[..., ::2] = x
        x = big[..., ::2]
    elif lay < 0.4 and lead:
        x = np.asfortranarray(x)
    return dress(r, x, 0.3)


def lead(r):
    return pick(r, [(), (1,), (2,), (3,), (2, 2), (1, 3)])


def averaging(c, m, r):
    cplx = int(r.random() < 0.4)
    fold = pick(r, [-1, 0, 1, 1]) if cplx else pick(r, [-1, -1, 0, 1])
    size = pick(r, [2, 2, 3, 4, 4, 6, 8, 1]) if r.random() < 0.9 else pick(r, [0, -2])
    n = pick(r, list(range(3, 34)) + [5, 9, 17, 16, 15, 33])
    if cplx and fold == 1 and n % 2 == 0:
        n += 1
    if not (cplx and fold == 1) and r.random() < 0.1 and size > 0:
        n = size * 2 ** r.randint(0, 3) + r.randint(-1, 1)
        n = max(n, 3)
    ld = lead(r)
    x = data(r, ld, n, cplx)
    kw = {}
    if fold != -1:
        kw["fold"] = bool(fold)
    neff = (n + 1) // 2 if (cplx and fold == 1) else n
    f2 = 2 if (cplx and fold == 1) else 1
    keep = x.copy()

    def base(api, **more):
        return dict(api=api, d=rows(keep), cplx=cplx, fold=fold, inputsame=int(np.array_equal(x, keep)), **more)

    which = r.random()
    if which < 0.4:
        binning = pick(r, [0, 1, 1, 2]) if r.random() < 0.95 else 3
        res, err = c.call(m.multilevel, x, size, binning, **kw)
        ev = base("multilevel", k="multilevel", size=size, binning=binning, raised=int(bool(err)), err=err, obs=[], shape=[], wantshape=[])
        if res is not None:
            L = nlevels(neff, size)
            ev["obs"] = [list(z) for z in zip(*[rows(lv, f2 * 4 ** L) for lv in res])]
            ev["shape"] = list(res.shape)
            ev["wantshape"] = [L + 1] + list(ld) + [size]
        c.event(**ev)
        if res is not None:
            c.canary(["obs", 0, 0, 0])
            c.canary(["obs", -1, 0, 0])
    elif which < 0.75:
        size = size // 2
        res, err = c.call(m.log_average, x, size, **kw)
        ev = base("log_average", k="log_average", size=2 * size, binning=1, raised=int(bool(err)), err=err, x=[], y=[])
        if res is not None:
            ev["x"] = ints(res[0])
            ev["y"] = rows(res[1], f2 * 4 ** nlevels(neff, 2 * size))
        c.event(**ev)
        if res is not None:
            c.canary(["x", -1])
            c.canary(["y", -1, 0])
    else:
        # data as multiple-tau functions return them: (..., period*size) and (levels, ..., size)
        size = pick(r, [2, 4, 4, 6, 8, 3]) if r.random() < 0.9 else 5
        period = pick(r, [1, 2, 3, 4])
        levels = r.randint(1, 4)
        nf, ns = period * size, size
        if r.random() < 0.05:
            nf += 1
        if cplx and fold == 1:
            nf, ns = 2 * nf - 1, 2 * ns - 1
        if nf < 3:
            nf += ns
        x = data(r, ld, nf, cplx)
        keep = x.copy()
        mul = data(r, (levels,) + ld, ns, cplx)
        binning = pick(r, [0, 1, 1, 2])
        res, err = c.call(m.log_merge, x, mul, binning, **kw)
        neff = (nf + 1) // 2 if (cplx and fold == 1) else nf
        ev = base("log_merge", k="log_merge", size=size, binning=binning, raised=int(bool(err)), err=err, x=[], y=[],
                  multi=[rows(lv) for lv in mul])
        if cplx and fold == 0:
            ev["size"] = ns
        if res is not None:
            ev["x"] = ints(res[0])
            ev["y"] = rows(res[1], f2 * 4 ** nlevels(neff, size))
        c.event(**ev)
        if res is not None:
            c.canary(["x", -1])
            c.canary(["y", 0, -1])


def merging(c, m, r):
    size = pick(r, [2, 4, 6, 8, 3, 5])
    mode = pick(r, ["full", "half"]) if r.random() < 0.95 else "both"
    L = r.randint(1, 4)
    ld = lead(r)
    cplx = r.random() < 0.3
    x = data(r, (L,) + ld, size, cplx)
    res, err = c.call(m.merge_multilevel, x, mode=mode)
    c.event(k="merge", api="merge_multilevel", size=size, mode=mode, d=[rows(lv) for lv in x], raised=int(bool(err)), err=err,
            x=[] if res is None else ints(res[0]), y=[] if res is None else rows(res[1]))
    if res is not None:
        c.canary(["y", 0, 0])
    shape = [r.randint(1, 4)] + list(pick(r, [(), (3,), (2, 5)])) + [pick(r, [2, 4, 5])]
    period = r.randint(1, 40)
    t = m.t_multilevel(tuple(shape), period=period)
    c.event(k="times", api="t_multilevel", shape=shape, period=period, obs=[ints(np.ravel(o)) for o in t], obsshape=list(t.shape))
    c.canary(["obs", 0, 0])


def counting(c, m, r):
    size = pick(r, [2, 2, 3, 4, 6, 8])
    n = pick(r, list(range(3, 8 * size + 1)))
    L = nlevels(n, size)
    top = 20 if L <= 2 else 6
    cnt = np.array([r.randint(1, top) for _ in range(n)])
    if r.random() < 0.4:
        cnt = np.sort(cnt)[::-1].copy()
    if r.random() < 0.5:
        cnt = cnt.astype("float64")
    binning = pick(r, [0, 1, 1])
    form = pick(r, ["levels", "log", "merge"])
    ev = dict(k="count", size=size, c=ints(cnt), binning=binning, form="levels", multi=[], x=[], y=[], obs=[])
    q = lambda x: ints(np.floor(np.asarray(x) * 100 + 1e-6))
    if form == "levels":
        res = m.multilevel_count(cnt, size, binning)
        ev.update(api="multilevel_count", obs=[q(o) for o in res])
    elif form == "log" or size % 2:
        size = max(1, size // 2)
        x, y = m.log_average_count(cnt, size)
        ev.update(api="log_average_count", size=2 * size, binning=1, form="merged", x=ints(x), y=q(y))
    else:
        period = r.randint(1, 6)
        while nlevels(period * size, size) > 3 or period * size < 3:
            period = 3
        cnt = np.array([r.randint(1, 6) for _ in range(period * size)], "float64")
        mul = np.array([[r.randint(1, 99) for _ in range(size)] for _ in range(r.randint(1, 4))], "float64")
        x, y = m.log_merge_count(cnt, mul, binning)
        ev.update(api="log_merge_count", c=ints(cnt), multi=ints(mul), form="merged", x=ints(x), y=q(y))
    c.event(**ev)
    if form == "levels":
        c.canary(["obs", 0, 0], to=ev["obs"][0][0] + 7)
    else:
        c.canary(["x", 1])


def multi_counting(c, m, r):
    """The counts estimated for a multiple-tau computation go with its results."""
    size = pick(r, [6, 8, 10])
    period = pick(r, [1, 2, 3])
    count = size * period * pick(r, [2, 3, 4, 5, 8])
    binning = pick(r, [0, 1])
    f = np.ones((count, 1), "complex128")
    auto = r.random() < 0.5
    if auto:
        lin, mul = m.acorr_multi(f, level_size=size, period=period, norm=1, binning=binning)
        cf, cs = m.acorr_multi_count(count, period=period, level_size=size, binning=binning)
    else:
        lin, mul = m.ccorr_multi(f, f, level_size=size, period=period, norm=1, binning=binning)
        cf, cs = m.ccorr_multi_count(count, period=period, level_size=size, binning=binning)
    x, y = m.log_merge(np.ones(lin[0].shape), np.ones(mul[0].shape), binning)
    xc, yc = m.log_merge_count(cf, cs, binning)
    y = yc[:len(x)]
    c.event(k="mcount", api="acorr_multi_count" if auto else "ccorr_multi_count", size=size, period=period, fast=list(cf.shape), slow=list(cs.shape), x=ints(x), xc=ints(xc),
            positive=int(bool(np.all(~(y[1:] <= 0)))))


def folding(c, nm, r):
    n = r.randint(1, 9)
    cplx = int(r.random() < 0.93)
    mode = pick(r, [0, 1, -1, 0]) if r.random() < 0.93 else 2
    x = data(r, lead(r), 2 * n - 1, cplx)
    keep = x.copy()
    if mode == 0 and r.random() < 0.5:
        res, err = c.call(nm.fold_data, x)
    else:
        res, err = c.call(nm.fold_data, x, mode)
    c.event(k="fold", api="fold_data", cplx=cplx, mode=mode, d=rows(keep), raised=int(bool(err)), err=err,
            inputsame=int(np.array_equal(keep, x)), obs=[] if res is None else rows(res, 2))
    if res is not None:
        c.canary(["obs", 0, -1])


UNITS = [(1, 0, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5), (4, -3, 5), (3, -4, 5), (0, -1, 1), (5, 12, 13), (12, -5, 13)]


def symmetry(c, nm, r):
    """Delays i and -i carry p*z*u and q*conj(z)*u: z is the correlation, u the misalignment."""
    n = r.randint(1, 6)
    aligned = int(r.random() < 0.4)
    u = (1, 0, 1) if aligned else pick(r, [x for x in UNITS[:7] if x[0] > 0])
    uu = u[0] + 1j * u[1]
    pos, neg = [], []
    for _ in range(n - 1):
        z = pick(r, [x for x in UNITS if x[0] > 0])
        zz = z[0] + 1j * z[1]
        p = r.randint(1, 3)
        q = p if aligned else pick(r, [p, p, 4 * p])
        pos.append(p * zz * uu)
        neg.append(q * zz.conjugate() * uu)
    x = np.array([r.randint(1, 9) * uu] + pos + neg[::-1])
    for f in (nm.shift_data, nm.equalize_data):
        res = f(np.stack([x, x])[r.randint(0, 1)]) if r.random() < 0.5 else f(np.stack([x]))[0]
        c.event(k="sym", api=f.__name__, d=[ints(x.real), ints(x.imag)], obs=[ints(res.real), ints(res.imag)], aligned=aligned)
        c.canary(["obs", 0, 0])


def filters(c, a, r):
    api = pick(r, ["convolve", "median", "decreasing", "increasing", "denoise"])
    n = r.randint(3, 12)
    cplx = int(r.random() < 0.3 and api in ("convolve", "median", "denoise"))
    lo = pick(r, [9, 2])
    x = arr(r, lead(r) + (n,), -lo, lo)
    if cplx:
        x = x + 1j * arr(r, x.shape, -lo, lo)
    x = dress(r, x, 0.3)
    keep = x.copy()
    nd = r.randint(0, 3)
    if api == "denoise":
        res = a.denoise(x, nd) if r.random() < 0.7 else a.denoise(x, n=nd)
        sc = 4 ** nd
    else:
        res = getattr(a, api)(x)
        sc = 4 if api == "convolve" else 1
    c.event(k="filter", api=api, n=nd, d=rows(keep), obs=rows(res, sc), inputsame=int(np.array_equal(keep, x)))
    c.canary(["obs", 0, 1])


def interpolation(c, a, r):
    log = int(r.random() < 0.6)
    if log:
        ex = sorted(r.sample(range(0, 8), r.randint(2, 6)))
        x = [2 ** e for e in ex]
        if x[0] > 8 or r.random() < 0.5:
            x = [0] + [v for v in x if v > (0 if x[0] <= 8 else 8)]
            if x[1] > 8:
                x = [0, 8] + x[1:]
        elif x[0] > 1:
            x = [1] + x if x[0] <= 8 else x
        xi = [pick(r, [2 ** k for k in range(0, 9)] + [0, 0, 1]) for _ in range(r.randint(1, 8))]
        if x[0] == 1 and (x[1] - 1 not in (1, 3, 7, 15)):
            xi = [v for v in xi if v >= 1] or [4]
        xs, xn = np.array(x), np.array(xi)
    else:
        x, v = [], r.randint(-5, 5)
        for _ in range(r.randint(2, 6)):
            x.append(v)
            v += r.randint(1, 10)
        xi = [r.randint(x[0] - 6, x[-1] + 6) for _ in range(r.randint(1, 8))]
        xs, xn = np.array(x, "float64"), np.array(xi, "float64")
    cplx = r.random() < 0.3
    ld = pick(r, [(), (1,), (3,)])
    y = arr(r, ld + (len(x),)) + (1j * arr(r, ld + (len(x),)) if cplx else 0)
    y = dress(r, y, 0.3)
    f = a.log_interpolate if log else a.interpolate
    res = f(xn, xs, y)
    c.event(k="interp", api=f.__name__, log=log, x=x, xi=xi, ys=rows(y), obs=rows(res, 2520))
    c.canary(["obs", 0, 0])


def main():
    R = Recorder(sys.argv[1])
    quiet()
    import cddm.multitau as m
    import cddm.norm as nm
    import cddm.avg as a
    reps = 12 if THOROUGH else 1
    plan = [("average", averaging, m, 200), ("merge", merging, m, 30), ("count", counting, m, 80), ("mcount", multi_counting, m, 25),
            ("fold", folding, nm, 40), ("sym", symmetry, nm, 40), ("filter", filters, a, 60), ("interp", interpolation, a, 60)]
    for name, fn, mod, cnt in plan:
        for i in range(cnt * reps):
            r = rng("avg", name, i)

            def case(c, fn=fn, mod=mod, r=r):
                c.head["cfg"] = 0
                for _ in range(3):
                    fn(c, mod, r)
            R.case("%s-%d" % (name, i), case)
    R.done()


main()
