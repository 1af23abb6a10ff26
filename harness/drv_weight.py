"""Weights, error model and noise estimates.  argv: trace file."""
import sys
import warnings

import numpy as np

from geom import pick
from rec import NAN, Recorder, SINGLE, ints, quiet, rng, THOROUGH


def field(r, cplx):
    """correlation and camera imbalance that two fields can have, in quarters"""
    while True:
        d = r.randint(-3, 3)
        g = (r.randint(-4, 4), r.randint(-4, 4) if cplx else 0)
        if g[0] ** 2 + g[1] ** 2 <= 16 - d * d:
            return g, d


def fixed(x, scale):
    x = np.asarray(x)
    nan = ~np.isfinite(x)
    o = np.rint(np.where(nan, 0, x) * scale).astype("int64")
    o = np.clip(o, -10 ** 8, 10 ** 8)
    o[nan] = NAN
    return o


def pairs(w):
    w = np.asarray(w)
    return np.stack([fixed(w.real, 1e5), fixed(w.imag if w.dtype.kind == "c" else 0 * w.real, 1e5)], -1).tolist()


def inputs(r, cplx, prime, n):
    fs = [field(r, cplx) for _ in range(n)]
    b = [[[r.randint(-4, 4), r.randint(-4, 4)] if prime else [0, 0] for _ in range(2)] for _ in range(n)]
    g = np.array([complex(*f[0]) / 4 for f in fs])
    d = np.array([f[1] / 4 for f in fs])
    bs = [np.array([complex(*x[i]) / 4 for x in b]) for i in range(2)]
    return dict(g=[list(f[0]) for f in fs], d=[f[1] for f in fs], b=b), g if cplx else g.real, d, bs


def weight_case(c, m, r):
    prime = r.random() < 0.5
    cplx = r.random() < 0.6
    n = r.randint(1, 5)
    e, g, d, b = inputs(r, cplx, prime, n)
    how = pick(r, ["g", "d", "data", "diff"])
    sc = np.array([pick(r, [1., 2., 4., 8.]) for _ in range(n)])
    extra = tuple(b) if prime else ()
    g0, d0 = g.copy(), d.copy()
    kept = [g, d]
    pr = "_prime" if prime else ""
    if how == "g":
        api = "weight%s_from_g" % pr
        w = getattr(m, api)(g + 0j if prime else g, d, *extra)
    elif how == "d":
        api = "weight%s_from_d" % pr
        w = getattr(m, api)(2 - 2 * g, d, *extra)
    else:
        api = "weight%s_from_data" % pr
        mode = "corr" if how == "data" else "diff"
        data = (g if mode == "corr" else 2 - 2 * g)[:, None] * sc[:, None]
        kw = dict(scale_factor=sc, delta=d, pre_filter=False)
        if mode == "diff" or r.random() < 0.5:
            kw["mode"] = mode
        w = getattr(m, api)(data, *extra, **kw)[:, 0]
    c.event(k="weight", api=api, how=how, cplx=int(cplx and not prime), w=pairs(w), same=int(np.array_equal(g, g0) and np.array_equal(d, d0)), **e)
    c.canary(["w", -1, 0], to=pairs(w)[-1][0] + 20)
    if cplx and not prime:
        c.canary(["w", 0, 1], to=pairs(w)[0][1] + 20)
    # the error of some weights, and of the best one
    api = "sigma%s_weighted" % pr
    fn = getattr(m, api)
    u = [r.randint(-2, 10) for _ in range(n)]
    s = fn(np.array(u) / 8., g + 0j, d, *extra)
    e2 = dict(e)
    c.event(k="error", api=api, u=u, v=fixed(s ** 2, 1e3).tolist(), same=1, **e2)
    c.canary(["v", 0], to=100000)
    w = np.asarray(w).real
    at = fn(w, g + 0j, d, *extra)
    others = np.stack([fn(w + x, g + 0j, d, *extra) for x in (-0.3, -0.1, 0.1, 0.3)], -1)
    at = np.where(np.isnan(at), 0, at)
    c.event(k="best", api=api, at=fixed(at, 1e3).tolist(), others=fixed(others, 1e3).tolist(), same=1)
    c.canary(["at", 0], to=100000)


def noise_case(c, m, r):
    n = r.randint(1, 6)
    v1, v2 = [np.array([float(r.randint(1, 60)) for _ in range(n)]) for _ in range(2)]
    mask = None if r.random() < 0.5 else np.array([r.random() < 0.6 for _ in range(n)])
    sel = slice(None) if mask is None else mask
    k1, k2 = v1.copy(), v2.copy()
    q = r.randrange(3)
    var = v1 if q == 0 else (v1, v2) if q == 1 else [v1, v2]
    kw = {} if mask is None else dict(mask=mask)
    scaled = 1
    if r.random() < 0.4:
        kw["scale"] = False
        scaled = 0
    out = m.noise_delta(var, **kw)
    kw.pop("scale", None)
    same = int(np.array_equal(v1, k1) and np.array_equal(v2, k2))
    head = dict(v1=ints(v1[sel]), v2=ints(v2[sel]), single=int(q == 0), same=same)
    c.event(k="delta", api="noise_delta", scaled=scaled, out=fixed(out, 1e5).tolist(), **head)
    if len(head["v1"]):
        c.canary(["out", 0], to=300000)
    out = m.scale_factor(var, **kw)
    c.event(k="scale", api="scale_factor", out=ints(out, 2), **head)
    if len(head["v1"]):
        c.canary(["out", -1])
    _, err = c.call(m.scale_factor, None)
    c.event(k="refuse", api="scale_factor", raised=int(bool(err)), err=err, same=1)
    c.canary(["raised"])
    win = np.array([[r.randint(-3, 3) for _ in range(n)] for _ in range(2)], float)
    im = np.array([[r.randint(-3, 3) for _ in range(n)] for _ in range(2)]) if r.random() < 0.4 else 0 * win
    I = r.randint(1, 300)
    out = m.noise_level(win + 1j * im if im.any() else win, I)
    c.event(k="level", api="noise_level", win=np.stack([win, im], -1).astype(int).reshape((-1, 2)).tolist(), intensity=I, out=int(np.rint(out)), same=1)
    c.canary(["out"])
    mode = pick(r, ["corr", "diff"])
    data = np.array([[float(r.randint(-20, 90)) for _ in range(3)] for _ in range(n)])
    kw = {} if mode == "corr" and r.random() < 0.5 else dict(mode=mode)
    out = m.noise_mean(data, v1, **kw)
    c.event(k="mean", api="noise_mean", mode=mode, c=ints(data[:, 0]), s=ints(v1), out=fixed(out, 1e5).tolist(), same=int(np.array_equal(v1, k1)))
    c.canary(["out", 0], to=-10)
    for api, a in (("noise_mean", (data, v1)), ("weight_from_data", (data, 0., v1)), ("weight_prime_from_data", (data, v1 + 0j, v1 + 0j, 0., v1))):
        _, err = c.call(getattr(m, api), *a, mode=pick(r, ["", "cor", "x"]))
        c.event(k="refuse", api=api, raised=int(bool(err)), err=err, same=1)


def filter_case(c, m, avg, r):
    """weights of measured data are those of the data with noise removed"""
    n, t = r.randint(1, 3), r.randint(8, 20)
    noisy = np.array([[np.exp(-k / 5.) + r.uniform(-0.2, 0.2) for k in range(t)] for _ in range(n)])
    sc = np.array([pick(r, [1., 2., 5.]) for _ in range(n)])
    mode = pick(r, ["corr", "diff"])
    data = noisy * sc[:, None] if mode == "corr" else 2 * (1 - noisy) * sc[:, None]
    d = np.array([r.uniform(-0.5, 0.5) for _ in range(n)])
    keep = data.copy()
    kw = {} if r.random() < 0.5 else dict(pre_filter=True)
    a = m.weight_from_data(data, d, sc, mode, **kw)
    z = m.weight_from_data(avg.denoise(keep.copy()), d, sc, mode, pre_filter=False)
    c.event(k="same", api="weight_from_data", mode=mode, a=fixed(a, 1e5).tolist(), z=fixed(z, 1e5).tolist(), same=int(np.array_equal(keep, data)))
    c.canary(["a", 0, 0])
    b = [np.array([complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(n)]) for _ in range(2)]
    a = m.weight_prime_from_data(data, b[0], b[1], d, sc, mode, **kw)
    y = avg.denoise(keep.copy())
    y = np.clip(avg.decreasing(y), 0, sc[:, None]) if mode == "corr" else np.clip(avg.increasing(y), 0, 2 * sc[:, None])
    z = m.weight_prime_from_data(avg.denoise(y), b[0], b[1], d, sc, mode, pre_filter=False)
    c.event(k="same", api="weight_prime_from_data", mode=mode, a=fixed(a, 1e5).tolist(), z=fixed(z, 1e5).tolist(), same=int(np.array_equal(keep, data)))
    c.canary(["a", 0, 0])


def main():
    R = Recorder(sys.argv[1])
    quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import cddm.avg as avg
    import cddm.norm as m
    for name, num, fn in (("weight", 150, weight_case), ("noise", 60, noise_case), ("filter", 20, lambda c, m, r: filter_case(c, m, avg, r))):
        for i in range(num * (12 if THOROUGH else 1)):
            r = rng(name, i)

            def one(c, r=r, fn=fn):
                warnings.simplefilter("ignore")
                fn(c, m, r)
            R.case("%s-%d" % (name, i), one)
    R.done()


main()
