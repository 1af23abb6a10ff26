"""Simulated experiments.  argv: trace file, walk | video | noise | draw."""
import sys
import warnings
from math import pi, sqrt

import numpy as np

from rec import Recorder, ints, quiet, rng, THOROUGH


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def as_shape(r, sh):
    return pick(r, [tuple, list, np.array])(sh)


def points(r, n, sh, kind, out=0):
    """points in eighths of a pixel; odd: never on a pixel border"""
    res = []
    for _ in range(n):
        p = []
        for s in sh:
            lo, hi = -out * 8 * s, 8 * s * (1 + out) - 1
            if kind == "odd":
                p.append(2 * r.randint(lo // 2, (hi - 1) // 2) + 1)
            elif kind == "half":
                p.append(4 * r.randint(lo // 4, hi // 4))
            elif kind == "centre":
                p.append(8 * r.randint(lo // 8, (hi - 4) // 8) + 4)
            else:
                p.append(r.randint(lo, hi))
        res.append(p)
    return res


def arr(x):
    return np.array(x, float).reshape((-1, 2)) / 8


def field_of(x):
    """velocity field of the specification"""
    x = np.asarray(x, float) * 8
    v = np.empty_like(x)
    v[:, 0] = 8 * ((np.floor(x[:, 1] / 8)) % 3 - 1)
    v[:, 1] = 16 * (np.floor(x[:, 0] / 8) % 2)
    return v / 8


def motion(r, mul=1):
    """velocity and time step with exact displacements in eighths"""
    field = int(r.random() < 0.35)
    dt = pick(r, [(1, 1), (1, 1), (2, 1), (1, 2), (4, 1), (3, 1), (1, 4)])
    v = [mul * dt[1] * r.randint(-24, 24) for _ in range(2)]
    return field, dt, v


def walk_case(c, s, r):
    sh = [r.randint(1, 12), r.randint(1, 12)]
    field, dt, v = motion(r)
    n, count = r.randint(1, 4), r.randint(0, 12)
    x0 = points(r, n, sh, "any", pick(r, [0, 0, 2]))
    a = arr(x0)
    a0 = a.copy()
    kw = dict(count=count, shape=as_shape(r, sh), delta=pick(r, [0, 0., lambda x: np.zeros(len(x))]))
    if dt != (1, 1) or r.random() < 0.5:
        kw["dt"] = dt[0] / dt[1]
    if field:
        kw["velocity"] = field_of
    elif v != [0, 0] or r.random() < 0.5:
        kw["velocity"] = pick(r, [tuple, list, np.array])([v[0] / 8, v[1] / 8])
    x = pick(r, [lambda: a, lambda: a.tolist()])()
    if r.random() < 0.5:
        it = s.brownian_walk(x, **kw)
    else:
        it = s.brownian_particles(num_particles=n, x0=x, **kw)
    got = list(it)
    c.event(k="walk", api="brownian_walk", x0=x0, count=count, box=sh, v=v, field=field, dt=list(dt), pos=[],
            out=[ints(g, 8) for g in got], same=int(np.array_equal(a, a0)))
    if count:
        c.canary(["out", -1, -1, 0])


def box_case(c, s, r):
    sh = [r.randint(1, 30), r.randint(1, 30)]
    num, count = r.randint(1, 30), 20
    s.seed(r.randrange(10 ** 6))
    kw = dict(delta=pick(r, [1, 0.1, 3]), velocity=pick(r, [0., (1.5, -2.), 0.7]))
    got = list(s.brownian_particles(count=count, shape=as_shape(r, sh), num_particles=num, **kw))
    g = np.array(got).reshape((count, -1, 2))
    c.event(k="box", api="brownian_particles", num=num, shape=sh, out=np.floor(g * 1000).astype(int).tolist(),
            edge=int((g >= np.array(sh)).sum() + (g < 0).sum()))
    c.canary(["edge"])
    # initial positions are spread over the box
    g = np.array(list(s.brownian_particles(count=1, shape=(40, 70), num_particles=4000)))[0]
    for ax, w in enumerate((40, 70)):
        h = np.histogram(g[:, ax], bins=8, range=(0, w))[0]
        c.event(k="cover", api="brownian_particles", kind=0, n=8, num=4000, o1=list(range(8)), o2=[], both=0, root=63, hist=h.tolist())


def scale_case(c, s, r):
    n, count, sd = r.randint(1, 4), 6, r.randrange(10 ** 6)
    sh = (4096, 4096)
    x0 = np.array([[2048 + r.randint(-5, 5), 2048 + r.randint(-5, 5)] for _ in range(n)], float)
    s.seed(sd)
    u = np.array(list(s.brownian_walk(x0, count, sh, 1, 1))) - x0
    s.seed(sd)
    num, den = [1] * n, [1] * n
    dtn = pick(r, [(1, 1), (4, 1), (1, 4), (9, 1), (16, 1)])
    root = (int(sqrt(dtn[0])), int(sqrt(dtn[1])))
    dt = dtn[0] / dtn[1]
    vel = [[r.randint(-3, 3) / 2, r.randint(-3, 3) / 2] for _ in range(n)]
    how = r.randrange(3)
    if how == 0:
        d = pick(r, [(1, 1), (2, 1), (1, 2), (3, 2)])
        num, den = [d[0] * root[0]] * n, [d[1] * root[1]] * n
        delta = d[0] / d[1]
    else:
        ds = [pick(r, [(1, 1), (2, 1), (1, 2), (3, 2)]) for _ in range(n)]
        num, den = [d[0] * root[0] for d in ds], [d[1] * root[1] for d in ds]
        dv = np.array([d[0] / d[1] for d in ds])
        delta = (lambda x: dv) if how == 1 else (lambda x: dv[:, None])
    if r.random() < 0.4:
        V = np.array(vel)
        velocity = lambda x: V
    elif r.random() < 0.5:
        vel = [vel[0]] * n
        velocity = tuple(vel[0])
    else:
        velocity = np.array(vel)
    y = np.array(list(s.brownian_walk(x0, count, sh, delta, dt, velocity))) - x0
    c.event(k="scale", api="brownian_walk", u=np.rint(u * 1e4).astype(int).tolist(), y=np.rint(y * 1e4).astype(int).tolist(),
            num=num, den=den, drift=np.rint(np.array(vel) * dt * 1e4).astype(int).tolist())
    c.canary(["y", -1, 0, 0], to=999999)


def seed_case(c, s, r):
    def one(sd):
        s.seed(sd)
        kw = dict(count=5, shape=(20, 30), num_particles=3, delta=2)
        a = np.array(list(s.brownian_particles(**kw)))
        t = s.create_random_time(20, 16)
        t1, t2 = s.create_random_times1(20, 16)
        t3, t4 = s.create_random_times2(20, 16)
        f = np.full((8, 8), 100.)
        g = s.adc(f, noise_model="gaussian", saturation=16383)
        p = s.adc(f, noise_model="poisson", saturation=16383)
        return [a, t, t1, t2, t3, t4, g, p]
    sd = r.randrange(10 ** 6)
    a, b, d = one(sd), one(sd), one(sd + 1)
    for i, (x, y, z) in enumerate(zip(a, b, d)):
        c.event(k="seed", api="seed", what=i, same=int(np.array_equal(x, y)), other=int(np.array_equal(x, z)))
        c.canary(["same"])


def moments(c, api, x, mean, var, shift=0.0, extra=0.0):
    """x: two columns of samples"""
    n = x.size
    m, v = x.mean(), x.var()
    z = (x - m) / sqrt(v) if v > 0 else x * 0
    nxt = (z[1:] * z[:-1]).mean()
    cross = (z[:, 0] * z[:, 1]).mean()
    q = int(1000 * 7 / sqrt(n))
    c.event(k="noise", api=api, mean=int(round(1000 * m)), wantmean=int(round(1000 * (mean + shift))), tolmean=1 + int(q * sqrt(var)),
            var=int(round(1000 * v)), wantvar=int(round(1000 * (var + extra))), tolvar=1 + int(1.5 * q * var),
            next=int(round(1000 * nxt)), cross=int(round(1000 * cross)), tolcor=2 * q, kurt=int(round(1000 * (z ** 4).mean())), tolkurt=6 * q)
    c.canary(["mean"], to=10 ** 8)
    c.canary(["var"], to=10 ** 8)


def noise_case(c, s, r):
    s.seed(r.randrange(10 ** 6))
    n = 20000
    what = r.randrange(3)
    if what == 0:
        x = np.array(list(s.brownian_walk(np.full((1, 2), 2.0 ** 20), n + 1, (2 ** 21, 2 ** 21), 1, 1)))[:, 0]
        moments(c, "brownian_walk", np.diff(x, axis=0), 0, 1)
        x = np.array(list(s.brownian_walk(np.full((n, 2), 2.0 ** 20), 2, (2 ** 21, 2 ** 21), 2, 1)))
        moments(c, "brownian_walk", x[1] - x[0], 0, 4)
    else:
        F, R = r.randint(60, 400), pick(r, [0, 0, 30, 100])
        kw = dict(readout_noise=R) if R else {}
        kw["noise_model"] = "gaussian" if what == 1 else "poisson"
        if what == 1 and r.random() < 0.5:
            kw.pop("noise_model")
        out = s.adc(np.full((n, 2), float(F)), saturation=16383, **kw).astype(float)
        moments(c, "adc", out, F + R, F + R, -0.5 if what == 1 else 0, 1 / 12. if what == 1 else 0)


def adc_case(c, s, r):
    for _ in range(3):
        bits = pick(r, ["8bit", "10bit", "12bit", "14bit", None])
        mx = 2 ** int(bits[:-3]) - 1 if bits else 16383
        b = pick(r, [0, 0, 10, 100, 500])
        sat = pick(r, [mx, 2 * mx, 1000, 20000, 32768, 1, None])
        if mx > 5000 and sat and sat < 2:
            sat = mx
        top = 30000
        f = [pick(r, [r.randint(0, top), r.randint(0, 300), b, b + 1, max(0, b - 1), min(top, (sat or 32768) + b), 0]) for _ in range(12)]
        x = np.array(f, pick(r, [float, float, "float32", "int32", "uint16"])).reshape((3, 4))
        x0 = x.copy()
        kw = {}
        if sat:
            kw["saturation"] = sat
        if b or r.random() < 0.5:
            kw["black_level"] = b
        if bits:
            kw["bit_depth"] = bits
        kw["noise_model"] = "none"
        if r.random() < 0.25:
            f = [0] * 12
            x = x * 0
            x0 = x.copy()
            kw["noise_model"] = pick(r, ["gaussian", "poisson"])
        buf = None
        if r.random() < 0.3:
            buf = kw["out"] = np.full((3, 4), 7, "uint8" if mx < 256 else "uint16")
        out = s.adc(x, **kw)
        c.event(k="adc", api="adc", f=f, b=b, s=sat or 32768, mx=mx, out=ints(out.ravel()), bits=int(out.dtype.itemsize * 8 if out.dtype.kind == "u" else 0),
                given=int(buf is None or out is buf), same=int(np.array_equal(x, x0)), kw=str({k: str(v)[:20] for k, v in kw.items()}))
        c.canary(["out", 5])


def transform_case(c, s, r):
    for _ in range(3):
        sh = [r.randint(1, 12), r.randint(1, 12)]
        x = points(r, r.randint(1, 5), sh, "odd", pick(r, [0, 1]))
        off = [2 * r.randint(-80, 80), 2 * r.randint(-80, 80)]
        q = r.randrange(4)
        kw = {}
        if off != [0, 0] or r.random() < 0.5:
            kw["offset"] = pick(r, [tuple, list, np.array])([off[0] / 8, off[1] / 8])
        if r.random() < 0.3:
            kw.pop("offset", None)
            off = [0, 0]
        if q or r.random() < 0.5:
            kw["rotation"] = pick(r, [q, q - 4, q + 4]) * pi / 2
        a = arr(x)
        a0 = a.copy()
        out = s.coordinate_transform(a, as_shape(r, sh), **kw)
        c.event(k="transform", api="coordinate_transform", x=x, shape=sh, off=off, quarter=q, out=ints(out, 8), same=int(np.array_equal(a, a0)))
        c.canary(["out", -1, 0])


def schedule(r, most, dual):
    def one():
        k = r.randint(1, min(6, most))
        return sorted(r.sample(range(most), k))
    t1 = one()
    if not dual:
        return t1, []
    t2 = list(t1) if r.random() < 0.2 else one()
    if r.random() < 0.5:      # as many frames on both cameras
        k = min(len(t1), len(t2))
        t1, t2 = t1[:k], t2[:k]
    return t1, t2


def spots(r, n, big):
    if r.random() < 0.4:
        return [r.randint(0, big)] * n, True
    return [r.randint(0, big) for _ in range(n)], False


def video_case(c, s, r, crowd=False):
    sigma = pick(r, [0, 0, 1, 1, 2])
    dual = int(r.random() < 0.6)
    q = r.randrange(4) if dual or r.random() < 0.4 else 0
    off = [0, 0]
    low = {0: 1, 1: 4, 2: 7}[sigma]
    sh = [r.randint(low, low + 5), r.randint(low, low + 5)]
    if sigma and q and sum(sh) % 2:
        sh[1] += 1
    kind = {0: "odd"}.get(sigma, "centre" if q else "half")
    grid = {"odd": 2, "centre": 8, "half": 4}[kind]
    if r.random() < 0.6:
        off = [grid * r.randint(-40 // grid, 40 // grid) for _ in range(2)]
    n = r.randint(1, 4)
    dtype, big, bg = pick(r, [("uint8", 40, r.randint(0, 50)), ("uint16", 900, r.randint(0, 3000)), ("uint8", 20, 0)])
    if crowd:
        sigma, sh, n, dtype, big, bg, q = 1, [8, 8], 40, "uint16", 900, 5, 0
        kind, grid = "half", 4
        off = [0, 0]
    amps, scalar = spots(r, n, big)
    most = pick(r, [3, 6, 10])
    t1, t2 = schedule(r, most, dual)
    how = 0 if crowd else r.randrange(4)
    field, dt, v = 0, (1, 1), [0, 0]
    x0, pos, used = points(r, n, sh, kind), [], [0]
    end = (max(t1 + t2) + 1) if how == 3 else pick(r, [most, most, max(t1 + t2) + 1, r.randint(1, most)])
    if how == 0:
        if crowd:
            same = points(r, 2, sh, kind)
            pos = [[same[i % 2] for i in range(n)] for _ in range(end)]
        else:
            pos = [points(r, n, sh, kind) for _ in range(end)]
        arrays = [arr(p) for p in pos]
        keep = [a.copy() for a in arrays]
        src = (a for a in arrays)
    else:
        dt = pick(r, [(1, 1), (2, 1), (1, 2)])
        field = int(kind != "half" and r.random() < 0.4 and dt[1] == 1)
        v = [grid * dt[1] * r.randint(-3, 3) for _ in range(2)]
        wk = dict(delta=0, velocity=field_of if field else (v[0] / 8, v[1] / 8), dt=dt[0] / dt[1], x0=arr(x0))
        arrays = keep = []
        if how == 1:
            src = s.brownian_walk(wk.pop("x0"), count=end, shape=tuple(sh), **wk)
        elif how == 2:
            src = s.brownian_particles(count=end, shape=tuple(sh), num_particles=n, **wk)

    def counting(it):
        for x in it:
            used[0] += 1
            yield x
    kw = dict(shape=tuple(sh), background=bg, dtype=pick(r, [dtype, np.dtype(dtype), getattr(np, dtype)]))
    kw["intensity"] = amps[0] if scalar else pick(r, [list, tuple, np.array])(amps)
    if bg == 0 and r.random() < 0.5:
        kw.pop("background")
    if dtype == "uint8" and r.random() < 0.4:
        kw.pop("dtype")
    T1 = pick(r, [list, tuple, np.array])(t1)
    T2 = pick(r, [list, tuple, np.array])(t2) if dual else None
    if dual or r.random() < 0.2:
        kw["t2"] = T2
    kw["sigma"] = sigma or None
    if sigma and r.random() < 0.3:
        kw["sigma"] = [float(sigma)] * n
    if off != [0, 0] or r.random() < 0.3:
        kw["offset"] = pick(r, [tuple, list, np.array])([off[0] / 8, off[1] / 8])
    if q or r.random() < 0.3:
        kw["rotation"] = q * pi / 2
    if how == 3:
        it = s.simple_brownian_video(T1, num_particles=n, **dict(kw, **wk))
    else:
        it = s.particles_video(counting(src), T1, **kw)
    out, reads, copies = [], [], []
    for fr in it:
        out.append(fr)
        reads.append(used[0])
        copies.append([f.copy() for f in fr])
        if len(out) > 50:
            break
    same = all(np.array_equal(a, b) for a, b in zip(arrays, keep)) and list(T1) == t1 and (not dual or list(T2) == t2)
    c.event(k="video", api="simple_brownian_video" if how == 3 else "particles_video", t1=t1, t2=t2, dual=dual, n=end, box=sh, shape=sh, off=off, quarter=q,
            bg=bg, amps=amps, sigma=sigma, pos=pos, x0=x0, v=v, field=field, dt=list(dt), out=[[ints(f) for f in fr] for fr in copies],
            reads=[] if how == 3 else reads, types=int(all(f.dtype == dtype for fr in out for f in fr)), same=int(same),
            kept=int(all(np.array_equal(a, b) for fr, cp in zip(out, copies) for a, b in zip(fr, cp))))
    if out:
        c.canary(["out", -1, -1, 0, 0], to=99999)
        if how != 3:
            c.canary(["reads", -1])


def crowd_case(c, s, r):
    video_case(c, s, r, crowd=True)


def refuse_case(c, s, r):
    def first(it):
        return next(iter(it))
    P = [np.full((2, 2), 2.0)]
    for _ in range(4):
        dt = pick(r, ["uint8", "uint16", "uint8", "uint16", "int32", "float64", "int8", "uint32"])
        top = {"uint8": 255, "uint16": 65535}.get(dt, 200)
        val = pick(r, [0, top, top + 1, -1, r.randint(0, top), 5])
        ok = dt in ("uint8", "uint16") and 0 <= val <= top
        arrv = r.random() < 0.3
        kw = dict(dtype=dt, intensity=[5, val] if arrv else val, sigma=pick(r, [None, 1]))
        which = r.randrange(3)
        if which == 0 and not arrv:
            _, err = c.call(s.form_factor, np.ones((8, 8)), sigma=1, intensity=val, navg=1, dtype=dt)
        elif which == 1:
            _, err = c.call(lambda: first(s.simple_brownian_video([0], num_particles=2, shape=(8, 8), **kw)))
        else:
            _, err = c.call(lambda: first(s.particles_video(P, [0], shape=(8, 8), **kw)))
        c.event(k="refuse", api="video", dtype=dt, value=val, valid=int(ok), raised=int(bool(err)), err=err)
        c.canary(["raised"], to=1 - int(bool(err)))
    x = np.ones((3, 2))
    num = r.randint(1, 4)
    mode = pick(r, ["rfft2", "fft2", "fft", "x"])
    model = pick(r, ["gaussian", "poisson", "none", "other", None])
    shp = pick(r, [(5, 5), (5,), (5, 5, 5)])
    for name, ok, fn in [
            ("walk-coordinates", 0, lambda: first(s.brownian_walk(np.ones(2), 3))),
            ("walk-shape", len(shp) == 2, lambda: first(s.brownian_walk(x, 3, shp))),
            ("transform-shape", len(shp) == 2, lambda: s.coordinate_transform(x, shp)),
            ("particles-x0", num == 3, lambda: first(s.brownian_particles(3, (8, 8), num, x0=x))),
            ("form-mode", mode in ("rfft2", "fft2"), lambda: s.form_factor(np.ones((8, 8)), 1, 5, 1, "uint8", mode)),
            ("noise-model", model in ("gaussian", "poisson", "none"), lambda: s.adc(x, noise_model=model))]:
        _, err = c.call(fn)
        c.event(k="refuse", api=name, valid=int(ok), raised=int(bool(err)), err=err)
        c.canary(["raised"], to=1 - int(bool(err)))


def trigger_case(c, s, r):
    for _ in range(3):
        n = r.randint(0, 12)
        idx = [r.randint(0, 14) for _ in range(r.randint(0, 6))]
        used, reads, out = [0], [], []

        def src():
            for i in range(n):
                used[0] += 1
                yield i
        for x in s.data_trigger(src(), pick(r, [list, tuple, np.array])(idx) if idx else []):
            out.append(int(x))
            reads.append(used[0])
        c.event(k="trigger", api="data_trigger", n=n, indices=idx, out=out, used=used[0], reads=reads)
        c.canary(["used"])


def times_case(c, s, r):
    s.seed(r.randrange(10 ** 6))
    for kind in range(3):
        n, num = pick(r, [1, 2, 3, 4, 5, 8, 16, 32]), r.randint(1, 30)
        gap = r.randint(1, n) if r.random() < 0.6 else 1
        kw = dict(n=n) if n != 32 or r.random() < 0.5 else {}
        if kind == 0:
            if gap != 1:
                kw["dt_min"] = gap
            t1, t2 = s.create_random_time(num, **kw), []
        else:
            t1, t2 = (s.create_random_times1, s.create_random_times2)[kind - 1](num, **kw)
        c.event(k="times", api="create_random_times", kind=kind, n=n, num=num, gap=gap, t1=ints(t1), t2=ints(np.asarray(t2)))
        c.canary(["t1", -1], to=99999)
    n, num = pick(r, [2, 3, 4, 5]), 3600
    for kind in range(3):
        if kind == 0:
            t1 = s.create_random_time(num, n)
            o1, t2, o2 = t1 - np.arange(num) * n, t1, []
            hist = np.bincount(o1, minlength=n)
        else:
            t1, t2 = (s.create_random_times1, s.create_random_times2)[kind - 1](num, n)
            b = np.arange(num) * 2 * n
            o1, o2 = t1 - b, sorted(set((t2 - b).tolist()))
            hist = np.bincount(o1, minlength=n)
        c.event(k="cover", api="create_random_times", kind=kind, n=n, num=num, root=60, o1=sorted(set(o1.tolist())), o2=o2,
                both=int((t1 == t2).sum()), hist=hist.tolist())
        c.canary(["hist", 0], to=99999)


def count_case(c, s, r):
    num, n = r.randint(1, 20), pick(r, [1, 2, 3, 4, 5, 8, 16, 32])
    out = s.random_time_count(num, n)
    c.event(k="count", api="random_time_count", num=num, n=n, out=np.rint(np.asarray(out) * n * n).astype(int).tolist())
    c.canary(["out", 0])


def form_case(c, s, r):
    navg = pick(r, [1, 2, 4, 8])
    sigma = 1
    amp = r.randint(1, 250)
    win = np.array([r.randint(0, 2) for _ in range(16)]).reshape((4, 4))
    if r.random() < 0.3:
        win[:] = 1
    mode = pick(r, ["rfft2", "fft2"])
    kw = {} if mode == "rfft2" and r.random() < 0.5 else dict(mode=mode)
    if r.random() < 0.5:
        kw["dtype"] = "uint16"
    out = s.form_factor(pick(r, [win, win.astype(float), win.tolist()]), sigma=sigma, intensity=amp, navg=navg, **kw)
    c.event(k="form", api="form_factor", navg=navg, sigma=sigma, amp=amp, win=win.tolist(), cols=3 if mode == "rfft2" else 4,
            out=ints(np.asarray(out) ** 2 * navg ** 2))
    c.canary(["out", 0, 0])


def main():
    what = sys.argv[2]
    R = Recorder(sys.argv[1])
    quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import cddm.sim as s
    reps = 10 if THOROUGH else 1

    def loop(name, num, fn):
        for i in range(num * reps):
            r = rng(name, i)
            def one(c, r=r):
                warnings.simplefilter("ignore")
                fn(c, s, r)
            R.case("%s-%d" % (name, i), one)
    if what == "walk":
        loop("walk", 80, walk_case)
        loop("box", 5, box_case)
        loop("scale", 40, scale_case)
        loop("seed", 3, seed_case)
        loop("transform", 60, transform_case)
        loop("refuse", 20, refuse_case)
        loop("trigger", 40, trigger_case)
        loop("times", 30, times_case)
        loop("count", 20, count_case)
    elif what == "noise":
        loop("noise", 8, noise_case)
        loop("adc", 60, adc_case)
        loop("form", 40, form_case)
    elif what == "video":
        loop("video", 200, video_case)
    elif what == "draw":
        loop("crowd", 6, crowd_case)
        loop("adc", 10, adc_case)
        loop("video", 20, video_case)
    R.done()


main()
