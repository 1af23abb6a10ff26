"""Wavevector maps and selections.  argv: trace file, half | k."""
import sys
import warnings
from math import atan2, degrees, gcd

import numpy as np

from geom import cx, frame_shape, gauss, pick, vden, vec
from rec import NAN, Recorder, ints, quiet, rng, THOROUGH


def typed(r, shape, dt):
    if dt == "bool":
        return np.array([r.random() < 0.5 for _ in range(int(np.prod(shape)))]).reshape(shape)
    return gauss(r, shape, real=dt[0] != "c").astype(dt)


def planes(a, ax):
    """array -> list of planes spanned by the two axes"""
    a = np.moveaxis(np.asarray(a), ax, (-2, -1))
    return a.reshape((-1,) + a.shape[-2:])


def layout(r, h, w):
    """shape, axes argument, the two axes"""
    lead = pick(r, [(), (), (2,), (2, 2)])
    where = r.randrange(3)
    if where == 0:
        return lead + (h, w), {}, (-2, -1)
    if where == 1:
        ax = (len(lead), len(lead) + 1)
        ax = ax if r.random() < 0.7 else ax[::-1]
        return lead + (h, w), dict(axes=ax), tuple(sorted(ax))
    n = r.randint(1, 3)
    if r.random() < 0.5:
        return lead + (h, w, n), dict(axes=(-3, -2)), (-3, -2)
    return (h, n, w), dict(axes=(0, 2)), (0, 2)


def half_case(c, m, r):
    for _ in range(4):
        h, w = r.randint(1, 8), r.randint(1, 8)
        shape, kw, ax = layout(r, h, w)
        dt = pick(r, ["complex128", "complex64", "float64", "float32", "int64", "int32", "bool"])
        x = typed(r, shape, dt)
        x0 = x.copy()
        X = cx(planes(x0, ax))
        fn = pick(r, ["data", "conj", "mask"] if dt == "bool" else ["data", "conj"])
        out = getattr(m, "as_rfft2_" + fn)(x, **kw)
        none = [0, 0] if dt == "bool" else [-1, 0] if dt[0] == "i" else [NAN, 0]
        c.event(k=dict(data="half", conj="conj", mask="mask")[fn], api="as_rfft2_" + fn, x=X, none=none,
                out=cx(planes(out, ax)), same=int(np.array_equal(x, x0)), dt=int(out.dtype == x0.dtype))
        c.canary(["out", -1, -1, -1, 0])


def full_case(c, m, r):
    for _ in range(4):
        h, w = r.randint(1, 8), r.randint(1, 8)
        crop = r.random() < 0.4
        kis, kjs = h, w // 2 + 1
        if crop:
            kis, kjs = r.randint(1, h), r.randint(1, w // 2 + 1)
        if not crop and w % 2 == 1 and r.random() < 0.3:
            sh = None
        elif r.random() < 0.15:
            sh = (r.randint(1, 8), r.randint(1, 8))
        else:
            sh = (h, w)
        if sh is None:
            W = 2 * kjs - 1
        else:
            W = sh[1] if 2 * kjs - 1 == sh[1] + 1 else 2 * kjs - 1
        shape, kw, ax = layout(r, kis, kjs)
        dt = pick(r, ["complex128", "complex64", "float64", "int64", "bool"])
        x = typed(r, shape, dt)
        if W % 2 == 0:
            # the column of the highest frequency holds conjugated pairs itself
            y = np.moveaxis(x, ax, (-2, -1))
            for i in range(kis):
                if (-i) % kis < i:
                    y[..., i, kjs - 1] = np.conj(y[..., (-i) % kis, kjs - 1])
                elif (-i) % kis == i and dt[0] == "c":
                    y[..., i, kjs - 1] = y[..., i, kjs - 1].real
        x0 = x.copy()
        if sh is not None or r.random() < 0.5:
            kw["shape"] = sh
        out, err = c.call(m.from_rfft2_data, x, **kw)
        c.event(k="full", api="from_rfft2_data", x=cx(planes(x0, ax)), sh=list(sh or (0, 0)), raised=int(bool(err)), err=err,
                out=[] if err else cx(planes(out, ax)), same=int(np.array_equal(x, x0)), dt=int(bool(err) or out.dtype == x0.dtype))
        if not err:
            c.canary(["out", -1, -1, -1, 0])
            if sh == (h, w) and not crop:
                back = m.as_rfft2_data(out, **({} if "axes" not in kw else dict(axes=kw["axes"])))
                c.event(k="half", api="round trip", x=cx(planes(out, ax)), out=cx(planes(x0, ax)), same=1, dt=int(back.dtype == x0.dtype))


def shape_case(c, m, r):
    for _ in range(6):
        sh = None if r.random() < 0.3 else (r.randint(1, 9), r.randint(1, 9))
        kis = None if r.random() < 0.3 else r.randint(1, 9)
        kjs = None if r.random() < 0.3 else r.randint(1, 6)
        out, err = c.call(m.as_fft2_shape, kis, kjs, sh)
        c.event(k="shape", api="as_fft2_shape", kis=kis or 0, kjs=kjs or 0, sh=list(sh or (0, 0)), raised=int(bool(err)), err=err,
                out=[] if err else [int(i) for i in out])
        if not err:
            c.canary(["out", 0])


def size(r, nmax):
    h, w = r.randint(1, nmax), r.randint(1, nmax)
    return (h, w) if r.random() < 0.7 else (h, h)


def grid_case(c, m, r):
    mode = pick(r, ["fft2", "rfft2"])
    h, w = size(r, 9)
    sh = frame_shape(r, h, w)
    cols = w if mode == "fft2" else w // 2 + 1
    kw = dict(kisize=h, kjsize=cols)
    known = 1
    if r.random() < 0.3:
        if sh is not None:
            h, w = sh
            cols = w if mode == "fft2" else w // 2 + 1
        else:
            known = 0
        for k in pick(r, [["kisize"], ["kjsize"], ["kisize", "kjsize"]]):
            del kw[k]
        if sh is not None:
            kw.update({k: v for k, v in dict(kisize=h, kjsize=cols).items() if k in kw})
    if sh is not None:
        kw["shape"] = sh
    g, err = c.call(getattr(m, mode + "_grid"), **kw)
    ka, err2 = c.call(getattr(m, mode + "_kangle"), **kw)
    D = vden(sh)
    e = c.event(k="grid", api=mode + "_kangle", mode=mode, h=h, cols=cols, sh=list(sh or (0, 0)), known=known,
                raised=int(bool(err or err2)), err=err or err2, grid=[], k2=[], dir=[])
    if not e["raised"]:
        k, a = ka
        e.update(grid=ints(np.stack([g[0], g[1]], -1), D, 1e-9), k2=ints(k ** 2, D * D, 1e-9),
                 dir=ints(np.stack([k * np.cos(a), k * np.sin(a)], -1), D, 1e-9))
        c.canary(["grid", -1, -1, 1])
        c.canary(["k2", 0, -1])
        c.canary(["dir", -1, -1, 1])


def direction(r, big):
    n = 40 if big else 4
    while True:
        v = (r.randint(-n, n), r.randint(-n, n))
        if v != (0, 0) and gcd(*v) == 1:
            return v


def sector(r, big=False):
    """edges lo, hi and the angle and width in degrees"""
    while True:
        lo = direction(r, big)
        hi = direction(r, big) if r.random() < 0.9 or big else (-lo[0], -lo[1])
        cr = lo[0] * hi[1] - lo[1] * hi[0]
        if cr < 0:
            lo, hi = hi, lo
        if cr == 0 and (hi == lo or big):
            continue
        a, b = degrees(atan2(lo[1], lo[0])), degrees(atan2(hi[1], hi[0]))
        if hi == (-lo[0], -lo[1]):
            b = a + 180
        if b < a:
            b += 360
        mid = (a + b) / 2
        if mid > 180:
            mid -= 360
        return lo, hi, mid, min(180.0, b - a)


STEPS = [(1, 1), (1, 1), (1, 1), (2, 1), (3, 1), (3, 2), (1, 2)]


def index_case(c, m, r):
    for _ in range(2):
        h, w = size(r, 9)
        sh = frame_shape(r, h, w)
        lo, hi, ang, sec = sector(r)
        st = pick(r, STEPS)
        kw = dict(angle=ang, sector=sec, kstep=st[0] / st[1])
        if sh is not None:
            kw["shape"] = sh
        how = r.randrange(4)
        cols, mode = w, "full"
        if how == 0:
            out, err = c.call(m.fft2_k_indexmap, h, w, mode="fft2", **kw)
        elif how == 1:
            k, a = m.fft2_kangle(h, w, sh)
            kw.pop("shape", None)
            out, err = c.call(m.fft2_sector_indexmap, k, a, **kw)
        elif how == 2:
            half = w // 2 + 1
            cols = 2 * half - 1
            if sh is not None:
                cols = sh[1] if cols == sh[1] + 1 else cols
            if sh is not None and cols > sh[1]:
                continue
            if r.random() < 0.5:
                kw["mode"] = "rfft2"
            out, err = c.call(m.fft2_k_indexmap, h, half, **kw)
        else:
            mode, cols = "half", w // 2 + 1
            if ang > 90:
                ang, lo, hi = ang - 180, (-lo[0], -lo[1]), (-hi[0], -hi[1])
            elif ang < -90:
                ang, lo, hi = ang + 180, (-lo[0], -lo[1]), (-hi[0], -hi[1])
            kw["angle"] = ang
            if r.random() < 0.5:
                out, err = c.call(m.k_indexmap, h, cols, **kw)
            else:
                k, a = m.rfft2_kangle(h, cols, sh)
                kw.pop("shape", None)
                out, err = c.call(m.sector_indexmap, k, a, **kw)
        c.event(k="index", api="indexmap", mode=mode, h=h, cols=cols, sh=list(sh or (0, 0)), lo=list(lo), hi=list(hi), step=list(st),
                raised=int(bool(err)), err=err, out=[] if err else ints(out), angle=str(ang), sector=str(sec))
        if not err:
            c.canary(["out", 0, 0])


def range_case(c, m, r):
    for _ in range(4):
        fn, lim = pick(r, [("fft2_sector_indexmap", 180), ("sector_indexmap", 90)])
        a = pick(r, [lim, -lim, lim + 1, -lim - 1, r.randint(-200, 200), 0])
        s = pick(r, [0, 180, 181, -5, r.randint(1, 200), 30])
        k, an = m.fft2_kangle(5, 5)
        _, err = c.call(getattr(m, fn), k, an, a, s)
        c.event(k="range", api=fn, angle=a, sector=s, lim=lim, raised=int(bool(err)), err=err)
        c.canary(["raised"], to=1 - int(bool(err)))


def tiles_case(c, m, r):
    """sectors side by side all around, starting anywhere: every wavevector is in exactly one"""
    h, w = size(r, 12)
    sh = frame_shape(r, h, w)
    half = r.random() < 0.3
    turn = 180 if half else 360
    n = pick(r, [2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 18, 20, 24, 30, 36, 40, 60, 72, 90])
    n = {8: 1, 24: 45, 40: 2, 60: 3, 72: 4, 90: 6}.get(n, n) if half else n
    s = turn / n
    off = pick(r, [0, 0, s / 2, s / 4, 10, 15, 22.5, 30, 45, 90])
    st = pick(r, STEPS)
    cols = w // 2 + 1 if half else w
    count = np.zeros((h, cols), int)
    for i in range(n):
        a = -turn / 2 + s / 2 + off + i * s
        if a > turn / 2 or (a == turn / 2 and r.random() < 0.5):
            a -= turn
        if half:
            k, an = m.rfft2_kangle(h, cols, sh)
            out = m.sector_indexmap(k, an, a, s, st[0] / st[1])
        else:
            out = m.fft2_k_indexmap(h, w, a, s, st[0] / st[1], shape=sh, mode="fft2")
        count += (out >= 0)
    c.event(k="tiles", api="indexmap", mode="half" if half else "full", h=h, w=cols, n=n, off=str(off), out=ints(count))
    if cols > 1:
        c.canary(["out", 0, cols - 1])


def on_edge(h, w, sh, lo, hi, st):
    D, num, den = vden(sh), st[0], st[1]
    for i in range(h):
        for j in range(w):
            v = vec(i, j, h, w, sh)
            if v == (0, 0):
                continue
            if lo[0] * v[1] - lo[1] * v[0] == 0 or hi[0] * v[1] - hi[1] * v[0] == 0:
                return True
            k2 = 4 * (v[0] ** 2 + v[1] ** 2) * den * den
            q = k2 / (num * D) ** 2
            root = int(round(q ** 0.5))
            if any(k2 == (num * D * t) ** 2 for t in (root - 1, root, root + 1) if t % 2):
                return True
    return False


def doubled(h, w, sh, lo, hi):
    """even height: is there a half-plane entry of the highest frequency that
    stands for two wavevectors of the sector?"""
    def inside(v):
        return lo[0] * v[1] - lo[1] * v[0] > 0 and v[0] * hi[1] - v[1] * hi[0] > 0
    return h % 2 == 0 and any(inside(vec(h // 2, j, h, w, sh)) and inside(vec(h // 2, -j % w, h, w, sh)) for j in range(1, w))


def select_case(c, m, r):
    mode = pick(r, ["rfft2", "rfft2", "fft2"])
    while True:
        h, w = r.randint(1, 7), r.randint(1, 7)
        if mode == "rfft2" and w % 2 == 0:
            w -= 1
        sh = frame_shape(r, h, w)
        if sh is not None and mode == "rfft2" and sh[1] % 2 == 0 and w + 1 > sh[1]:
            continue
        if sh is not None and mode == "rfft2" and w == sh[1] + 1:
            continue
        lo, hi, ang, sec = sector(r, True)
        st = pick(r, STEPS[:5])
        if on_edge(h, w, sh, lo, hi, st) or (mode == "rfft2" and doubled(h, w, sh, lo, hi)):
            continue
        break
    cols = w // 2 + 1 if mode == "rfft2" else w
    lead = pick(r, [(), (), (2,)])
    n = r.randint(1, 2)
    real = r.random() < 0.2
    x = gauss(r, lead + (h, cols, n), real=real)
    if r.random() < 0.25:
        for _ in range(r.randint(1, 4)):
            x[..., r.randrange(h), r.randrange(cols), r.randrange(n)] = np.nan
    kw = dict(sector=sec, kstep=st[0] / st[1])
    if sh is not None:
        kw["shape"] = sh
    if mode != "rfft2" or r.random() < 0.3:
        kw["mode"] = mode
    mask = np.ones((h, cols), bool)
    data = x
    if r.random() < 0.4:
        mask = np.array([r.random() < 0.6 for _ in range(h * cols)]).reshape(h, cols)
        kw["mask"] = mask
        if r.random() < 0.7:
            data = x[..., mask, :]
            if data.shape[-3:-1] == mask.shape:
                data, kw["mask"] = x, mask
    top = int(round((h ** 2 + w ** 2) ** 0.5 * 3)) + 2
    q = r.randrange(4)
    if q <= 1:
        want = list(range(top))
        if r.random() < 0.3:
            kw["k"] = None
    elif q == 2:
        want = [r.randint(0, 6) for _ in range(r.randint(0, 4))]
        kw["k"] = pick(r, [list, tuple, np.array])(want) if want else []
        if want and r.random() < 0.3:
            kw["k"] = [k + pick(r, [0, 0.25, -0.25]) for k in want]
    else:
        want = [r.randint(0, 5)]
        kw["k"] = want[0]
    d0 = data.copy()
    out = m.k_select(data, ang, **kw)
    if q == 3:
        out = () if out is None else (out,)
    res = []
    for kv, dv in out:
        dv = np.asarray(dv).reshape((-1, n))
        o = np.stack([dv.real, dv.imag if dv.dtype.kind == "c" else 0 * dv.real], -1)
        nan = np.isnan(o).any(-1)
        o = np.rint(np.where(np.isnan(o), 0, o) * 1000).astype(int)
        o[nan] = NAN
        res.append(dict(k=int(round(float(kv) * 1000)), out=o.tolist()))
    c.event(k="select", api="k_select", mode=mode, h=h, w=w, sh=list(sh or (0, 0)), lo=list(lo), hi=list(hi), step=list(st),
            x=[[[[t for t in cell] for cell in row] for row in p] for p in [cx(q) for q in x.reshape((-1, h, cols, n))]],
            mask=ints(mask), want=want, out=res, same=int(np.array_equal(data, d0, equal_nan=True)))
    if res:
        c.canary(["out", -1, "k"], to=999999)
        c.canary(["out", -1, "out", 0, 0, 0], to=999999)


def point_case(c, m, r):
    h, w = pick(r, [1, 2, 4]), pick(r, [1, 2, 4])
    win = gauss(r, (h, w), real=True)
    ki, kj = r.randrange(h), r.randrange(w)
    w0 = win.copy()
    if r.random() < 0.4:
        ki, kj = ki - h, kj - w
    out = m.k_point_kernel(win, ki, kj)
    c.event(k="point", api="k_point_kernel", h=h, w=w, ki=ki % h, kj=kj % w, win=ints(w0), out=cx(out), same=int(np.array_equal(win, w0)))
    c.canary(["out", 0, 0, 0])


def plot_case(c, m, r):
    import matplotlib.pyplot as plt
    h, w = r.randint(1, 8), r.randint(1, 6)
    x = np.array([r.randint(-1, 9) for _ in range(h * w)]).reshape(h, w)
    mode = pick(r, ["rfft2", "fft2", "fft2", "fft"])
    plt.close("all")
    kw = {} if mode == "rfft2" and r.random() < 0.5 else dict(mode=mode)
    _, err = c.call(m.plot_indexmap, x, **kw)
    e = c.event(k="plot", api="plot_indexmap", mode=mode, x=ints(x), raised=int(bool(err)), err=err, out=[], extent=[])
    if not err:
        im = plt.gcf().axes[0].images[0]
        e.update(out=ints(np.asarray(im.get_array())), extent=[int(i) for i in im.get_extent()])
        c.canary(["out", 0, 0])
    plt.close("all")


def main():
    what = sys.argv[2]
    R = Recorder(sys.argv[1])
    quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import cddm.map as m
    reps = 12 if THOROUGH else 1

    def loop(name, num, fn):
        for i in range(num * reps):
            r = rng(name, i)
            def one(c, r=r):
                warnings.simplefilter("ignore")
                fn(c, m, r)
            R.case("%s-%d" % (name, i), one)
    if what == "half":
        loop("half", 150, half_case)
        loop("full", 150, full_case)
        loop("shape", 50, shape_case)
    else:
        loop("grid", 100, grid_case)
        loop("index", 200, index_case)
        loop("range", 30, range_case)
        loop("tiles", 100, tiles_case)
        loop("select", 250, select_case)
        loop("point", 30, point_case)
        loop("plot", 30, plot_case)
    R.done()


main()
