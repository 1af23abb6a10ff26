"""Fourier transforms of videos.  argv: trace file."""
import sys
import warnings

import numpy as np

from rec import Recorder, ints, quiet, rng, THOROUGH

LIBS = ["numpy", "scipy", "pyfftw"]


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def cx(a, scale=1):
    """complex array -> nested lists with [re, im] leaves"""
    a = np.asarray(a)
    return ints(np.stack([a.real, a.imag], -1), scale, 1e-9 if a.dtype in (np.complex128, np.float64) else 1e-6)


def gauss(r, shape, m=9, real=False):
    n = int(np.prod(shape))
    a = np.array([r.randint(-m, m) for _ in range(n)], float)
    if not real:
        a = a + 1j * np.array([r.randint(-m, m) for _ in range(n)])
    return a.reshape(shape)


def kmax(r, n):
    return pick(r, [-1, 0, 1, n // 2, n // 2, n // 2 - 1, n // 2 + 1, r.randint(0, n)])


def none(k):
    return None if k < 0 else k


def args(r, ki, kj):
    form = r.randrange(3)
    if form == 0:
        return (none(ki), none(kj)), {}
    if form == 1:
        return (), dict(kimax=none(ki), kjmax=none(kj))
    kw = {}
    if ki >= 0:
        kw["kimax"] = ki
    if kj >= 0:
        kw["kjmax"] = kj
    return (), kw


def crop_case(c, fft, r):
    for _ in range(4):
        mode = pick(r, ["rfft2", "fft2"])
        h, w = r.randint(1, 9), r.randint(1, 9)
        lead = pick(r, [(), (), (2,), (2, 2), (3,), (1,)])
        x = gauss(r, lead + (h, w), 99)
        dt = pick(r, ["complex128", "complex64", "float64", "int64"])
        x = np.asarray(x if dt[0] == "c" else x.real, dt)
        ki, kj = max(-1, kmax(r, h)), max(-1, kmax(r, w))
        if r.random() < 0.3:
            x = np.asfortranarray(x)
        x0 = x.copy()
        a, kw = args(r, ki, kj)
        y = x.tolist() if r.random() < 0.1 and (ki >= 0 or kj >= 0) and dt in ("complex128", "float64", "int64") else x
        out, err = c.call(getattr(fft, mode + "_crop"), y, *a, **kw)
        ev = dict(k="crop", api=mode + "_crop", mode=mode, ki=ki, kj=kj, x=cx(x0.reshape((-1, h, w))), raised=int(bool(err)), err=err,
                  out=[], lead=0, dt="", dt0=dt, same=int(np.array_equal(x, x0)))
        if out is not None:
            ev.update(out=cx(out.reshape((-1,) + out.shape[-2:])), lead=int(out.shape[:-2] == lead), dt=str(out.dtype))
        c.event(**ev)
        if out is not None and out.size:
            c.canary(["out", 0, 0, 0, 0])


def video_case(c, fft, conf, r):
    mode = pick(r, ["rfft2", "fft2"])
    lib = pick(r, LIBS)
    old1, old2 = conf.set_fftlib(lib), conf.set_rfft2lib(lib)
    try:
        h, w = pick(r, [1, 2, 4, 4]), pick(r, [1, 2, 4, 4])
        n, ncam = r.randint(0, 3), r.randint(1, 2)
        dt = pick(r, ["float64", "float64", "float32", "int64", "uint8", "complex128", "int16"])
        if dt == "complex128" and lib == "scipy" and mode == "rfft2":
            dt = "float64"
        video = [tuple(gauss(r, (h, w), 9, real=dt != "complex128") for _ in range(ncam)) for _ in range(n)]
        video = [tuple((np.abs(f) if dt == "uint8" else f).astype(dt) for f in fs) for fs in video]
        cols = w // 2 + 1 if mode == "rfft2" else w
        ki, kj = max(-1, kmax(r, h)), max(-1, kmax(r, cols))
        copy = [tuple(f.copy() for f in fs) for fs in video]
        a, kw = args(r, ki, kj)
        over = r.random() < 0.2
        if over:
            kw["overwrite_x"] = True
        taken = []
        src = (taken.append(1) or fs for fs in video)
        out, ahead, err = [], 0, ""
        name = mode if r.random() < 0.1 else mode + "_video"
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                it = getattr(fft, name)(src, *a, **kw)
            for fs in it:
                out.append(fs)
                ahead = max(ahead, len(taken) - len(out))
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
        same = over or all(np.array_equal(f, g) for fs, gs in zip(video, copy) for f, g in zip(fs, gs))
        c.event(k="video", api=name, lib=lib, mode=mode, ki=ki, kj=kj, raised=int(bool(err)), err=err,
                x=[[cx(f) for f in fs] for fs in copy], out=[] if err else [[cx(f) for f in fs] for fs in out],
                dt=int(all(np.asarray(f).dtype == (np.complex64 if dt == "float32" and mode == "fft2" else np.complex128)
                           or mode == "fft2" for fs in out for f in fs)),
                same=int(same), ahead=ahead)
        if out and not err and out[0][0].size:
            c.canary(["out", -1, -1, 0, 0, 1])
    finally:
        conf.set_fftlib(old1)
        conf.set_rfft2lib(old2)


def libs_case(c, fft, conf, r):
    """the same transform with every library"""
    mode = pick(r, ["rfft2", "fft2"])
    h, w = r.randint(1, 12), r.randint(1, 12)
    x = gauss(r, (h, w), 9, real=True)
    ki = pick(r, [None, r.randint(0, h // 2)])
    kj = pick(r, [None, r.randint(0, w // 2)])
    res = {}
    x0 = x.copy()
    for lib in LIBS:
        old1, old2 = conf.set_fftlib(lib), conf.set_rfft2lib(lib)
        res[lib] = list(getattr(fft, mode + "_video")([(x,)], ki, kj))[0][0]
        conf.set_fftlib(old1)
        conf.set_rfft2lib(old2)
    # direct sum
    i, j = np.arange(h), np.arange(w)
    full = np.exp(-2j * np.pi * np.outer(i, i) / h) @ x0 @ np.exp(-2j * np.pi * np.outer(j, j) / w)
    ref = full[:, :w // 2 + 1] if mode == "rfft2" else full
    ref = getattr(fft, mode + "_crop")(ref, ki, kj)
    rnd = lambda a: np.rint(np.stack([a.real, a.imag]).ravel() * 1000).astype(int).tolist()
    for lib in LIBS:
        c.event(k="libs", api="libs", a=rnd(res[lib]), b=rnd(ref), same=int(np.array_equal(x, x0)))
        c.canary(["a", 0], to=10 ** 7)


def norm_case(c, fft, r):
    n, ncam = r.randint(1, 3), r.randint(1, 2)
    h, w = r.randint(1, 4), r.randint(1, 4)
    video = []
    for _ in range(n):
        fs = []
        for _ in range(ncam):
            f = gauss(r, (h, w), 9)
            f[0, 0] = pick(r, [1, 2, 4, 8, -2, 2j, -1j, 1 + 1j, 2 - 2j, -4j])
            fs.append(f)
        video.append(tuple(fs))
    x = [[cx(f) for f in fs] for fs in video]
    kw, want, inplace = {}, "complex128", 0
    if r.random() < 0.4:
        kw["inplace"], inplace = True, 1
    elif r.random() < 0.4:
        want = kw["dtype"] = pick(r, ["complex64", "complex128"])
    out = list(fft.normalize_fft(iter(video), **kw))
    c.event(k="normfft", api="normalize_fft", x=x, inplace=inplace, out=[[cx(f, 8) for f in fs] for fs in out],
            src=[[cx(f, 8) for f in fs] for fs in video], dt=str(out[0][0].dtype), wantdt=want)
    c.canary(["out", 0, 0, -1, -1, 0])


def image_ok(x, mode, clip):
    """can the image be recorded exactly?"""
    f = np.fft.rfft2(x)
    y = dict(real=f.real, imag=f.imag, abs=np.abs(f))[mode]
    y = np.array(y)
    y[0, 0] = 0
    if not np.allclose(y, np.rint(y)) or y.max() > 400:
        return False
    m = int(round(y.max())) if clip == 0 else clip
    return 1 <= m <= 10 or (m > 0 and 2520 % m == 0)


def image_frame(r, mode, clip):
    for _ in range(200):
        h, w = pick(r, [2, 4, 4, 1]), pick(r, [2, 4, 4, 1])
        x = np.array([r.randint(0, 3) for _ in range(h * w)], float).reshape(h, w)
        if image_ok(x, mode, clip):
            return x
    return None


def image_case(c, v, r):
    mode = pick(r, ["real", "imag", "abs", "abs"])
    clip = pick(r, [0, 0, 1, 2, 3, 5, 7, 10])
    x = image_frame(r, mode, clip)
    if x is None:
        c.event(k="imagemode", api="norm_rfft2", mode=mode, raised=0)
        return
    kw = {}
    if clip:
        kw["clip"] = clip
    if mode != "real" or r.random() < 0.5:
        kw["mode"] = mode
    f = v.norm_rfft2(**kw)
    for _ in range(2):
        c.event(k="image", api="norm_rfft2", x=cx(x), mode=mode, clip=clip, out=ints(f(x.copy()), 5040))
        c.canary(["out", 0, 0])
    _, err = c.call(v.norm_rfft2, mode="phase")
    c.event(k="imagemode", api="norm_rfft2", mode="phase", raised=int(bool(err)))


def shown_case(c, v, r):
    mode = pick(r, ["real", "imag", "abs", "abs"])
    clip = pick(r, [0, 0, 2, 5])
    n, ncam = r.randint(1, 4), r.randint(1, 2)
    cam = r.randrange(ncam)
    x = image_frame(r, mode, clip)
    frames = []
    for _ in range(n):
        y = None
        while y is None or y.shape != x.shape:
            y = image_frame(r, mode, clip)
        fs = [np.zeros_like(y) for _ in range(ncam)]
        fs[cam] = y
        frames.append(tuple(fs))
    import matplotlib.pyplot as plt
    kw = dict(id=cam, title="fft")
    if clip:
        kw["clip"] = clip
    if mode != "abs" or r.random() < 0.5:
        kw["mode"] = mode
    ims, ok = [], 1
    for k, f in enumerate(v.play(v.show_fft(iter(frames), **kw), max_delay=1e9)):
        ok = ok and all(np.array_equal(a, b) for a, b in zip(f, frames[k]))
        im = []
        for i in plt.get_fignums():
            for ax in plt.figure(i).axes:
                if ax.images and ax.get_title() == "fft":
                    im = ints(np.asarray(ax.images[0].get_array()), 5040)
        ims.append(im)
    c.event(k="shown", api="show_fft", x=[cx(f[cam]) for f in frames], mode=mode, clip=clip, im=ims, ok=int(ok))
    c.canary(["im", -1, 0, 0])


def dls_case(c, fft, conf, r):
    lib = pick(r, LIBS)
    old = conf.set_fftlib(lib)
    try:
        h, w = pick(r, [1, 2, 4]), pick(r, [1, 2, 4])
        x, win = gauss(r, (h, w), 5, real=True), gauss(r, (h, w), 3, real=True)
        multi = r.randrange(2)
        kv = [[r.randint(-h + 1, h - 1), r.randint(-w + 1, w - 1)] for _ in range(r.randint(1, 3) if multi else 1)]
        x0, w0 = x.copy(), win.copy()
        one = int(r.random() < 0.3)
        kw = dict(kimax=0, kjmax=0) if one else {}
        k = kv if multi else kv[0]
        k = np.array(k) if r.random() < 0.5 else k
        if r.random() < 0.5:
            out = fft.dls(x, win, k, **kw)
        else:
            n = r.randint(1, 2)
            outs = list(fft.dls_video([(x,)] * n, win, k, **kw))
            out = outs[-1][0]
            if len(outs) != n:
                out = np.zeros((1, 1))
        out = np.asarray(out)
        if not multi:
            out = out[None]
        c.event(k="dls", api="dls", x=cx(x0), win=cx(w0), kv=kv, out=[cx(o) for o in out], one=one,
                same=int(np.array_equal(x, x0) and np.array_equal(win, w0)))
        c.canary(["out", 0, 0, 0, 0])
    finally:
        conf.set_fftlib(old)


def main():
    R = Recorder(sys.argv[1])
    quiet()
    warnings.simplefilter("ignore")
    import cddm.conf as conf
    import cddm.fft as fft
    import cddm.video as v
    conf.set_showlib("matplotlib")
    reps = 15 if THOROUGH else 1
    def loop(name, num, fn):
        for i in range(num * reps):
            r = rng(name, i)
            R.case("%s-%d" % (name, i), lambda c, r=r: fn(c, r))
    loop("crop", 120, lambda c, r: crop_case(c, fft, r))
    loop("video", 120, lambda c, r: video_case(c, fft, conf, r))
    loop("libs", 60, lambda c, r: libs_case(c, fft, conf, r))
    loop("normfft", 40, lambda c, r: norm_case(c, fft, r))
    loop("image", 60, lambda c, r: image_case(c, v, r))
    loop("shown", 20, lambda c, r: shown_case(c, v, r))
    loop("dls", 60, lambda c, r: dls_case(c, fft, conf, r))
    R.done()


main()
