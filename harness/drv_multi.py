"""Multiple-tau and iterative correlators.

argv: trace file, focus in {inmem, linear, multi, stats, mask}."""
import sys

import numpy as np

from rec import Recorder, dress, ints, is_complex, quiet, re_im, rng, shape_of, THOROUGH

ALL = "return"


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def gen(r, T, frame, M, amp=3, real=False):
    size = int(np.prod((T,) + frame))
    low = 0 if real and r.random() < 0.5 else -amp
    f = np.array([M * r.randint(low, amp) for _ in range(size)], "float64")
    if not real:
        f = f + 1j * np.array([M * r.randint(-amp, amp) for _ in range(size)], "float64")
    return f.reshape((T,) + frame)


def settle(f, h, q):
    """Change frame 0 so that the sum of the first h frames is a multiple of h*q."""
    s = f[:h].sum(0)
    m = h * q
    f[0] -= np.mod(s.real, m)
    if f.dtype.kind == "c":
        f[0] -= 1j * np.mod(s.imag, m)
    return f


def pixmajor(f, sel=None):
    g = np.moveaxis(f, 0, -1).reshape((-1, f.shape[0]))
    if sel is not None:
        g = g[[s - 1 for s in sel]]
    return re_im(g)


def one(x, lead=0):
    """raw tuple -> observed record (last axis delay, `lead` level axes are removed by caller)."""
    diff = len(x) == 4
    if diff:
        cor, cnt, m1, m2 = x
        sq = None
    else:
        cor, cnt, sq, m1, m2 = x
    o = dict(ocre=[], ocim=[], ocnt=[], osq=[], om1r=[], om1i=[], om2r=[], om2i=[])
    flat = lambda a: np.asarray(a).reshape((-1, np.shape(a)[-1]))
    cr, ci = re_im(flat(cor))
    o["ocre"], o["ocim"] = cr, (ci if is_complex(cor) else [])
    o["ocnt"] = ints(cnt)
    if sq is not None:
        o["osq"] = ints(flat(sq))
    if m1 is not None:
        o["om1r"], o["om1i"] = re_im(flat(m1))
    if m2 is not None:
        o["om2r"], o["om2i"] = re_im(flat(m2))
    return o


def meta(x):
    if len(x) == 4:
        sh = [shape_of(x[0]), shape_of(x[1]), [-1], shape_of(x[2]), shape_of(x[3])]
    else:
        sh = [shape_of(i) for i in x]
    return dict(sh=sh, ctype=is_complex(x[0]))


def obs_fast(x):
    return dict(one(x), **meta(x))


def obs_slow(x):
    d = meta(x)
    d["lv"] = [one(tuple(None if a is None else a[j] for a in x)) for j in range(x[0].shape[0])]
    return d


NO_SLOW = dict(sh=[[-1]] * 5, ctype=0, lv=[])
NO_FAST = dict(sh=[[-1]] * 5, ctype=0, ocre=[], ocim=[], ocnt=[], osq=[], om1r=[], om1i=[], om2r=[], om2i=[])


def obs_stats(bg, var, auto, N):
    o = dict(N=N, bg2r=[], bg2i=[], var2=[])
    if auto:
        bg, var = (bg,), (var,)
    o["ssh"] = [shape_of(x) for x in tuple(bg) + tuple(var)]
    for k in range(len(bg)):
        b = np.asarray(bg[k]).reshape((-1, 1))
        v = np.asarray(var[k]).reshape((-1, 1))
        o["bg%dr" % (k + 1)], o["bg%di" % (k + 1)] = re_im(b, N)
        o["var%d" % (k + 1)] = ints(v, N * N, tol=1e-6)
    return o


NO_STATS = dict(N=0, ssh=[], bg1r=[], bg1i=[], var1=[], bg2r=[], bg2i=[], var2=[])


class FakeViewer(object):
    """Records a copy of everything it is shown."""

    def __init__(self):
        self.seen = []
        self.plots = 0

    def set_data(self, data, background=None, variance=None):
        cp = lambda x: None if x is None else (x.copy() if isinstance(x, np.ndarray) else tuple(cp(i) for i in x))
        self.seen.append((cp(data), cp(background), cp(variance)))

    def plot(self):
        self.plots += 1


class Source(object):
    """A video: counts the frames that were taken."""

    def __init__(self, frames, sized):
        self.frames, self.taken = frames, 0
        if sized:
            self.__class__ = SizedSource

    def __iter__(self):
        for f in self.frames:
            self.taken += 1
            yield f


class SizedSource(Source):
    def __len__(self):
        return len(self.frames)


def norms(r, diff, auto):
    if diff:
        n = 2 if auto else pick(r, [2, 6, None])
        return n, (2 if auto else {None: 6}.get(n, n))
    n = pick(r, [1, 2, 3, 5, 6, 7, 7, None])
    return n, (7 if n is None else n)


def mask_of(r, frame):
    while True:
        m = np.array([r.random() < 0.6 for _ in range(int(np.prod(frame)))]).reshape(frame)
        if m.any():
            return m


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def config(r, focus, inmem, multi, auto, method, cplx, ndim, long=False, choose=False):
    diff = 1 if method == "diff" else 0
    frame = {0: (), 1: (pick(r, [1, 2, 3]),), 2: (pick(r, [1, 2]), pick(r, [1, 2])), 3: (2, 1, 2)}[ndim]
    if focus == "mask":
        frame = {1: (4,), 2: pick(r, [(2, 3), (3, 2), (2, 2)]), 3: (2, 1, 3)}[ndim]
    if long:
        frame = {"mask": (3,)}.get(focus, (1,))
    P = int(np.prod(frame))
    norm, eff = norms(r, diff, auto)
    if choose:
        norm = eff = pick(r, [5, 7, 7])
    g = dict(ident=0, auto=auto, cplx=cplx, diff=diff, norm=eff, inmem=inmem, multi=multi, period=1, bgsub=0,
             irr=0, t1=[], t2=[], full=1, half=-1, stats=0, asked=-1, P=P, sel=list(range(1, P + 1)),
             fshape=list(frame))
    kw = dict(norm=norm, method=method, complex=bool(cplx))
    if inmem:
        g["lsize"] = pick(r, [5, 6, 8])
        g["T"] = g["count"] = r.randint(g["lsize"], 45)
        if long:
            g["lsize"] = pick(r, [8, 16, 16, 24])
            g["T"] = g["count"] = pick(r, [100, 128, 200, 255, 256, 257, r.randint(100, 300)])
        if multi and r.random() < 0.5:
            mx = 0
            while g["T"] // 2 ** (mx + 1) >= 1:
                mx += 1
            g["asked"] = r.randint(0, min(mx, 4))
            kw["nlevel"] = g["asked"]
        kw["level_size"] = g["lsize"]
        L = g["asked"]
        if L < 0:
            L = 0
            while g["T"] // 2 ** (L + 1) >= g["lsize"]:
                L += 1
        if r.random() < 0.5:
            g["period"] = pick(r, [1, 2, 3])
            kw["period"] = g["period"]
            g["irr"] = 1 if g["period"] > 1 or r.random() < 0.5 else 0
    else:
        half = pick(r, [2, 4, 4, 8]) if choose else pick(r, [2, 3, 4, 4, 5, 8] if not THOROUGH else [2, 3, 4, 5, 6, 7, 8, 8, 12])
        g["lsize"] = r.randint(max(1, half - 3), half)
        top = 8 * half + 3 if half <= 5 else 4 * half + 3
        if choose:
            g["lsize"] = r.randint(1, min(half, 3))
            top = 40
        g["count"] = r.randint(half, top)
        if r.random() < 0.6:
            k = 1
            while 2 * k * half <= g["count"]:
                k *= 2
            g["count"] = k * half
        g["half"] = half
        if long:
            # the default chunk size halves the length until it is at most 128 or the level does not fit twice
            g["lsize"] = pick(r, [6, 16, 16, 33, 64, 65, 100, 130])
            g["half"] = -1
            g["count"] = max(g["lsize"], pick(r, [128, 129, 200, 256, 257, 258, 270, 300, 320]))
        elif r.random() < 0.12 and not choose:
            g["half"] = -1
            g["count"] = max(g["count"], g["lsize"])
        else:
            kw["chunk_size"] = half
        if multi:
            kw["level_size"] = g["lsize"]
            g["asked"] = pick(r, [-1, -1, 0, 1, 2, 6])
            if g["asked"] >= 0:
                kw["nlevel"] = g["asked"]
            if r.random() < 0.4 and g["lsize"] <= 16:
                g["irr"] = 1
                g["period"] = pick(r, [1, 2, 3])
                kw["period"] = g["period"]
            elif 2 * g["lsize"] <= (half if g["half"] > 0 else g["count"]) and r.random() < 0.5:
                g["period"] = kw["period"] = 2
        else:
            g["asked"] = 0
            kw["n"] = g["lsize"]
            g["irr"] = int(r.random() < 0.4 and g["lsize"] <= 16)
        if r.random() < 0.25:
            g["full"] = 0
            kw["mode"] = "chunk"
        elif r.random() < 0.5:
            kw["mode"] = "full"
        g["stats"] = int(r.random() < 0.7) if focus != "stats" else 1
        kw["stats"] = bool(g["stats"])
        if r.random() < (0.25 if focus != "stats" and not choose else 0.6):
            g["bgsub"] = 1
            kw["auto_background"] = True
        extra = pick(r, [0, 0, 0, 1, 5])
        g["T"] = g["count"] + extra
        L = 6
    # binning
    g["binning"] = 0 if diff else 1
    if multi and r.random() < 0.5:
        g["binning"] = kw["binning"] = pick(r, [0, 2] if diff else [0, 1, 2])
    block = 1
    if choose:
        # one pixel per frame tells whether that frame was chosen, two more hold data
        g["binning"] = kw["binning"] = 2
        g["ident"] = 1
        frame = (FR(g) + 2,)
        P = frame[0]
        g.update(P=P, sel=list(range(1, P + 1)), fshape=list(frame))
    elif g["binning"] == 2 and not inmem:
        block = 2 ** 6
        if g["half"] not in (2, 4, 8) or long:
            g["binning"] = kw["binning"] = 0
            block = 1
    # masks, threads
    if focus == "mask":
        if r.random() < 0.75:
            m = mask_of(r, frame)
            kw["mask"] = m
            g["sel"] = [int(i) + 1 for i in np.flatnonzero(m.ravel())]
        if r.random() < 0.7 or "mask" not in kw:
            kw["thread_divisor"] = pick(r, divisors(len(g["sel"])))
    elif ndim and r.random() < 0.25:
        kw["thread_divisor"] = pick(r, divisors(P))
    if focus == "mask" and not (multi or not inmem):
        for k in ("mask", "thread_divisor"):
            kw.pop(k, None)
    # data
    Lmax = 1 + min(L, 6)
    if not inmem:
        Lmax = 1
        fr = g["count"]
        while fr // 2 >= g["lsize"]:
            fr //= 2
            Lmax += 1
        if g["asked"] >= 0:
            Lmax = min(Lmax, g["asked"] + 1)
    M = 2 ** Lmax
    if g["binning"] != 1:
        M = 2
    hh = g["half"] if g["half"] > 0 else g["count"]
    if g["half"] < 0:
        while hh // 2 >= g["lsize"] and hh > 128:
            hh //= 2
    real = r.random() < 0.25 and not cplx
    out = []
    for cam in range(1 if auto else 2):
        f = gen(r, g["T"], frame, M, amp=1 if long else 3, real=real)
        if block > 1:
            f = np.repeat(gen(r, g["T"], frame, M, real=real), 4, axis=0)[:g["T"]]
            g["block"] = 4
        if g["bgsub"] and block == 1:
            f = settle(f, hh, M)
        if choose:
            f[:, 2:] = 0
            f[:FR(g), 2:] = hh * np.eye(FR(g))
        out.append(f)
    if block > 1:
        # choices between equal frames only: at most two levels are blurred by the choice
        g["asked"] = kw["nlevel"] = min(2, g["asked"]) if g["asked"] >= 0 else 2
        if g["bgsub"]:
            g["bgsub"] = 0
            kw["auto_background"] = False
    if g["irr"]:
        p = g["period"]
        for name in ("t1", "t2"):
            g[name] = [p * i + r.randrange(p) for i in range(g["count"])]
            if p == 1:
                gap, t = [], 0
                for i in range(g["count"]):
                    t += pick(r, [1, 1, 1, 2])
                    gap.append(t)
                g[name] = gap
        if not auto and p == 1:
            # both cameras stay within reach of the neighbouring chunk
            g["t2"] = [t + pick(r, [0, 0]) for t in g["t1"]]
        if auto:
            g["t2"] = g["t1"]
    f1 = dress(r, out[0])
    f2 = f1 if auto else dress(r, out[-1])
    g["f1r"], g["f1i"] = pixmajor(f1, g["sel"])
    g["f2r"], g["f2i"] = pixmajor(f2, g["sel"])
    return g, kw, f1, f2


def run_case(rec, mods, cid, r, focus, inmem, multi, auto, method, cplx, ndim, short=False, long=False,
             choose=False):
    core, mt, video = mods
    g, kw, f1, f2 = config(r, focus, inmem, multi, auto, method, cplx, ndim, long, choose)

    def body(c):
        c.head["cfg"] = g
        keep = f1.copy(), f2.copy()
        targs = {}
        if g["irr"]:
            ty = pick(r, [list, np.array])
            if auto:
                targs["t"] = ty(g["t1"])
            else:
                targs["t1"], targs["t2"] = ty(g["t1"]), ty(g["t2"])
        if inmem:
            fn = getattr(mt, "acorr_multi" if auto else "ccorr_multi")
            axis = 0
            a1, a2 = f1, f2
            if "mask" not in kw and r.random() < 0.5:
                axis = r.randrange(-f1.ndim, f1.ndim)
                a1, a2 = np.moveaxis(f1, 0, axis), np.moveaxis(f2, 0, axis)
                if r.random() < 0.5:
                    a1, a2 = a1.copy(), a2.copy()
                kw["axis"] = axis
            if r.random() < 0.3:
                kw["align"] = True
            res, err = c.call(fn, *((a1,) if auto else (a1, a2)), **dict(kw, **targs))
            if err:
                c.event(k="error", api=fn.__name__, err=err)
                return
            fast, slow = res
            c.event(k="return", api=fn.__name__, fast=obs_fast(fast), slow=obs_slow(slow), shown=0, interval=0,
                    taken=-1, inputsame=int(np.array_equal(keep[0], f1) and np.array_equal(keep[1], f2)), **NO_STATS)
        else:
            name = ("iacorr" if auto else "iccorr") + ("_multi" if multi else "")
            fn = getattr(mt if multi else core, name)
            if short:
                frames = FR(g)
                g["T"] = r.randint(max(1, frames // 2), frames - 1) if frames > 1 else 1
            T = g["T"]
            if auto:
                style = r.randrange(3)
                fr = [f1[i] if style == 0 else ((f1[i],) if style == 1 else f1[i].copy()) for i in range(T)]
            else:
                fr = [(f1[i], f2[i]) for i in range(T)]
            sized = T == g["count"] and not g["irr"] and r.random() < 0.5 and not short
            src = Source(fr, sized)
            if not sized and (not g["irr"] or r.random() < 0.5):
                kw["count"] = g["count"]
            view = FakeViewer() if r.random() < 0.7 else None
            if view is not None:
                kw["viewer"] = view
                kw["viewer_interval"] = pick(r, [1, 1, 1, 2, 3])
            res, err = c.call(fn, src, **dict(kw, **targs))
            half = g["half"] if g["half"] > 0 else HALF(g)
            nch = max(1, FR(g) // half)

            def unpack(x):
                return x if multi else (x, None)

            def ev(k, data, bg, var, nc, **extra):
                fast, slow = unpack(data)
                d = dict(k=k, api=name, fast=obs_fast(fast), slow=obs_slow(slow) if slow is not None else NO_SLOW,
                         **extra)
                d.update(obs_stats(bg, var, auto, nc * half) if g["stats"] else NO_STATS)
                c.ev.append(d)

            if view is not None and not short:
                iv = kw["viewer_interval"]
                for j, (data, bg, var) in enumerate(view.seen):
                    ev("show", data, bg, var, min(j * iv + 1, nch), idx=j * iv)
            if err:
                c.event(k="error", api=name, err=err)
                return
            if g["stats"]:
                data, bg, var = res
            else:
                data, bg, var = res, None, None
            ev("return", data, bg, var, nch, shown=len(view.seen) if view else 0,
               interval=kw["viewer_interval"] if view else 0, taken=src.taken,
               inputsame=int(np.array_equal(keep[0], f1) and np.array_equal(keep[1], f2)))
        p0 = g["sel"][0] - 1
        if short:
            return
        if focus in ("inmem", "multi", "mask", "linear"):
            c.canary(["fast", "ocre", p0, 0], ev=r.randrange(len(c.ev)))
            if multi and c.ev[-1]["slow"]["lv"]:
                c.canary(["slow", "lv", 0, "ocre", p0, 0])
                c.canary(["slow", "lv", 0, "ocnt", 0])
            if focus == "mask" and len(g["sel"]) < g["P"]:
                q = [i for i in range(g["P"]) if i + 1 not in g["sel"]][0]
                c.canary(["fast", "ocre", q, 0], to=0)
        if focus == "stats":
            c.canary(["bg1r", p0, 0])
            c.canary(["var1", p0, 0], ev=r.randrange(len(c.ev)))
    g.setdefault("block", 1)
    desc = "%s%s%s %s method=%s complex=%d count=%s half=%s level_size=%s nlevel=%s mode=%s binning=%d irr=%d" % (
        "" if inmem else "i", "acorr" if auto else "ccorr", "_multi" if multi else "", tuple(g["fshape"]), method,
        cplx, g["count"], g["half"], g["lsize"], g["asked"], "full" if g["full"] else "chunk", g["binning"], g["irr"])
    rec.case(cid, body, desc)


def HALF(g):
    h = g["count"]
    while h // 2 >= g["lsize"] and h > 128:
        h //= 2
    return h


def FR(g):
    h = g["half"] if g["half"] > 0 else HALF(g)
    f = h
    while 2 * f <= g["count"]:
        f *= 2
    return f


def main():
    path, focus = sys.argv[1:3]
    import cddm.core as core
    import cddm.multitau as mt
    import cddm.video as video
    quiet()
    np.random.seed(0)
    rec = Recorder(path)
    mods = core, mt, video
    k = 0
    reps = {"inmem": 10, "linear": 10, "multi": 14, "stats": 8, "mask": 12}[focus] * (6 if THOROUGH else 1)
    for rep in range(reps):
        for auto in (0, 1):
            for method, cplx in (("corr", 0), ("corr", 1), ("fft", 0), ("fft", 1), ("diff", 0)):
                for ndim in (0, 1, 2, 3):
                    if ndim == 0 and focus != "inmem":
                        continue        # the iterative functions take frames (arrays)
                    k += 1
                    r = rng("multi", focus, rep, k)
                    if focus == "inmem":
                        inmem, multi = 1, 1
                    elif focus == "linear":
                        inmem, multi = 0, 0
                    elif focus == "multi":
                        inmem, multi = 0, 1
                    elif focus == "stats":
                        inmem, multi = 0, r.randrange(2)
                    else:
                        inmem = r.randrange(2)
                        multi = 1 if inmem else r.randrange(2)
                    run_case(rec, mods, "%s-%d-%d" % (focus, rep, k), r, focus, inmem, multi, auto, method, cplx, ndim)
    for j in range({"mask": 4}.get(focus, 10) * (6 if THOROUGH else 1)):
        r = rng("long", focus, j)
        inmem = int(focus == "inmem")
        multi = {"inmem": 1, "linear": 0, "multi": 1}.get(focus, j % 2)
        method, cplx = pick(r, [("corr", 0), ("corr", 1), ("fft", 0), ("fft", 1), ("diff", 0)])
        run_case(rec, mods, "long-%s-%d" % (focus, j), r, focus, inmem, multi, j // 2 % 2, method, cplx, 1, long=True)
    if focus == "multi":
        for j in range(20 * (4 if THOROUGH else 1)):
            r = rng("choose", j)
            run_case(rec, mods, "choose-%d" % j, r, focus, 0, 1, j % 2, pick(r, ["corr", "fft"]), r.randrange(2), 1,
                     choose=True)
    if focus in ("linear", "multi"):
        for j in range(8):
            r = rng("short", focus, j)
            run_case(rec, mods, "short-%d" % j, r, focus, 0, int(focus == "multi"), j % 2, "corr", (j // 2) % 2, 1,
                     short=True)
    rec.done()


if __name__ == "__main__":
    main()
