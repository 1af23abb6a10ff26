"""Whole experiments: video operators, background threads, displays, transforms
and correlators in one pipeline.  argv: trace file."""
import itertools
import sys
import warnings

import numpy as np

from rec import Recorder, ints, quiet, rng, THOROUGH

NONE = 1000000


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def fr(a):
    return dict(s=list(a.shape), v=[int(x) for x in a.ravel()])


def cx(a, scale=1):
    a = np.asarray(a)
    return ints(np.stack([a.real, a.imag], -1), scale, 1e-9 if a.dtype in (np.complex128, np.float64) else 2e-6)


def design(r):
    """Source, operators and transform of an experiment."""
    ncam = pick(r, [1, 2, 2])
    n = pick(r, [16, 16, 17, 20, 32])
    h, w = pick(r, [1, 2, 4, 4]), pick(r, [2, 4, 4])
    dt = pick(r, ["float64", "float64", "uint8", "int32", "uint16", "float32"])
    crop = r.random() < 0.4
    H, W = (h + r.randint(0, 2), w + r.randint(0, 3)) if crop else (h, w)
    src = [tuple(np.array([r.randint(0, 6) for _ in range(H * W)], dt).reshape(H, W) for _ in range(ncam)) for _ in range(n)]
    ops = []
    if crop:
        i, j = r.randint(0, H - h), r.randint(0, W - w)
        ops.append(dict(name="crop", inplace=0, dtype="", h=[i, i + h, NONE], w=[j, j + w, NONE], roi=((i, i + h), (j, j + w))))
    for name in r.sample(["subtract", "multiply", "add"], r.randint(0, 2)):
        inplace = int(r.random() < 0.4 and dt == "float64" and not crop)
        one = r.random() < 0.6              # one and the same multi-frame over and over, as a window
        lo, hi = (0, 2) if name == "multiply" else (0, 3)
        mk = lambda: tuple(np.array([r.randint(lo, hi) for _ in range(h * w)], "float64" if r.random() < 0.7 else "int64").reshape(h, w) for _ in range(ncam))
        if one:
            f = mk()
            ys = [f] * n
        else:
            ys = [mk() for _ in range(n)]
        # unsigned cameras need a signed result
        ops.append(dict(name=name, inplace=inplace, dtype="" if inplace else pick(r, ["float64"] if not dt.startswith("float") else ["", "float64"]),
                        yv=ys, y=[[fr(a) for a in fs] for fs in ys], one=one))
    mode = pick(r, ["rfft2", "rfft2", "rfft2", "fft2", "none"])
    ki = pick(r, [-1, -1, 0, 1]) if h > 1 else pick(r, [-1, 0])
    kj = pick(r, [-1, -1, 1])
    if mode == "none":
        ki = kj = -1
    return dict(ncam=ncam, n=n, h=h, w=w, src=src, ops=ops, mode=mode, ki=ki, kj=kj)


def run(v, fft, d, r, plan):
    """The library pipeline over fresh copies of the source."""

    src = [tuple(f.copy() for f in fs) for fs in d["src"]]
    if plan["source"] == "gen":
        x = (fs for fs in src)
    elif plan["source"] == "list":
        x = iter(src) if d["ops"] == [] and d["mode"] == "none" else src
    else:
        x = v.fromarrays(tuple(np.array([fs[c] for fs in src]) for c in range(d["ncam"])))
    k = 0
    for op in d["ops"] + [None]:
        for extra in plan["extra"][k]:
            if extra == "threaded":
                x = v.threaded(x, queue_size=plan["q"])
            elif extra == "show":
                x = v.show_video(x, id=d["ncam"] - 1, title="p%d" % k)
            elif extra == "showfft":
                x = v.show_fft(x, title="p%d" % k)
            elif extra == "diff" and d["ncam"] == 2:
                x = v.show_diff(x, title="p%d" % k, normalize=plan["nd"])
        k += 1
        if op is None:
            break
        if op["name"] == "crop":
            x = v.crop(x, roi=op["roi"])
        else:
            kw = dict(inplace=True) if op["inplace"] else dict(dtype=op["dtype"]) if op["dtype"] else {}
            y = itertools.repeat(op["yv"][0]) if op["one"] else iter([tuple(a.copy() for a in fs) for fs in op["yv"]])
            x = getattr(v, op["name"])(x, y, **kw)
    if d["mode"] != "none":
        kw = {}
        if d["ki"] != -1:
            kw["kimax"] = d["ki"]
        if d["kj"] != -1:
            kw["kjmax"] = d["kj"]
        if plan["over"]:
            kw["overwrite_x"] = True
        x = getattr(fft, d["mode"] + "_video")(x, **kw)
    if plan["after"] == "threaded":
        x = v.threaded(x, queue_size=plan["q"])
    elif plan["after"] == "play":
        x = v.play(x, fps=1000., max_delay=0.1)
    return x


def case(c, m, r):
    v, fft, core, mt, conf = m
    d = design(r)
    old = conf.set_rfft2lib(pick(r, ["numpy", "scipy", "pyfftw"])), conf.set_fftlib(pick(r, ["numpy", "scipy", "pyfftw"]))
    plan = dict(source=pick(r, ["gen", "list", "arrays"]), q=pick(r, [0, 1, 3]),
                extra=[[pick(r, ["threaded", "show", "showfft", "diff"])] if r.random() < 0.35 else [] for _ in range(len(d["ops"]) + 1)],
                after=pick(r, ["", "", "threaded", "play"]), nd=pick(r, [True, False]), over=r.random() < 0.3)
    try:
        inst = lambda: run(v, fft, d, r, plan)
        cfg = dict(src=[[fr(a) for a in fs] for fs in d["src"]], ncam=d["ncam"], mode=d["mode"], ki=d["ki"], kj=d["kj"], kmask=[],
                   ops=[{k: o[k] for k in ("name", "inplace", "dtype", "h", "w", "y") if k in o} for o in d["ops"]])
        c.head["cfg"] = cfg
        api = "pipeline"
        if plan["source"] == "arrays" and d["n"] and r.random() < 0.5:
            # the video is made into arrays first
            arrs = v.asarrays(inst(), d["n"])
            kept = [tuple(a[k] for a in (arrs if isinstance(arrs, (tuple, list)) else (arrs,))) for k in range(d["n"])]
            api = "asarrays"
        else:
            kept = list(inst())
        c.event(k="frames", api=api, f=[[cx(np.ravel(a)) for a in fs] for fs in kept])
        c.canary(["f", r.randrange(len(kept)), 0, 0, 0])
        if kept[0][0].ndim != 2 or d["mode"] == "none" and r.random() < 0.5:
            return
        shape = kept[0][0].shape
        size = int(np.prod(shape))
        auto = d["ncam"] == 1
        method = pick(r, ["corr", "corr", "fft", "diff"])
        cplx = int(not auto and method != "diff" and r.random() < 0.4)
        mask = None
        if size > 1 and r.random() < 0.5:
            mask = np.array([r.randint(0, 1) for _ in range(size)], bool)
            mask[r.randrange(size)] = True
            cfg["kmask"] = mask.astype(int).tolist()
            mask = mask.reshape(shape)
        how = pick(r, ["stream", "stream_multi", "stream_multi", "memory", "memory_multi"])
        n = pick(r, [4, 8]) if how != "memory_multi" else 8
        half = pick(r, [8, 16]) if how.startswith("stream") else 0
        multi = how.endswith("multi")
        binning = pick(r, [0, 1]) if method != "diff" else 0
        T = d["n"]
        used = T
        if half:
            used = half
            while 2 * used <= T:
                used *= 2
        elif multi:
            T = used = 16
        levels = 0
        while multi and used // 2 ** (levels + 1) >= n:
            levels += 1
        # binned integers stay integers
        scale = 2 ** levels if multi and binning == 1 else 1
        kw = dict(method=method, norm=pick(r, [2] if method == "diff" else [1, 2, 3, 5, 7]))
        if cplx:
            kw["complex"] = True
        sc = lambda it: (tuple(a * float(scale) for a in fs) for fs in it) if scale != 1 else it
        stats = 0
        bg = var = None
        e = dict(k="data", auto=int(auto), cplx=cplx, diff=int(method == "diff"), n=n, used=used, scale=scale, binning=binning, want=levels + 1)
        if how.startswith("stream"):
            f = getattr(mt if multi else core, ("iacorr" if auto else "iccorr") + ("_multi" if multi else ""))
            e["api"] = f.__name__
            kw.update(chunk_size=half, count=T, mask=mask)
            kw["level_size" if multi else "n"] = n
            if multi:
                kw["binning"] = binning
            if r.random() < 0.3 and mask is None:
                kw["thread_divisor"] = pick(r, [i for i in range(1, size + 1) if size % i == 0])
            stats = int(scale == 1)
            it = sc(inst())
            if auto and r.random() < 0.3:
                it = (fs[0] for fs in it)
            res, bg, var = f(it, **kw)
        else:
            arrs = v.asarrays(itertools.islice(sc(inst()), T), T)
            arrs = [np.asarray(a) for a in (arrs if isinstance(arrs, (tuple, list)) else (arrs,))]
            if multi:
                f = mt.acorr_multi if auto else mt.ccorr_multi
                res = f(*arrs, level_size=n, binning=binning, mask=mask, **kw)
            else:
                f = core.acorr if auto else core.ccorr
                if mask is not None:
                    arrs = [core.reshape_input(a, mask=mask)[0] for a in arrs]
                res = f(*arrs, n=n, **kw)
            e["api"] = f.__name__
        lin, slow = (res if multi else (res, None))
        sel = (lambda a: a if mask is None or how == "memory" else a[..., mask, :])
        out = []

        def level(cor, cnt):
            x = np.asarray(cor).reshape((-1, cor.shape[-1]))
            out.append(dict(count=ints(cnt), re=ints(x.real), im=ints(x.imag) if np.iscomplexobj(x) else []))
        level(sel(lin[0]), lin[1])
        if multi:
            s = sel(slow[0])
            for j in range(s.shape[0]):
                level(s[j], slow[1][j])
        e["levels"] = out
        e["stats"] = stats
        if stats:
            b1, b2 = (bg, bg) if auto else bg
            v1, v2 = (var, var) if auto else var
            pt = lambda a: np.ravel(a if mask is None else a[mask])
            e["bg1"], e["bg2"] = [[ints(pt(b).real, used), ints(pt(b).imag, used)] for b in (b1, b2)]
            e["var1"], e["var2"] = [ints(pt(x), used * used) for x in (v1, v2)]
        c.event(**e)
        c.canary(["levels", 0, "re", 0, 1])
        if stats:
            c.canary(["bg1", 0, 0])
    finally:
        conf.set_rfft2lib(old[0]), conf.set_fftlib(old[1])
        v._FIGURES.clear() if hasattr(v, "_FIGURES") else None
        import matplotlib.pyplot as plt
        plt.close("all")


def main():
    R = Recorder(sys.argv[1])
    quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import cddm.conf
    import cddm.core
    import cddm.fft
    import cddm.multitau
    import cddm.video
    cddm.conf.set_showlib("matplotlib")
    m = cddm.video, cddm.fft, cddm.core, cddm.multitau, cddm.conf
    for i in range(240 * (8 if THOROUGH else 1)):
        r = rng("pipe", i)
        R.case("pipe-%d" % i, lambda c, r=r: case(c, m, r))
    R.done()


main()
