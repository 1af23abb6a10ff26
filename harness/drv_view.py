"""Viewers, driven by calls and by mouse events.  argv: trace file, map | array | video."""
import os
import sys
import warnings
from math import cos, radians, sin

os.environ["MPLBACKEND"] = "Agg"
import numpy as np

from geom import cx, frame_shape, gauss, pick, vden, vec
from rec import HarnessError, NAN, Recorder, ints, quiet, rng, THOROUGH

MODES = ["real", "imag", "abs", "phase"]
BOXES = ["structured", "subtracted", "weighted", "compensated"]
NORMS = [1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15]
BIG = 10000


# -- widgets, found by what is written on them

def mouse(fig, ax, x, y):
    from matplotlib.backend_bases import MouseEvent
    for name in ("button_press_event", "button_release_event"):
        fig.canvas.callbacks.process(name, MouseEvent(name, fig.canvas, x, y, 1))


def labelled(fig, text):
    for ax in fig.axes:
        for t in ax.texts:
            if t.get_text() == text:
                return ax, t
    raise HarnessError("no widget %r" % text)


def press(fig, text):
    ax, t = labelled(fig, text)
    b = t.get_window_extent()
    mouse(fig, ax, (b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2)


def slide(fig, ax, v):
    x, y = ax.transData.transform((v, 0.5 * sum(ax.get_ylim())))
    mouse(fig, ax, x, y)


# -- what is seen

def curve(t, y, mode):
    t, y = np.asarray(t), np.asarray(y)
    nan = np.isnan(y)
    y = np.where(nan, 0, y)
    a, b = (np.cos(y) * 1000, np.sin(y) * 1000) if mode == "phase" else (y * 100, 0 * y)
    o = np.rint(np.stack([a, b], -1)).astype(int)
    o[nan] = NAN
    return dict(t=ints(t), y=o.tolist())


def cells(a):
    """values in hundredths"""
    a = np.asarray(a)
    o = np.rint(np.nan_to_num(np.stack([a.real, a.imag if a.dtype.kind == "c" else 0 * a.real], -1) * 100)).astype(int)
    o[np.isnan(a)] = NAN
    return o.tolist()


def near(h, w, sh, edges, steps):
    """is a wavevector close to an edge of a sector or to a border of a ring, or does
    an entry of the half plane stand for two wavevectors of a sector?"""
    D = vden(sh)
    vs = {(i, j): vec(i, j, h, w, sh) for i in range(h) for j in range(w)}
    for v in vs.values():
        if v == (0, 0):
            continue
        size = (v[0] ** 2 + v[1] ** 2) ** 0.5
        for row in edges:
            for lo, hi in row:
                if min(abs(lo[0] * v[1] - lo[1] * v[0]), abs(hi[0] * v[1] - hi[1] * v[0])) < 20 * size:
                    return True
        for num, den in steps:
            q = size * den / D / num
            if abs(q - np.floor(q) - 0.5) < 1e-6:
                return True
    if h % 2 == 0:
        for row in edges:
            for lo, hi in row:
                def inside(v):
                    return lo[0] * v[1] - lo[1] * v[0] > 0 and v[0] * hi[1] - v[1] * hi[0] > 0
                if any(inside(vs[h // 2, j]) and inside(vs[h // 2, -j % w]) for j in range(1, w)):
                    return True
    return False


def datasets(r, kind, shape, core, multi, num, opts):
    """data tuples with background and variance, and the normalized data the plot is to show"""
    diff, auto, cplx = r.random() < 0.25, r.random() < 0.4, r.random() < 0.6
    norm = (2 if auto else pick(r, [2, 6])) if diff else pick(r, [1, 3, 5, 7])
    whole = r.random() < 0.5 and cplx and not diff
    T = 8 if kind == "corr" else 32
    out = []
    for _ in range(num):
        f, g = gauss(r, (T,) + shape, 3, not cplx), gauss(r, (T,) + shape, 3, not cplx)
        kw = dict(norm=norm)
        if whole:
            kw["complex"] = True
        if kind == "corr":
            kw["n"] = pick(r, [5, None]) if not opts["size"] else None
            fn = getattr(core, ("a" if auto else "c") + "corr")
        else:
            kw["level_size"] = 8
            fn = getattr(multi, ("a" if auto else "c") + "corr_multi")
        if diff:
            kw["method"] = "diff"
        data = fn(f, **kw) if auto else fn(f, g, **kw)
        bg, var = core.stats(f) if auto else core.stats(f, g)
        out.append((data, bg, var))
    return out


def planes_of(ds, kind, norm_mod, multi, opts):
    """normalized data for every norm that goes with the data, and the delays"""
    data, bg, var = ds
    res, tt = [[] for _ in range(16)], []
    for n in NORMS:
        try:
            y = (norm_mod.normalize if kind == "corr" else multi.normalize_multi)(data, bg, var, norm=n, scale=opts["scale"])
        except ValueError:
            continue
        first = y if kind == "corr" else y[0]
        if np.iscomplexobj(first):
            fold = opts["fold"]
            if fold is None:
                fold = isinstance(bg, tuple)
            if fold:
                y = norm_mod.fold_data(y) if kind == "corr" else tuple(norm_mod.fold_data(q, 1) for q in y)
        if kind == "corr":
            t, y = multi.log_average(y, opts["size"], fold=False) if opts["size"] else (np.arange(y.shape[-1]), y)
        else:
            t, y = multi.log_merge(*y, fold=False) if opts["semilogx"] else (np.arange(y[0].shape[-1]), y[0])
        res[n] = y
        tt = ints(t)
    return res, tt


def same(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or np.array_equal(a, b, equal_nan=True) if a is not None and b is not None else a is b


def copy(a):
    return tuple(copy(x) for x in a) if isinstance(a, tuple) else None if a is None else a.copy()


def reduce(a, mask):
    """the entries of the mask only, as computed with a mask"""
    if isinstance(a, tuple):
        return tuple(reduce(x, mask) for x in a)
    if a is None:
        return None
    for ax in range(a.ndim - mask.ndim + 1):
        if a.shape[ax:ax + mask.ndim] == mask.shape:
            return a[(slice(None),) * ax + (mask,)]
    return a


def view_case(c, r, cls, V, core, multi, norm_mod, plt):
    kind = pick(r, ["data", "corr", "corr", "multi"])
    num = r.randint(1, 2)
    opts = dict(semilogx=r.random() < 0.7, size=None, scale=False, fold=None)
    mask, sh = None, None
    edges, steps, angles, sectors = [[[[1, 0], [0, 1]]]], [[1, 1]], [0], [5]
    if cls == "map":
        while True:
            h, w = r.randint(2, 6), pick(r, [3, 5])
            sh = frame_shape(r, h, w)
            if sh is not None and (w == sh[1] + 1 or (sh[1] % 2 == 0 and w + 1 > sh[1])):
                continue
            angles = [0] + [round(r.uniform(-89, 89), 1) for _ in range(2)] + [round(r.uniform(95, 175), 1)]
            sectors = [5] + [round(r.uniform(*q), 1) for q in ((10, 60), (60, 120), (120, 170))]
            steps = [[1, 1]] + [list(pick(r, [(2, 1), (3, 1), (3, 2)])) for _ in range(2)]
            edges = [[[[int(round(BIG * f(radians(a + q * s / 2)))) for f in (cos, sin)] for q in (-1, 1)] for s in sectors] for a in angles]
            if not near(h, w, sh, edges, steps):
                break
        cols = w // 2 + 1
        shape = (h, cols)
        mask = np.array([r.random() < 0.6 for _ in range(h * cols)]).reshape(shape) if r.random() < 0.5 else None
        if mask is not None and not mask.any():
            mask = None
        axes = []
    else:
        shape = (r.randint(3, 5), r.randint(3, 5))
        h, w = shape
        axes = pick(r, [(0,), (1,), (0, 1), (1, 0), ()])
    if kind == "data":
        n = r.randint(2, 4)
        ds, planes, tt, same_of = [], [], [], []
        for _ in range(num):
            x = gauss(r, shape + (n,), 50, r.random() < 0.2)
            if r.random() < 0.3:
                x[r.randrange(shape[0]), r.randrange(shape[1]), r.randrange(n)] = np.nan
            t = None if r.random() < 0.4 else np.array(sorted(r.sample(range(1, 50), n)))
            ds.append((x,) if t is None else (x, t))
            planes.append([x] + [[]] * 15)
            tt.append(list(range(n)) if t is None else t.tolist())
        norm = 0
    else:
        if kind == "corr" and r.random() < 0.3:
            opts["size"] = 2
        opts["scale"] = r.random() < 0.3
        opts["fold"] = pick(r, [None, True, False] if kind == "corr" else [None, True])
        ds = datasets(r, kind, shape, core, multi, num, opts)
        both = [planes_of(d, kind, norm_mod, multi, opts) for d in ds]
        planes, tt = [b[0] for b in both], [b[1] for b in both]
        valid = [i for i in range(16) if len(planes[0][i])]
        norm = pick(r, valid)
    c.head = dict(cls=cls, h=h, w=w, sh=list(sh or (0, 0)), mask=ints(mask if mask is not None else np.ones(shape, bool)),
                  edges=edges, steps=steps, planes=[[cells(p) if len(p) else [] for p in ps] for ps in planes], t=tt, norm=norm, axes=list(axes))
    if mask is not None and r.random() < 0.6:
        cut = [reduce(d, mask) for d in ds]
        if not any(np.shape(d[0] if kind == "data" else d[0][0] if kind == "corr" else d[0][0][0])[:-1] == mask.shape for d in cut):
            ds = cut
    kept = [copy(d) for d in ds]
    kw = dict(semilogx=opts["semilogx"])
    if cls == "map":
        kw.update({k: v for k, v in dict(shape=sh, mask=mask).items() if v is not None})
        ctor = dict(data=V.DataViewer, corr=V.CorrViewer, multi=V.MultitauViewer)[kind]
    else:
        kw["axes"] = axes
        ctor = dict(data=V.DataArrayViewer, corr=V.CorrArrayViewer, multi=V.MultitauArrayViewer)[kind]
    if kind != "data":
        kw.update(norm=norm, scale=opts["scale"])
        if opts["fold"] is not None:
            kw["fold"] = opts["fold"]
        if opts["size"]:
            kw["size"] = opts["size"]
    v = ctor(**kw)
    plt.close("all")
    mode, d = "real", 0
    drawn = lambda: [plt.figure(i) for i in plt.get_fignums()]

    def line():
        fs = drawn()
        ls = fs[0].axes[0].lines if fs else []
        return curve(ls[0].get_xdata(), ls[0].get_ydata(), mode_plot[0]) if ls else []

    mode_plot = ["real"]
    top = int((h * h + w * w) ** 0.5)
    mine = [0, 0, 5]                 # where the sliders were put last
    script = (["data", "mask", "plot", "mode", "mask"] if r.random() < 0.5 else ["data", "plot"]) if r.random() < 0.7 else []
    op = ""
    for step in range(r.randint(6, 14) + len(script)):
        fs = drawn()
        ops = ["data", "mask", "mask"] if d else ["data", "data", "mask"]
        if d:
            ops += ["plot", "plot"]
            if kind != "data":
                ops += ["norm", "norm"]
        if fs:
            ops += ["mode", "slide", "slide", "slide"] + (["tick", "tick"] if kind != "data" else [])
        again = op in ("tick", "slide") and r.random() < 0.5
        op = script[step] if step < len(script) else op if again else pick(r, ops)
        e = dict(k="view", api=ctor.__name__ + "." + op, op=op, raised=0, err="", ok=0, get=[], line=[], gk=-2, d=0, n=0, sel=[], i=0, v=0, mode="")
        if op == "data":
            e["d"] = d = r.randint(1, num)
            v.set_data(*ds[d - 1])
        elif op == "norm":
            e["n"] = n = pick(r, NORMS)
            _, err = c.call(v.set_norm, n)
            e.update(raised=int(bool(err)), err=err)
        elif op == "mask" and cls == "map":
            if not d:
                continue             # the size of the plane is not known
            k, a, s, st = r.randint(0, 3), r.randrange(4), r.randrange(4), r.randrange(3)
            q = r.randrange(3)
            if q == 0:
                a = s = st = 0
                e["ok"] = int(bool(v.set_mask(k)))
            elif q == 1:
                e["ok"] = int(bool(v.set_mask(k, angle=angles[a], sector=sectors[s], kstep=steps[st][0] / steps[st][1])))
            else:
                e["ok"] = int(bool(v.set_mask(k, angles[a], sectors[s], steps[st][0] / steps[st][1])))
            e["sel"] = [k, a, s, st]
            mine = [0, angles[a], sectors[s]]
        elif op == "mask":
            e["sel"] = [r.randint(-3, 2) for _ in axes]
            v.set_indices(*e["sel"])
        elif op == "plot":
            v.plot()
        elif op == "mode":
            e["mode"] = mode = pick(r, [m for m in MODES if m != mode])
            press(fs[0], mode)
        elif op == "tick":
            i = r.randrange(4)
            e["i"] = i + 1
            press(fs[0], BOXES[i])
        elif op == "slide" and cls == "map":
            i = r.randrange(3)
            ax, _ = labelled(fs[0], ["k", "angle", "sector"][i])
            if i == 0:
                hi = int(ax.get_xlim()[1])
                e["v"] = val = r.randint(0, min(hi, 4))
                slide(fs[0], ax, min(hi - 0.01, max(0.01, val + r.uniform(-0.4, 0.4))))
            else:
                j = pick(r, [j for j in range(3) if (angles, sectors)[i - 1][j] != mine[i]])
                e["v"] = j
                mine[i] = (angles, sectors)[i - 1][j]
                slide(fs[0], ax, mine[i])
            e["i"] = i + 1
        else:
            if not axes:
                continue
            i = r.randrange(len(axes))
            n = shape[axes[i]]
            val = r.randint(2 - n, n - 2)
            ax, _ = labelled(fs[0], "axis %d" % axes[i])
            slide(fs[0], ax, val + r.uniform(0.1, 0.4) * (1 if val > 0 or val == 0 and r.random() < 0.5 else -1))
            e.update(i=i + 1, v=val)
        if op in ("plot", "slide", "tick", "mode"):
            mode_plot[0] = mode
        out, err = c.call(v.get_data)
        e["get"] = curve(out[0], out[1], mode) if not err else []
        e["why"] = err
        e["line"] = line()
        if cls == "map":
            kk, err = c.call(v.get_k)
            e["gk"] = -2 if err else NAN if np.isnan(kk) else int(round(float(kk) * 1000))
        e["same"] = int(same(ds, kept))
        c.event(**e)
        if e["get"]:
            i = len(e["get"]["y"]) - 1
            if mode != "phase":
                c.canary(["get", "y", i, 0], to=999999)
            c.canary(["get", "t", 0])
        if e["line"] and op not in ("plot", "slide", "tick", "mode"):
            c.canary(["line", "y", 0, 0], to=9999999)
        if e["gk"] not in (-2, NAN):
            c.canary(["gk"], to=e["gk"] + 100)
    plt.close("all")


def video_case(c, r, V, plt):
    h, w = r.randint(1, 3), r.randint(2, 3)
    have = r.randint(2, 12)
    lst = r.random() < 0.5
    two = r.random() < 0.4
    cam = r.randint(0, 1) if two else 0
    count = have if r.random() < 0.5 else r.randint(2, have if lst else have + 3)
    frames = [tuple(gauss(r, (h, w), 99, True) for _ in range(1 + two)) for _ in range(have)]
    fn = pick(r, [None, None, lambda x: x + 5])
    raw = frames if two else [f[0] for f in frames] if r.random() < 0.7 else frames
    seen = [0]

    def source():
        for f in raw:
            seen[0] += 1
            yield f
    kw = {}
    if not lst or count != have or r.random() < 0.3:
        kw["count"] = count
    if two:
        kw["id"] = cam
    if fn:
        kw["norm_func"] = fn
    plt.close("all")
    c.head = dict(cls="video", list=int(lst), count=count, frames=[ints(f[cam] + (5 if fn else 0)) for f in frames])
    keep = V.VideoViewer(raw if lst else source(), **kw)

    def look(op, val=0):
        fig = plt.figure(plt.get_fignums()[0])
        where = [t for ax in fig.axes for t in ax.texts if t.get_text().strip().lstrip("-").isdigit()]
        c.event(k="video", api="VideoViewer." + op, op=op, v=val, at=int(where[0].get_text()), img=ints(np.asarray(fig.axes[0].images[0].get_array())), taken=seen[0])
        c.canary(["img", 0, 0])
        c.canary(["at"])
        if not lst:
            c.canary(["taken"])
        return fig
    fig = look("open")
    for _ in range(r.randint(3, 12)):
        op = pick(r, ["next", "next", "previous", "slide", "slide", "slide"] + (["play"] if r.random() < 0.3 else []))
        val = 0
        if op == "slide":
            val = r.randrange(count)
            slider = [ax for ax in fig.axes for t in ax.texts if t.get_text().strip().isdigit()][0]
            slide(fig, slider, min(count - 1.01, max(0.01, val + r.uniform(-0.3, 0.3))))
        else:
            press(fig, pick(r, dict(next=[">", ">>>"], previous=["<", "<<<"], play=["Play", "FF"])[op]))
        look(op, val)
    plt.close("all")
    del keep


def main():
    what = sys.argv[2]
    R = Recorder(sys.argv[1])
    quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    FigureCanvasAgg.draw = lambda self: None        # pixels are not looked at
    import cddm.core as core
    import cddm.multitau as multi
    import cddm.norm as norm_mod
    import cddm.viewer as V
    for i in range(dict(video=50, map=120, array=80)[what] * (8 if THOROUGH else 1)):
        r = rng(what, i)

        def one(c, r=r):
            warnings.simplefilter("ignore")
            if what == "video":
                video_case(c, r, V, plt)
            else:
                view_case(c, r, what, V, core, multi, norm_mod, plt)
        R.case("%s-%d" % (what, i), one)
    R.done()


main()
