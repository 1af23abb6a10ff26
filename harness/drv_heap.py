"""Histories of calls over shared arrays: what each call changed and what its
results share memory with.  argv: trace file, group."""
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

from rec import Recorder, SCRATCH, quiet, rng, THOROUGH


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def flat(x):
    """All arrays in a (nested) result."""
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in flat(y)]
    return []


def share(a, b):
    if a is b:
        return True
    if not np.may_share_memory(a, b):
        return False
    try:
        return bool(np.shares_memory(a, b, max_work=10 ** 5))
    except Exception:
        return True


class Heap(object):
    def __init__(self, c, r):
        self.c, self.r = c, r
        self.arrays = []

    def find(self, a):
        for i, b in enumerate(self.arrays):
            if a is b:
                return i + 1
        return 0

    def new(self, a):
        """Register an array of the program."""
        i = self.find(a)
        if i:
            return i
        of = [j + 1 for j, b in enumerate(self.arrays) if share(a, b)]
        self.arrays.append(a)
        self.c.event(k="new", api="program", a=len(self.arrays), of=of[:1])
        return len(self.arrays)

    def ids(self, x):
        return sorted({self.new(a) for a in flat(x)})

    def snap(self):
        return [(a.tobytes(), a.shape, a.strides, str(a.dtype), a.ctypes.data) for a in self.arrays]

    def call(self, api, kind, ins, outs, fn):
        r = self.r
        i, o = self.ids(ins), self.ids(outs)
        before = self.snap()
        err = ""
        try:
            res = fn()
        except Exception as e:
            res, err = None, "%s: %s" % (type(e).__name__, str(e)[:100])
        after = self.snap()
        changed = [j + 1 for j in range(len(before)) if before[j] != after[j]]
        rs = flat(res)
        out = []
        for a in rs:
            j = self.find(a)
            if not j:
                of = [q + 1 for q, b in enumerate(self.arrays) if share(a, b)]
                self.arrays.append(a)
                j = len(self.arrays)
                out.append([j] + of)
            else:
                out.append([j, j])
        self.c.event(k="call", api=api, kind=("refused" if err else kind), ins=i, outs=o, changed=changed, res=out, err=err)
        if not err and kind != "inplace" and i and not o:
            if r.random() < 0.5:
                self.c.canary(["changed"], to=[i[0]])
            elif kind == "compute" and out:
                self.c.canary(["res", 0], to=[out[0][0], i[0]])
        return res


def cxa(r, shape, dt="complex128"):
    n = int(np.prod(shape))
    return (np.array([r.randint(-4, 4) + 1j * r.randint(-4, 4) for _ in range(n)]).reshape(shape)).astype(dt)


def rea(r, shape, dt="float64", lo=0, hi=9):
    return np.array([r.randint(lo, hi) for _ in range(int(np.prod(shape)))]).reshape(shape).astype(dt)


def layout(r, a):
    lay = r.random()
    if lay < 0.2:
        return np.asfortranarray(a)
    if lay < 0.35:
        big = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
        big[::2] = a
        return big[::2]
    return a


class Lab(object):
    """The objects of one experiment, and the calls that can be made with them."""

    def __init__(self, c, r, env):
        import cddm.avg, cddm.conf, cddm.core, cddm.fft, cddm.map, cddm.multitau, cddm.norm, cddm.sim, cddm.video, cddm.viewer, cddm.window
        self.m = cddm
        self.r, self.env = r, env
        self.h = Heap(c, r)
        self.n = pick(r, [16, 17, 24, 32])
        self.shape = pick(r, [(4, 3), (6, 4), (5, 3), (2, 5)])
        dt = pick(r, ["complex128"] * 4 + ["complex64", "float64", "float32"])
        mk = (lambda s: cxa(r, s, dt)) if dt[0] == "c" else (lambda s: rea(r, s, dt))
        self.f1, self.f2 = layout(r, mk((self.n,) + self.shape)), layout(r, mk((self.n,) + self.shape))
        s1 = sorted(r.sample(range(2 * self.n), self.n))
        s2 = sorted(r.sample(range(2 * self.n), self.n))
        self.t1, self.t2 = np.array(s1, pick(r, ["int64", "int32"])), np.array(s2, "int64")
        self.mask = rea(r, self.shape, bool, 0, 1)
        self.mask[0, 0] = True
        self.bg = tuple(cxa(r, self.shape) for _ in "ab")
        self.var = tuple(rea(r, self.shape, "float64", 1, 9) for _ in "ab")
        self.corr, self.multi, self.lin, self.logs, self.spectra = [], [], [], [], []
        self.images = [tuple(rea(r, (6, 4), pick(r, ["float64", "uint16", "float32"]), 1, 9) for _ in range(2)) for _ in range(4)]
        self.keep = []

    # --- the experiments ---
    def opts(self, cross, multi=False):
        r = self.r
        kw = {}
        meth = pick(r, ["corr", "corr", "fft", "diff"])
        kw["method"] = meth
        kw["norm"] = pick(r, [2, 6] if meth == "diff" and cross else [2] if meth == "diff" else [1, 2, 3, 5, 6, 7])
        if meth != "diff" and r.random() < 0.3:
            kw["complex"] = True
        return kw

    def correlate(self):
        r, core = self.r, self.m.core
        cross = r.random() < 0.6
        kw = self.opts(cross)
        ins = [self.f1] + ([self.f2] if cross else [])
        if r.random() < 0.4 or kw["method"] == "fft" and r.random() < 0.5:
            if cross:
                kw.update(t1=self.t1, t2=self.t2)
                ins += [self.t1, self.t2]
            else:
                kw.update(t=self.t1)
                ins += [self.t1]
        kw["n"] = pick(r, [6, 8, self.n])
        kw["align"] = pick(r, [False, True])
        key = (cross,) + tuple(sorted((k, str(v)) for k, v in kw.items() if k in ("method", "norm", "complex", "n")))
        outs = []
        prev = [d for k, d in self.corr if k == key]
        if prev and r.random() < 0.7:
            kw["aout"] = pick(r, prev)
            outs = kw["aout"]
        args = (self.f1, self.f2) if cross else (self.f1,)
        d = self.h.call("ccorr" if cross else "acorr", "compute", ins, outs, lambda: (core.ccorr if cross else core.acorr)(*args, **kw))
        if d is not None:
            self.corr.append((key, d))

    def parts(self):
        r, core = self.r, self.m.core
        api = pick(r, ["cross_correlate", "auto_correlate", "cross_difference", "auto_difference", "cross_correlate_fft", "auto_correlate_fft",
                       "cross_sum", "auto_sum", "cross_count", "auto_count", "stats", "stats2", "subtract_background", "subtract_out", "cross_sum_fft", "auto_sum_fft"])
        f1, f2, t1, t2 = self.f1, self.f2, self.t1, self.t2
        tm = r.random() < 0.5 or api.endswith("sum_fft")
        h = self.h
        if api in ("cross_correlate", "cross_difference", "cross_correlate_fft"):
            a = (f1, f2) + ((t1, t2) if tm else ())
            h.call(api, "compute", list(a), [], lambda: getattr(core, api)(*a, n=8))
        elif api in ("auto_correlate", "auto_difference", "auto_correlate_fft"):
            a = (f1,) + ((t1,) if tm else ())
            h.call(api, "compute", list(a), [], lambda: getattr(core, api)(*a, n=8))
        elif api.startswith("cross_sum"):
            a = (f1,) + ((t1, t2) if tm else ())
            h.call(api, "compute", list(a), [], lambda: getattr(core, api)(*a, n=8, complex=pick(r, [False, True]), time_inversion=pick(r, [False, True])))
        elif api.startswith("auto_sum"):
            a = (f1,) + ((t1,) if tm else ())
            h.call(api, "compute", list(a), [], lambda: getattr(core, api)(*a, n=8))
        elif api == "cross_count":
            h.call(api, "compute", [t1, t2], [], lambda: core.cross_count(t1, t2, n=8, complex=pick(r, [False, True])))
        elif api == "auto_count":
            h.call(api, "compute", [t1], [], lambda: core.auto_count(t1, n=8))
        elif api == "stats":
            h.call(api, "compute", [f1], [], lambda: core.stats(f1))
        elif api == "stats2":
            h.call(api, "compute", [f1, f2], [], lambda: core.stats(f1, f2))
        elif api == "subtract_background":
            h.call(api, "compute", [f1], [], lambda: core.subtract_background(f1, return_bg=True))
        else:
            b = np.empty(f1.shape, f1.dtype)
            h.call(api, "compute", [f1], [b], lambda: core.subtract_background(f1, out=b))

    def frames(self, cross):
        fs = [(a, b) if cross else (a,) for a, b in zip(self.f1, self.f2)]
        if self.r.random() < 0.3:       # own frames rather than views
            fs = [tuple(np.array(x) for x in f) for f in fs]
        return fs

    def stream(self):
        r = self.r
        multi = r.random() < 0.6
        cross = r.random() < 0.5
        kw = self.opts(cross)
        api = ("iccorr" if cross else "iacorr") + ("_multi" if multi else "")
        f = getattr(self.m.multitau if multi else self.m.core, api)
        fs = self.frames(cross)
        ins = [fs]
        kw["level_size" if multi else "n"] = 8
        kw["chunk_size"] = 8
        kw["count"] = 16
        kw["auto_background"] = pick(r, [False, True])
        kw["stats"] = pick(r, [True, True, False])
        if multi:
            kw["binning"] = pick(r, [None, 0, 2]) if kw["method"] == "diff" else pick(r, [None, 0, 1, 2])
        if r.random() < 0.4:
            if cross:
                kw.update(t1=self.t1, t2=self.t2)
                ins += [self.t1, self.t2]
            else:
                kw.update(t=self.t1)
                ins += [self.t1]
        if r.random() < 0.3:
            kw["mask"] = self.mask
            ins += [self.mask]
        res = self.h.call(api, "compute", ins, [], lambda: f(iter(fs), **kw))
        if res is not None:
            d = res[0] if kw["stats"] else res
            (self.multi if multi else self.corr).append((None, d) if not multi else (kw.get("complex"), d))

    def multitau(self):
        r = self.r
        cross = r.random() < 0.5
        kw = self.opts(cross)
        api = "ccorr_multi" if cross else "acorr_multi"
        f = getattr(self.m.multitau, api)
        kw["level_size"] = 8
        kw["binning"] = pick(r, [None, 0, 2]) if kw["method"] == "diff" else pick(r, [None, 0, 1, 2])
        if r.random() < 0.3:
            kw["align"] = True
        ins = [self.f1] + ([self.f2] if cross else [])
        if r.random() < 0.3:
            kw["mask"] = self.mask
            ins += [self.mask]
        a = (self.f1, self.f2) if cross else (self.f1,)
        d = self.h.call(api, "compute", ins, [], lambda: f(*a, **kw))
        if d is not None:
            self.multi.append((kw.get("complex"), d))

    def normalize(self):
        r, norm = self.r, self.m.norm
        if not self.corr and not self.multi:
            return self.correlate()
        kw = dict(mode=pick(r, ["corr", "diff"]), scale=pick(r, [False, True]))
        bg, var = pick(r, [self.bg, self.bg[0]]), pick(r, [self.var, self.var[0]])
        ins = [bg, var]
        if self.multi and (not self.corr or r.random() < 0.4):
            cp, d = pick(r, self.multi)
            res = self.h.call("normalize_multi", "compute", ins + [d], [], lambda: self.m.multitau.normalize_multi(d, bg, var, **kw))
            if res is not None:
                self.logs.append(res)
            return
        key, d = pick(r, self.corr)
        if r.random() < 0.25:
            kw["mask"] = self.mask
            ins += [self.mask]
        if r.random() < 0.3:
            kw["norm"] = pick(r, [1, 2, 3, 5, 6, 7, 9, 10])
        if r.random() < 0.3 and not np.iscomplexobj(d[0]):
            kw["weight"] = w = rea(r, d[0].shape[-1:], "float64", 0, 1)
            ins += [w]
        outs = []
        if "mask" not in kw and r.random() < 0.3 and len(d):
            outs = [np.zeros(d[0].shape, d[0].dtype)]
            kw["out"] = outs[0]
        res = self.h.call("normalize", "compute", ins + [d], outs, lambda: norm.normalize(d, bg, var, **kw))
        if isinstance(res, np.ndarray):
            self.lin.append(res)

    def noise(self):
        r, norm = self.r, self.m.norm
        v1, v2 = self.var
        b1, b2 = self.bg
        api = pick(r, ["scale_factor", "noise_delta", "noise_mean", "weight_from_data", "weight_prime_from_data", "sigma_weighted", "take_data"])
        h = self.h
        s = self.shape
        g = rea(r, s + (9,), "float64", 0, 4) / 4
        sf, de = np.ones(s), np.zeros(s)
        pf = pick(r, [True, False])
        mode = pick(r, ["corr", "diff"])
        if api == "scale_factor":
            h.call(api, "compute", [self.var, self.mask], [], lambda: norm.scale_factor(self.var, self.mask))
        elif api == "noise_delta":
            h.call(api, "compute", [self.var, self.mask], [], lambda: norm.noise_delta(self.var, self.mask))
        elif api == "noise_mean":
            h.call(api, "compute", [g, sf], [], lambda: norm.noise_mean(g, sf, mode=mode))
        elif api == "weight_from_data":
            h.call(api, "compute", [g, de, sf], [], lambda: norm.weight_from_data(g, de, sf, mode=mode, pre_filter=pf))
        elif api == "weight_prime_from_data":
            h.call(api, "compute", [g, de, sf, b1, b2], [], lambda: norm.weight_prime_from_data(g, b1, b2, de, sf, mode=mode, pre_filter=pf))
        elif api == "sigma_weighted":
            w = np.full(g.shape, 0.5)
            h.call(api, "compute", [g, w], [], lambda: norm.sigma_weighted(w, g, 0.))
        elif self.corr:
            d = pick(r, self.corr)[1]
            h.call(api, "view", [d, self.mask], [], lambda: norm.take_data(d, self.mask))

    def average(self):
        r, mt, norm, avg = self.r, self.m.multitau, self.m.norm, self.m.avg
        h = self.h
        api = pick(r, ["log_average", "multilevel", "merge_multilevel", "log_merge", "fold_data", "shift_data", "equalize_data", "denoise", "decreasing", "increasing",
                       "median", "convolve", "interpolate", "log_interpolate", "log_average_count", "counts", "convolve_out"])
        x = pick(r, self.lin) if self.lin and r.random() < 0.5 else rea(r, (2, 33), "float64")
        cp = cxa(r, (2, 17))
        fold = pick(r, [True, False])
        if api == "log_average":
            res = h.call(api, "compute", [x], [], lambda: mt.log_average(x, 4, fold=fold))
        elif api == "multilevel":
            res = h.call(api, "compute", [x], [], lambda: mt.multilevel(x, 8, pick(r, [0, 1, 2]), fold=fold))
        elif api == "merge_multilevel":
            y = rea(r, (3, 2, 8), "float64")
            h.call(api, "compute", [y], [], lambda: mt.merge_multilevel(y, pick(r, ["full", "half"])))
        elif api == "log_merge":
            d = pick(r, self.logs) if self.logs else (rea(r, (2, 8)), rea(r, (2, 2, 8)))
            h.call(api, "compute", [d], [], lambda: mt.log_merge(*d, fold=fold))
        elif api in ("fold_data", "shift_data", "equalize_data"):
            kw = dict(mode=pick(r, [0, 1, -1])) if api == "fold_data" else {}
            h.call(api, "compute", [cp], [], lambda: getattr(norm, api)(cp, **kw))
        elif api == "denoise":
            y = pick(r, [cp, x, rea(r, (9,), "float64")])
            h.call(api, "compute", [y], [], lambda: avg.denoise(y, pick(r, [1, 2, 3])))
        elif api in ("decreasing", "increasing"):
            y = rea(r, (2, 9), "float64")
            h.call(api, "compute", [y], [], lambda: getattr(avg, api)(y))
        elif api == "median":
            y = pick(r, [cp, rea(r, (2, 9), "float64")])
            h.call(api, "compute", [y], [], lambda: avg.median(y))
        elif api == "convolve":
            y = pick(r, [cp, rea(r, (2, 9), "float64")])
            h.call(api, "compute", [y], [], lambda: avg.convolve(y))
        elif api == "convolve_out":
            y, o = rea(r, (2, 9), "float64"), np.zeros((2, 9))
            h.call(api, "compute", [y], [o], lambda: getattr(avg, pick(r, ["convolve", "decreasing", "increasing", "median"]))(y, o))
        elif api in ("interpolate", "log_interpolate"):
            tp = "int64" if api == "log_interpolate" else "float64"
            xn, xs, ys = rea(r, (7,), tp, 1, 30), np.arange(1, 10).astype(tp), rea(r, (9,), "float64")
            h.call(api, "compute", [xn, xs, ys], [], lambda: getattr(avg, api)(xn, xs, ys))
        elif api == "log_average_count":
            y = rea(r, (33,), "int64")
            h.call(api, "compute", [y], [], lambda: mt.log_average_count(y, 4))
        else:
            y, z = rea(r, (8,), "int64"), rea(r, (2, 8), "int64")
            h.call(api, "compute", [y, z], [], lambda: mt.log_merge_count(y, z))

    def video(self):
        r, v, h = self.r, self.m.video, self.h
        api = pick(r, ["subtract", "add", "multiply", "normalize_video", "crop", "mask", "asarrays", "load", "fromarrays", "threaded", "show_video", "show_fft", "show_diff", "asmemmaps"])
        fs = self.images
        if api in ("subtract", "add", "multiply"):
            inplace = r.random() < 0.3 and fs[0][0].dtype.kind == "f"
            w = [tuple(rea(r, (6, 4), x.dtype, 1, 3) for x in fr) for fr in fs]
            self.h.ids(w)
            res = h.call(api, "inplace" if inplace else "compute", [fs] if inplace else [fs, w], [], lambda: list(getattr(v, api)(iter(fs), iter(w), inplace=inplace)))
        elif api == "normalize_video":
            fs = [tuple(x.astype("float64") for x in fr) for fr in fs]
            inplace = r.random() < 0.5
            kw = {} if inplace or r.random() < 0.5 else dict(dtype="float64")
            res = h.call(api, "inplace" if inplace else "compute", [fs], [], lambda: list(v.normalize_video(iter(fs), inplace=inplace, **kw)))
        elif api == "crop":
            res = h.call(api, "view", [fs], [], lambda: list(v.crop(iter(fs), ((1, 5), (0, 3)))))
        elif api == "mask":
            mk = rea(r, (6, 4), bool, 0, 1)
            res = h.call(api, "compute", [fs, mk], [], lambda: list(v.mask(iter(fs), mk)))
        elif api in ("asarrays", "load"):
            res = h.call(api, "compute", [fs], [], lambda: getattr(v, api)(iter(fs), len(fs)))
        elif api == "asmemmaps":
            d = tempfile.mkdtemp(dir=SCRATCH)
            res = h.call(api, "compute", [fs], [], lambda: v.asmemmaps(os.path.join(d, "x"), iter(fs), len(fs)))
        elif api == "fromarrays":
            a = (self.f1, self.f2)
            res = h.call(api, "view", [a], [], lambda: list(v.fromarrays(a)))
        elif api == "threaded":
            res = h.call(api, "view", [fs], [], lambda: list(v.threaded(iter(fs))))
        else:
            def go():
                import matplotlib.pyplot as plt
                title = "heap%d" % r.randrange(10 ** 9)
                kw = dict(normalize=pick(r, [True, False])) if api == "show_diff" else {}
                try:
                    return list(getattr(v, api)(iter(fs), title=title, **kw))
                finally:
                    v._FIGURES.clear() if hasattr(v, "_FIGURES") else None
                    plt.close("all")
            res = h.call(api, "view", [fs], [], go)

    def fourier(self):
        r, f, mp, h, conf = self.r, self.m.fft, self.m.map, self.h, self.m.conf
        api = pick(r, ["rfft2_video", "fft2_video", "fft2_video", "rfft2_crop", "fft2_crop", "normalize_fft", "dls", "dls_video", "from_rfft2_data", "as_rfft2_data", "as_rfft2_conj", "k_select", "maps"])
        lib = pick(r, ["numpy", "scipy", "pyfftw"])
        old = conf.set_fftlib(lib), conf.set_rfft2lib(lib)
        try:
            if api in ("rfft2_video", "fft2_video"):
                cp = api == "fft2_video" and r.random() < 0.6 or r.random() < 0.2
                fs = [tuple(cxa(r, (6, 4)) for _ in range(2)) for _ in range(3)] if cp else self.images
                ow = r.random() < 0.4
                if ow and cp:
                    h.call(api, "inplace", [fs], [], lambda: list(getattr(f, api)(iter(fs), overwrite_x=True)))
                else:
                    kw = pick(r, [{}, dict(kimax=1, kjmax=1)])
                    h.call(api, "compute", [fs], [], lambda: list(getattr(f, api)(iter(fs), **kw)))
            elif api in ("rfft2_crop", "fft2_crop"):
                x = cxa(r, (2, 7, 5))
                kw = pick(r, [dict(kimax=2), dict(kimax=1, kjmax=1), dict(kjmax=1)])
                h.call(api, "compute", [x], [], lambda: getattr(f, api)(x, **kw))
            elif api == "normalize_fft":
                fs = [tuple(cxa(r, (6, 4)) + 10 for _ in range(2)) for _ in range(3)]
                inplace = r.random() < 0.5
                h.call(api, "inplace" if inplace else "compute", [fs], [], lambda: list(f.normalize_fft(iter(fs), inplace=inplace)))
            elif api in ("dls", "dls_video"):
                w = rea(r, (6, 4), "float64", 0, 1)
                kv = np.array(pick(r, [(1, 2), [(1, 2), (0, 1)]]))
                fs = [(cxa(r, (6, 4)),) for _ in range(2)]
                if api == "dls":
                    h.call(api, "compute", [fs[0][0], w, kv], [], lambda: f.dls(fs[0][0], w, kv))
                else:
                    h.call(api, "compute", [fs, w, kv], [], lambda: list(f.dls_video(iter(fs), w, kv)))
            elif api == "from_rfft2_data":
                x = pick(r, [cxa(r, (6, 4)), rea(r, (6, 4), bool, 0, 1), rea(r, (6, 4))])
                h.call(api, "compute", [x], [], lambda: mp.from_rfft2_data(x, (6, pick(r, [6, 7]))))
            elif api == "as_rfft2_data":
                x = cxa(r, (6, 7))
                h.call(api, "view", [x], [], lambda: mp.as_rfft2_data(x))
            elif api == "as_rfft2_conj":
                x = cxa(r, (6, 7))
                h.call(api, "compute", [x], [], lambda: mp.as_rfft2_conj(x))
            elif api == "k_select":
                x = cxa(r, (6, 4, 3))
                mk = rea(r, (6, 4), bool, 0, 1)
                kw = pick(r, [{}, dict(mask=mk)])
                h.call(api, "compute", [x, mk], [], lambda: mp.k_select(x, 0, 90, shape=(6, 6), k=pick(r, [None, 1, [1, 2]]), **kw))
            else:
                k, a = mp.fft2_kangle(6, 6)
                h.call("fft2_sector_indexmap", "compute", [k, a], [], lambda: mp.fft2_sector_indexmap(k, a, 30, 60))
        finally:
            conf.set_fftlib(old[0])
            conf.set_rfft2lib(old[1])

    def simulate(self):
        r, s, w, h = self.r, self.m.sim, self.m.window, self.h
        api = pick(r, ["brownian_walk", "brownian_particles", "particles_video", "adc", "adc_out", "coordinate_transform", "form_factor", "data_trigger", "window", "window_out"])
        x0 = rea(r, (3, 2), "float64", 0, 30)
        if api == "brownian_walk":
            h.call(api, "compute", [x0], [], lambda: [np.array(x) for x in s.brownian_walk(x0, count=4, shape=(8, 8), delta=1.)])
        elif api == "brownian_particles":
            h.call(api, "compute", [x0], [], lambda: list(s.brownian_particles(4, (8, 8), 3, x0=x0)))
        elif api == "particles_video":
            pts = [rea(r, (3, 2), "float64", 0, 7) for _ in range(5)]
            t1, t2 = np.array([0, 2]), np.array([1, 3])
            rot = pick(r, [{}, dict(offset=(1., 2.)), dict(rotation=0.3), dict(offset=(1., 2.), rotation=0.3)])
            h.call(api, "compute", [pts, t1, t2], [], lambda: list(s.particles_video(iter(pts), t1, (8, 8), t2, sigma=pick(r, [None, 0.5]), **rot)))
        elif api in ("adc", "adc_out"):
            x = rea(r, (4, 4), "float64", 0, 3000)
            kw = dict(noise_model=pick(r, ["none", "gaussian", "poisson"]), bit_depth=pick(r, ["8bit", "12bit"]))
            outs = []
            if api == "adc_out":
                outs = [np.zeros((4, 4), "uint8" if kw["bit_depth"] == "8bit" else "uint16")]
                kw["out"] = outs[0]
            h.call(api, "compute", [x], outs, lambda: s.adc(x, **kw))
        elif api == "coordinate_transform":
            h.call(api, "compute", [x0], [], lambda: s.coordinate_transform(x0, (8, 8), **pick(r, [dict(offset=(1, 2)), dict(rotation=0.5), {}])))
        elif api == "form_factor":
            y = np.ones((8, 8))
            h.call(api, "compute", [y], [], lambda: s.form_factor(y, sigma=0.5, navg=2))
        elif api == "data_trigger":
            d = [rea(r, (2,)) for _ in range(5)]
            i = np.array([1, 3])
            h.call(api, "view", [d, i], [], lambda: list(s.data_trigger(iter(d), i)))
        else:
            nm = pick(r, ["hann", "blackman", "tukey", "gaussian"])
            a = ((5, 4),) + ((0.5,) if nm in ("tukey", "gaussian") else ())
            outs = [np.full((5, 4), 3.)] if api == "window_out" else []
            h.call(api, "compute", [], outs, lambda: getattr(w, nm)(*a, **(dict(out=outs[0]) if outs else {})))

    def view(self):
        r, vw, h = self.r, self.m.viewer, self.h
        multi = bool(self.multi) and r.random() < 0.5
        ds = [d for k, d in (self.multi if multi else self.corr)]
        if not ds:
            return self.correlate()
        d = pick(r, ds)
        hh, ww = self.shape
        shape = (hh, 2 * (ww - 1) + 1)
        kw = dict(norm=pick(r, [None, 1, 2, 5, 6]), scale=pick(r, [False, True]), fold=pick(r, [True, False]))
        bg, var = pick(r, [self.bg, self.bg[0]]), pick(r, [self.var, self.var[0]])
        ins = [d, bg, var]
        if r.random() < 0.5:
            v = (vw.MultitauViewer if multi else vw.CorrViewer)(shape=shape, **kw)
            prep = lambda: v.set_mask(1, angle=0, sector=180)
        else:
            v = (vw.MultitauArrayViewer if multi else vw.CorrArrayViewer)(**kw)
            prep = lambda: None
        if h.call(type(v).__name__ + ".set_data", "compute", ins, [], lambda: v.set_data(d, background=bg, variance=var) or []) is None:
            return

        def get():
            prep()
            return v.get_data()
        h.call(type(v).__name__ + ".get_data", "compute", ins, [], get)
        if r.random() < 0.5:
            h.call(type(v).__name__ + ".get_data", "compute", ins, [], get)


GROUPS = dict(compute=["correlate", "correlate", "correlate", "parts", "parts", "stream", "multitau", "normalize", "normalize"],
              process=["correlate", "stream", "multitau", "normalize", "normalize", "noise", "noise", "average", "average", "average", "view"],
              media=["video", "video", "fourier", "fourier", "simulate"])


def history(c, r, env, group):
    lab = Lab(c, r, env)
    for _ in range(r.randint(8, 14)):
        getattr(lab, pick(r, GROUPS[group]))()


def main():
    R = Recorder(sys.argv[1])
    quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import matplotlib
    matplotlib.use("Agg")
    group = sys.argv[2]
    for i in range(60 * (8 if THOROUGH else 1)):
        r = rng("heap-" + group, i)

        def one(c, r=r):
            np.random.seed(r.randrange(2 ** 31))
            history(c, r, None, group)
        R.case("%s-%d" % (group, i), one)
    R.done()


main()
