"""Histories of requests with and without mistakes: which are served, which
refused, and what a refusal leaves behind.  argv: trace file, group."""
import contextlib
import copy
import io
import signal
import sys
import warnings

import numpy as np

from rec import Recorder, rng, THOROUGH


def pick(r, xs):
    return xs[r.randrange(len(xs))]


class Stuck(Exception):
    pass


def ring(*a):
    raise Stuck("no answer")


def cxa(r, shape):
    n = int(np.prod(shape))
    return np.array([r.randint(-4, 4) + 1j * r.randint(-4, 4) for _ in range(n)]).reshape(shape)


NORMS = [-1, 1, 2, 3, 5, 6, 7]
BADNORMS = [0, 4, 8, 9, 12, 15, 16, -2]


def settings():
    import cddm.conf as conf
    c = conf.CDDMConfig
    return repr([(k, getattr(c, k)) for k in sorted(dir(c)) if not k.startswith("_") and isinstance(getattr(c, k), (int, str, bool, float))])


class Session(object):
    def __init__(self, c, r):
        import cddm.core, cddm.multitau, cddm.conf
        self.core, self.mt, self.c, self.r = cddm.core, cddm.multitau, c, r
        cddm.conf.set_verbose(pick(r, [0, 0, 1, 2]))
        self.first = {}

    def ask(self, q, fn, arrays, key=None, describe=None):
        before = settings()
        snap = [a.tobytes() for a in arrays]
        raised, err, res = 0, "", None
        signal.signal(signal.SIGALRM, ring)
        signal.alarm(120)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = fn()
        except Stuck as e:
            raised, err = -1, "no answer"
        except Exception as e:
            raised, err = 1, "%s: %s" % (type(e).__name__, str(e)[:100])
        finally:
            signal.alarm(0)
        answer = 1
        if key is not None and raised == 0:
            if key in self.first:
                answer = int(same(self.first[key], res))
            else:
                self.first[key] = copy.deepcopy(res)
        self.c.event(k="ask", api=q["api"], q=q, raised=raised, err=err, kept=int(settings() == before),
                     same=int(snap == [a.tobytes() for a in arrays]), answer=answer)
        if self.r.random() < 0.08 and raised >= 0:
            self.c.canary(*pick(self.r, [(["raised"], -1, 1 - raised), (["kept"], -1, 0), (["same"], -1, 0)]))
        return res

    # ---------------------------------------------------------------- mistakes
    def common(self, q, cross, bad):
        """method, norm, complex; bad: names of mistakes to make."""
        r = self.r
        q["method"] = pick(r, ["corr", "corr", "fft", "diff"])
        if "method" in bad:
            q["method"] = "other"
        diff = q["method"] == "diff"
        q["cplx"] = int(r.random() < 0.3 and not diff)
        if "cplx" in bad and cross:         # of a single camera, differences are real whatever is asked for
            q["method"], q["cplx"], diff = "diff", 1, True
        q["norm"] = pick(r, ([-1, 2, 6] if cross else [-1, 2]) if diff else NORMS)
        if "norm" in bad:
            q["norm"] = pick(r, BADNORMS + ([1, 3, 5, 7] if diff else []) + ([6] if diff and not cross else []))

    def kw(self, q):
        kw = {}
        if q["method"] != "none":
            kw["method"] = {"other": pick(self.r, ["covariance", "", "Corr"])}.get(q["method"], q["method"])
        if q["norm"] != -1:
            kw["norm"] = q["norm"]
        if q["cplx"]:
            kw["complex"] = True
        return kw

    def frames(self, q, cross, bad, nd=None):
        r = self.r
        nd = nd or pick(r, [1, 2, 2, 3])
        d1 = [r.randint(2, 4) for _ in range(nd)]
        axis = pick(r, [0, 0, 0, nd - 1, -1, -nd])
        p = axis % nd
        d1[p] = r.randint(6, 12)
        if nd == 1 and q["kind"] == "multi":
            d1 = [r.randint(2, 4)] * 2
            axis, p, nd = 0, 0, 2
            d1[0] = r.randint(6, 12)
        d2 = list(d1)
        if "shape" in bad:
            i = r.randrange(nd)
            d2[i] = 1 if r.random() < 0.3 else d2[i] + 1
        elif "ndim" in bad:
            d2 = d2 + [1] if r.random() < 0.5 else [1] + d2
        elif "scalar" in bad:
            d1 = d2 = []
        if "axis" in bad:
            axis = pick(r, [nd, nd + 1, -nd - 1])
        q.update(d1=d1, d2=d2 if cross else d1, axis=axis)
        return p

    def times(self, q, cross, bad, length, give):
        r = self.r
        q["l1"] = q["l2"] = -1
        if give or {"tlen", "tone"} & bad:
            q["l1"] = length
            q["l2"] = length if cross else -1
        if "tlen" in bad:
            j = length + pick(r, [-1, 1, -2])
            w = pick(r, ["l1", "l2"]) if cross else "l1"
            q[w] = j
        if "tone" in bad:
            q[pick(r, ["l1", "l2"])] = -1

    def tarr(self, n):
        if n == -1:
            return None
        return np.array(sorted(self.r.sample(range(2 * n), n)), "int64")

    def mask(self, q, bad, frame, p=0):
        r = self.r
        q.update(hasmask=0, mshape=[], mcount=0)
        if "mask" in bad or (r.random() < 0.3 and p == 0):
            ms = list(frame)
            if "mask" in bad and p == 0:
                i = r.randrange(len(ms))
                ms[i] += pick(r, [-1, 1])
                if r.random() < 0.2:
                    ms = ms + [2]
            m = np.array([r.randint(0, 1) for _ in range(int(np.prod(ms)))], bool).reshape(ms)
            m.flat[0] = True
            q.update(hasmask=1, mshape=ms, mcount=int(m.sum()))
            return m

    def divisor(self, q, bad, total):
        r = self.r
        ds = [i for i in range(1, total + 1) if total % i == 0]
        q["td"] = pick(r, ds) if r.random() < 0.3 else -1
        if "td" in bad:
            q["td"] = pick(r, [i for i in range(2, 2 * total + 2) if total % i] + [0, -2, -99])
        return {-1: None, -99: "many"}.get(q["td"], q["td"])

    # ---------------------------------------------------------------- requests
    def linear(self, bad):
        r = self.r
        cross = r.random() < 0.6
        q = dict(kind="linear", api="ccorr" if cross else "acorr", cross=int(cross))
        self.common(q, cross, bad)
        p = self.frames(q, cross, bad - ({"shape", "ndim"} if not cross else set()))
        length = q["d1"][p] if q["d1"] else 1
        self.times(q, cross, bad - ({"tone"} if not cross else set()), length, r.random() < 0.4)
        n = q["n"] = -2 if "n" in bad else pick(r, [-1, 3, 6, 15])
        a, b = cxa(r, q["d1"]), cxa(r, q["d2"])
        kw = self.kw(q)
        q["out"], outs = [], []
        frame = [x for i, x in enumerate(q["d1"]) if i != p]
        if ("out" in bad or r.random() < 0.3) and n not in (-2, -1):
            m = n if not (q["cplx"] and cross) else 2 * n - 1
            k = 4 if q["method"] == "diff" else 5
            cr = "complex128"
            real = cr if q["cplx"] else "float64"
            ty = [real, "int64", real, cr, cr] if k == 5 else [real, "int64", cr, cr]
            sh = [frame + [m], [m]] + [frame + [m]] * (k - 2)
            sh = [list(s) for s in sh]
            if "out" in bad:
                i = r.randrange(k)
                w = r.randrange(3)
                if w == 0 and i != 1 and frame:
                    sh[i][r.randrange(len(frame))] += pick(r, [-1, 1])
                elif w == 1:
                    ty[i] = pick(r, ["float32", "int32", "complex64"]) if i != 1 else "float64"
                else:
                    k = pick(r, [1, k - 1, k + 1])
                    ty, sh = (ty + ["float64"])[:k], (sh + [sh[0]])[:k]
            outs = [np.zeros(s, t) for s, t in zip(sh, ty)]
            if r.random() < 0.5 or "out" in bad:
                q["out"] = [[1, list(s), t] for s, t in zip(sh, ty)]
            else:
                q["out"] = [[1, list(s), t] for s, t in zip(sh, ty)]
                j = r.randrange(k)
                outs[j] = None
                q["out"][j][0] = 0
            kw["aout"] = tuple(outs)
        if n != -1:
            kw["n"] = n
        kw["axis"] = q["axis"]
        if r.random() < 0.3:
            kw["align"] = True
        t1, t2 = self.tarr(q["l1"]), self.tarr(q["l2"])
        if cross:
            fn = lambda: self.core.ccorr(a, b, t1, t2, **kw)
        else:
            fn = lambda: self.core.acorr(a, t1, **kw)
        self.ask(q, fn, [a, b] + [t for t in (t1, t2) if t is not None])

    def multi(self, bad):
        r = self.r
        cross = r.random() < 0.6
        q = dict(kind="multi", api="ccorr_multi" if cross else "acorr_multi", cross=int(cross))
        self.common(q, cross, bad)
        p = self.frames(q, cross, bad - ({"shape", "ndim"} if not cross else set()), nd=pick(r, [2, 2, 3]))
        length = q["d1"][p] if q["d1"] else 1
        self.times(q, cross, bad - ({"tone"} if not cross else set()), length, False)
        q["n"] = pick(r, [5, 6])
        if "n" in bad:
            q["n"] = pick(r, [0, -3, 4, 2, length + 1, 2 * length])
        diff = q["method"] == "diff"
        q["binning"] = pick(r, [-1, 0, 2] if diff else [-1, 0, 1, 2])
        if "bin" in bad:
            q["binning"] = pick(r, [3, 4, -2] + ([1] if diff else []))
        q["nlevel"] = -2 if "nlevel" in bad else pick(r, [-1, 0])
        frame = [x for i, x in enumerate(q["d1"]) if i != p]
        mk = None
        q.update(hasmask=0, mshape=[], mcount=0)
        if frame and q["d1"]:
            if "mask" in bad and p != 0:
                q.update(hasmask=1, mshape=frame, mcount=int(np.prod(frame)))
                mk = np.ones(frame, bool)
            else:
                mk = self.mask(q, bad, frame, p)
        td = self.divisor(q, bad, q["mcount"] if q["hasmask"] else int(np.prod(frame)) if frame else 1)
        a, b = cxa(r, q["d1"]), cxa(r, q["d2"])
        kw = self.kw(q)
        kw.update(level_size=q["n"], axis=q["axis"])
        if q["binning"] != -1:
            kw["binning"] = q["binning"]
        if q["nlevel"] != -1:
            kw["nlevel"] = q["nlevel"]
        if mk is not None:
            kw["mask"] = mk
        if td is not None:
            kw["thread_divisor"] = td
        t1, t2 = self.tarr(q["l1"]), self.tarr(q["l2"])
        if cross:
            fn = lambda: self.mt.ccorr_multi(a, b, t1, t2, **kw)
        else:
            fn = lambda: self.mt.acorr_multi(a, t1, **kw)
        self.ask(q, fn, [a, b])

    def stream(self, bad):
        r = self.r
        cross, multi = r.random() < 0.5, r.random() < 0.6
        api = ("iccorr" if cross else "iacorr") + ("_multi" if multi else "")
        q = dict(kind="stream", api=api, cross=int(cross))
        self.common(q, cross, bad)
        q["n"] = n = pick(r, [1, 2, 5, 6])
        if "n" in bad:
            n = q["n"] = pick(r, [0, -1, -2, -8])
        count = pick(r, [12, 16, 17, 23, 32])
        q["chunk"] = pick(r, [-1, -1, 8, 6, count]) if n > 0 else pick(r, [-1, 8])
        if "chunk" in bad:
            q["chunk"] = pick(r, [count + 1, 2 * count] + ([max(n, 1) - 1] if n > 1 else []) + [0])
        if "level" in bad:
            n = q["n"] = count + pick(r, [1, 5])
        give = r.random() < 0.4
        self.times(q, cross, bad - {"tlen"} - ({"tone"} if not cross else set()), count + pick(r, [0, 0, 0, 3]), give)
        if "tlen" in bad:
            q["l1"] = count + pick(r, [-1, 0, 2])
            q["l2"] = (q["l1"] + pick(r, [-1, 1, 2])) if cross and q["l1"] >= count else q["l1"] if cross else -1
        aslist = r.random() < 0.2
        q["count"] = count
        if "count" in bad:
            q["count"] = -1
            if "tone" not in bad and "tlen" not in bad:
                q["l1"] = q["l2"] = -1
        elif r.random() < 0.2 and (aslist or q["l1"] != -1):
            q["count"] = -1
        # how many frames are there
        total = q["count"] if q["count"] != -1 else q["l1"] if q["l1"] != -1 else count
        chunk = q["chunk"] if q["chunk"] > 0 else total
        frames = chunk
        while 2 * frames <= total:
            frames *= 2
        supply = pick(r, [total, total, frames, total + 2])
        if "supply" in bad:
            supply = pick(r, [frames - 1, frames - 2, 0, 1, frames // 2])
            supply = max(supply, 0)
        if aslist and q["count"] == -1 and q["l1"] == -1:
            supply = total
        q["supply"] = supply
        q["known"] = supply if aslist else -1
        if "count" in bad:
            aslist, q["known"] = False, -1
        frame = [r.randint(2, 4) for _ in range(pick(r, [1, 2, 2]))]
        q["frame"] = frame
        diff = q["method"] == "diff"
        q["binning"], q["nlevel"] = -1, -1
        if multi:
            q["binning"] = pick(r, [-1, 0, 2] if diff else [-1, 0, 1, 2])
            if "bin" in bad:
                q["binning"] = pick(r, [3, 4, -2] + ([1] if diff else []))
            q["nlevel"] = -2 if "nlevel" in bad else pick(r, [-1, -1, 0, 9])
        q["mode"] = pick(r, ["full", "full", "chunk"])
        if "mode" in bad:
            q["mode"] = "other"
        mk = self.mask(q, bad, frame)
        td = self.divisor(q, bad, q["mcount"] if q["hasmask"] else int(np.prod(frame)))
        a = [cxa(r, frame) for _ in range(supply)]
        b = [cxa(r, frame) for _ in range(supply)]
        data = [(x, y) if cross else (x,) for x, y in zip(a, b)]
        q["odd"] = 0
        if "odd" in bad and supply > 2 and not q["hasmask"]:
            q["odd"] = 1
            i = r.randrange(1, min(supply, frames) - 1) if min(supply, frames) > 2 else 1
            if r.random() < 0.5:
                big = [frame[0] + 1] + frame[1:]
                data[i] = tuple(cxa(r, big) for _ in data[i])
            else:
                data[i] = data[i] + (cxa(r, frame), cxa(r, frame))
        kw = self.kw(q)
        kw["level_size" if multi else "n"] = n
        for k, v in (("chunk_size", q["chunk"]), ("count", q["count"]), ("binning", q["binning"]), ("nlevel", q["nlevel"])):
            if v != -1:
                kw[k] = v
        if mk is not None:
            kw["mask"] = mk
        if td is not None:
            kw["thread_divisor"] = td
        kw["mode"] = {"other": "all"}.get(q["mode"], q["mode"])
        if r.random() < 0.3:
            kw["auto_background"] = True
        t1, t2 = self.tarr(q["l1"]), self.tarr(q["l2"])
        if cross:
            kw.update(t1=t1, t2=t2)
        else:
            kw.update(t=t1)
        f = getattr(self.mt if multi else self.core, api)
        self.ask(q, lambda: f(data if aslist else iter(data), **kw), a + b)

    def reshape(self, bad):
        r = self.r
        q = dict(kind="reshape", api="reshape_input", cross=0)
        p = self.frames(q, False, bad & {"axis"}, nd=pick(r, [2, 3]))
        frame = [x for i, x in enumerate(q["d1"]) if i != p]
        if "mask" in bad and p != 0:
            q.update(hasmask=1, mshape=frame, mcount=int(np.prod(frame)))
            mk = np.ones(frame, bool)
        else:
            mk = self.mask(q, bad, frame, p)
        td = self.divisor(q, bad, q["mcount"] if q["hasmask"] else int(np.prod(frame)))
        a = cxa(r, q["d1"])
        res = self.ask(q, lambda: self.core.reshape_input(a, q["axis"], td, mk), [a])
        if res is None:
            return
        x, shape = res
        x = np.moveaxis(x, 0, -1) if p == 0 else None
        if x is None:
            return
        size = int(np.prod(x.shape[:-1]))
        w = pick(r, ["right", "right", "none", "wrong", "maskwrong"])
        q = dict(kind="restore", api="reshape_output", hasmask=q["hasmask"], mcount=q["mcount"], size=size, hasshape=1, shape=list(shape))
        if w == "none":
            q.update(hasshape=0, shape=[])
        elif w == "wrong":
            q["shape"] = list(shape)
            q["shape"][0] += 1
        elif w == "maskwrong" and mk is not None and size > 1:
            mk = mk.copy()
            mk.flat[int(np.argmin(mk.ravel()))] = True
            q["mcount"] = int(mk.sum())
        d = (x, np.zeros(x.shape[-1], int), x, None, x)
        self.ask(q, lambda: self.core.reshape_output(d, tuple(q["shape"]) if q["hasshape"] else None, mk), [x])

    def standing(self):
        """The same well-formed request again and again."""
        r = self.r
        if not hasattr(self, "std"):
            self.std = cxa(r, (16, 3)), cxa(r, (16, 3))
        a, b = self.std
        w = pick(r, ["ccorr", "ccorr_multi", "iccorr_multi"])
        base = dict(cross=1, method="corr", norm=7, cplx=0, l1=-1, l2=-1, d1=[16, 3], d2=[16, 3], axis=0, n=6, binning=1, nlevel=-1, hasmask=0, mshape=[], mcount=0, td=-1)
        if w == "ccorr":
            q = dict(base, kind="linear", api=w, out=[])
            fn = lambda: self.core.ccorr(a, b, n=6, norm=7, method="corr")
        elif w == "ccorr_multi":
            q = dict(base, kind="multi", api=w)
            fn = lambda: self.mt.ccorr_multi(a, b, level_size=6, norm=7, binning=1)
        else:
            q = dict(base, kind="stream", api=w, chunk=8, count=16, supply=16, known=-1, frame=[3], mode="full", odd=0)
            fn = lambda: self.mt.iccorr_multi(iter(list(zip(a, b))), level_size=6, norm=7, binning=1, chunk_size=8, count=16)
        self.ask(q, fn, [a, b], key=w)


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return (a is None) == (b is None) and a == b


MISTAKES = dict(
    linear=["method", "cplx", "norm", "shape", "ndim", "scalar", "axis", "tlen", "tone", "n", "out"],
    multi=["method", "cplx", "norm", "shape", "ndim", "axis", "tlen", "tone", "n", "bin", "nlevel", "mask", "td"],
    stream=["method", "cplx", "norm", "n", "chunk", "level", "tone", "tlen", "count", "supply", "bin", "nlevel", "mode", "mask", "td", "odd"],
    reshape=["axis", "mask", "td"])


def main():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    group = sys.argv[2]
    R = Recorder(sys.argv[1])
    for i in range(40 * (8 if THOROUGH else 1)):
        r = rng("req-" + group, i)

        def one(c, r=r):
            s = Session(c, r)
            for _ in range(30):
                if group != "reshape" and r.random() < 0.12:
                    s.standing()
                    continue
                nb = pick(r, [0, 0, 1, 1, 1, 1, 2])
                getattr(s, group)(set(r.sample(MISTAKES[group], nb)))
        R.case("%s-%d" % (group, i), one)
    R.done()


main()
