"""Linear correlation: ccorr, acorr and the low level cross_*/auto_* functions.

argv: trace file, focus in {cor, count, sums, aout}."""
import itertools
import sys

import numpy as np

from rec import Recorder, dress, ints, is_complex, quiet, re_im, rng, shape_of, THOROUGH


def data(r, T, frame, axis, real=False, amp=3, even=True):
    """Integer valued frames; the time axis goes to `axis`."""
    shape = (T,) + frame
    m = 2 if even else 1
    low = 0 if real and r.random() < 0.5 else -amp
    size = int(np.prod(shape))
    re = np.array([m * r.randint(low, amp) for _ in range(size)], "float64").reshape(shape)
    if real:
        f = re
    else:
        im = np.array([m * r.randint(-amp, amp) for _ in range(size)], "float64").reshape(shape)
        f = re + 1j * im
    return dress(r, np.ascontiguousarray(np.moveaxis(f, 0, axis)))


def pixels(f, axis):
    """pixel-major integer matrices of f (time last)."""
    g = np.moveaxis(np.asarray(f), axis, -1)
    g = g.reshape((-1, g.shape[-1]))
    return re_im(g)


def pix_out(x):
    x = np.asarray(x)
    return x.reshape((-1, x.shape[-1]))


def times(r, T, style):
    span = {"dense": T + 2, "sparse": 3 * T + 2}[style]
    t1 = sorted(r.sample(range(span), T))
    t2 = sorted(r.sample(range(span), T))
    off = r.choice([0, 0, 5, -4])
    t1, t2 = [t + off for t in t1], [t + off for t in t2]
    if r.random() < 0.2:
        r.shuffle(t1)
        r.shuffle(t2)
    return t1, t2


def base_event(k, api, auto, cplx, diff, n, t1, t2, T, norm, aout, f1, f2, axis, s1=None, s2=None):
    f1r, f1i = pixels(f1, axis)
    f2r, f2i = pixels(f2, axis)
    return dict(k=k, api=api, auto=auto, cplx=cplx, diff=diff, n=-1 if n is None else n,
                irr=0 if t1 is None else 1, t1=t1 or [], t2=t2 or [], T=T, norm=norm, aout=aout,
                f1r=f1r, f1i=f1i, f2r=f2r, f2i=f2i, axis=axis % f1.ndim, dshape=list(f1.shape),
                s1=[] if s1 is None else pixels(s1, axis)[0],
                s2=[] if s2 is None else pixels(s2, axis)[0])


def blank():
    return dict(ocre=[], ocim=[], ocnt=[], osq=[], om1r=[], om1i=[], om2r=[], om2i=[], ctype=-1,
                sh=[[-1]] * 5, inplace=1, inputsame=1)


def observe_raw(res, diff):
    o = blank()
    if diff:
        cor, cnt, m1, m2 = res
        sq = None
    else:
        cor, cnt, sq, m1, m2 = res
    o["sh"] = [shape_of(x) for x in (cor, cnt, sq, m1, m2)]
    o["ctype"] = is_complex(cor)
    cr, ci = re_im(pix_out(cor))
    o["ocre"], o["ocim"] = cr, ci if o["ctype"] else []
    o["ocnt"] = ints(cnt)
    if sq is not None:
        o["osq"] = ints(pix_out(sq))
    if m1 is not None:
        o["om1r"], o["om1i"] = re_im(pix_out(m1))
    if m2 is not None:
        o["om2r"], o["om2i"] = re_im(pix_out(m2))
    return o


def same(a, b):
    return 1 if all(x is None or np.array_equal(x, y) for x, y in zip(a, b)) else 0


def raw_case(rec, core, cid, r, auto, method, cplx, irr, ndim, align, calls, n_style, axis=None):
    diff = 1 if method == "diff" else 0
    T = r.choice([1, 2, 3, 4, 5, 6, 8, 11])
    if THOROUGH and r.random() < 0.3:
        T = r.choice([13, 16, 21])
    frame = {1: (), 2: (r.choice([1, 2, 3]),), 3: (r.choice([1, 2]), r.choice([1, 2, 3]))}[ndim]
    axis = r.randrange(-ndim, ndim) if axis is None else axis
    n = {"none": None, "one": 1, "small": max(1, T // 2), "full": T, "long": T + 3, "longer": 2 * T + 5}[n_style]
    if diff:
        norm = 2 if auto else r.choice([2, 6, None])
        eff = {None: 2 if auto else 6}.get(norm, norm)
    else:
        norm = r.choice([1, 2, 3, 5, 6, 7, None])
        eff = 7 if norm is None else norm
    if norm is None and not diff and method is None:
        eff = 7
    use_t = None
    real_in = r.random() < 0.2

    def run(c):
        out = None
        for k in range(calls):
            t1 = t2 = None
            if irr:
                t1, t2 = times(r, T, r.choice(["dense", "sparse"]))
                if auto:
                    t2 = t1
            f1 = data(r, T, frame, axis, real_in)
            f2 = f1 if auto else data(r, T, frame, axis, real_in if calls > 1 or r.random() < 0.8 else not real_in)
            s1 = s2 = None
            if not diff and r.random() < 0.2:
                s1 = data(r, T, frame, axis, True)
                s2 = s1 if auto else data(r, T, frame, axis, True)
            kw = dict(norm=norm, method=method, align=align, axis=axis)
            if cplx or not diff:
                kw["complex"] = bool(cplx)
            if k == 0:
                nn = n
                if n is not None:
                    kw["n"] = n
            else:
                nn = neff
                kw["aout"] = out
                kw["n"] = nn if r.random() < 0.5 else None
                if kw["n"] is None and method is None:
                    kw["n"] = nn            # keeps the default method
            ev = base_event("raw", "acorr" if auto else "ccorr", auto, cplx, diff, nn, t1, t2, T,
                            eff, 1 if k else 0, f1, f2, axis, s1, s2)
            ev["method"], ev["align"] = str(method), int(align)
            keep = [x.copy() if x is not None else None for x in (f1, f2, s1, s2)]
            if auto:
                if t1 is not None:
                    kw["t"] = r.choice([list, np.array])(t1)
                if s1 is not None:
                    kw["fs"] = s1
                res, err = c.call(core.acorr, f1, **kw)
            else:
                if t1 is not None:
                    kw["t1"], kw["t2"] = r.choice([list, np.array])(t1), r.choice([list, np.array])(t2)
                if s1 is not None:
                    kw["f1s"], kw["f2s"] = s1, s2
                res, err = c.call(core.ccorr, f1, f2, **kw)
            ev["err"] = err
            ev.update(blank())
            if not err:
                ev.update(observe_raw(res, diff))
                if k:
                    ev["inplace"] = same(out, res)
                ev["inputsame"] = same(keep, (f1, f2, s1, s2))
            c.ev.append(ev)
            if err:
                return
            L = ev["sh"][0][-1]
            neff = (L + 1) // 2 if (cplx and not auto) else L
            out = res
            if auto and irr and neff == 0:
                return
        if FOCUS in ("cor", "aout"):
            c.canary(["ocre", 0, 0], ev=len(c.ev) - 1)
        if FOCUS == "count":
            c.canary(["ocnt", 0], ev=0)
        if FOCUS in ("sums", "aout"):
            if ev["osq"]:
                c.canary(["osq", 0, 0])
            if ev["om1r"]:
                c.canary(["om1i", 0, 0])
            if ev["om2r"]:
                c.canary(["om2r", 0, 0])
    rec.case(cid, run, "%s %s method=%s complex=%d irregular=%d ndim=%d align=%s n=%s calls=%d" % (
        "acorr" if auto else "ccorr", frame, method, cplx, irr, ndim, align, n_style, calls))


def low_case(rec, core, cid, r, fn, auto, cplx, diff, what, irr, ndim, align, calls):
    T = r.choice([1, 2, 3, 5, 7, 10])
    frame = {1: (), 2: (r.choice([1, 3]),), 3: (2, r.choice([1, 2]))}[ndim]
    axis = r.randrange(-ndim, ndim)
    n = r.choice([None, 1, max(1, T // 2), T, T + 2])
    real_in = r.random() < 0.3

    def run(c):
        out = None
        for k in range(calls):
            t1 = t2 = None
            if irr:
                t1, t2 = times(r, T, r.choice(["dense", "sparse"]))
                if auto:
                    t2 = t1
            f1 = data(r, T, frame, axis, real_in)
            f2 = f1 if auto else data(r, T, frame, axis, real_in)
            kw = dict()
            nn = n if k == 0 else neff
            if k == 0 and n is not None:
                kw["n"] = n
            if k:
                kw["aout"] = out
            ev = base_event("low", fn, auto, cplx, diff, nn, t1, t2, T, 7, 1 if k else 0, f1, f2, axis)
            ev["what"] = what
            keep = f1.copy(), f2.copy()
            if what == "count":
                if cplx:
                    kw["complex"] = True
                if irr:
                    args = (t1,) if auto else (t1, t2)
                else:
                    args = (T,) if (auto or r.random() < 0.5) else (T, T)
            else:
                kw["axis"] = axis
                if align is not None and not fn.endswith("fft"):
                    kw["align"] = align
                if not (auto and what == "sum") and not diff:
                    kw["complex"] = bool(cplx)
                if what == "sum-inverted":
                    kw["time_inversion"] = True
                if what.startswith("sum"):
                    args = (f1,)
                    if irr:
                        kw["t"] = t1
                        if not auto:
                            kw["t_other"] = t2
                else:
                    args = (f1,) if auto else (f1, f2)
                    if irr and auto:
                        kw["t"] = t1
                    elif irr:
                        kw["t1"], kw["t2"] = t1, t2
            res, err = c.call(getattr(core, fn), *args, **kw)
            ev["err"] = err
            ev.update(blank())
            if not err:
                ev["sh"] = [shape_of(res)] + [[-1]] * 4
                ev["ctype"] = is_complex(res)
                if what == "count":
                    ev["ocnt"] = ints(res)
                elif what == "cor":
                    a, b = re_im(pix_out(res))
                    ev["ocre"], ev["ocim"] = a, b if cplx else []
                    c.canary(["ocre", 0, 0], ev=k)
                else:
                    ev["om1r"], ev["om1i"] = re_im(pix_out(res))
                if k:
                    ev["inplace"] = same((out,), (res,))
                ev["inputsame"] = same(keep, (f1, f2))
            c.ev.append(ev)
            if err:
                return
            L = ev["sh"][0][-1]
            neff = (L + 1) // 2 if (cplx and not auto) else L
            out = res
        if what == "count":
            c.canary(["ocnt", 0])
        elif what != "cor":
            c.canary(["om1r", 0, 0])
    rec.case(cid, run, "%s %s irregular=%d ndim=%d complex=%d calls=%d" % (fn, what, irr, ndim, cplx, calls))


FOCUS = sys.argv[2] if len(sys.argv) > 2 else ""


def main():
    path, focus = sys.argv[1:3]
    import cddm.core as core
    quiet()
    rec = Recorder(path)
    reps = 4 if not THOROUGH else 24
    styles = ["none", "one", "small", "full", "long", "longer"]
    k = 0
    methods = [("corr", 0), ("corr", 1), ("fft", 0), ("fft", 1), ("diff", 0), (None, 0), (None, 1)]
    for rep in range(reps):
        for auto, (method, cplx), irr, ndim, align in itertools.product(
                (0, 1), methods, (0, 1), (1, 2, 3), (False, True)):
            k += 1
            r = rng("raw", focus, rep, k)
            if focus == "aout":
                calls = r.choice([2, 3])
            else:
                calls = r.choice([1, 1, 1, 2])
            if method is None and calls > 1:
                calls = 1
            raw_case(rec, core, "raw-%d-%d" % (rep, k), r, auto, method, cplx, irr, ndim, align, calls,
                     styles[k % len(styles)] if focus != "aout" else r.choice(styles))
        lows = []
        if focus in ("cor", "aout"):
            for cplx, irr, ndim, align in itertools.product((0, 1), (0, 1), (1, 2, 3), (False, True)):
                lows += [("cross_correlate", 0, cplx, 0, "cor", irr, ndim, align),
                         ("auto_correlate", 1, cplx, 0, "cor", irr, ndim, align)]
                if not align:
                    lows += [("cross_correlate_fft", 0, cplx, 0, "cor", irr, ndim, None),
                             ("auto_correlate_fft", 1, cplx, 0, "cor", irr, ndim, None)]
                if not cplx:
                    lows += [("cross_difference", 0, 0, 1, "cor", irr, ndim, align),
                             ("auto_difference", 1, 0, 1, "cor", irr, ndim, align)]
        if focus in ("count", "aout"):
            for j in range(12 if focus == "count" else 2):
                for irr in (0, 1):
                    lows += [("cross_count", 0, 0, 0, "count", irr, 1, None),
                             ("cross_count", 0, 1, 0, "count", irr, 1, None),
                             ("auto_count", 1, 0, 0, "count", irr, 1, None)]
        if focus in ("sums", "aout"):
            for cplx, irr, ndim, align in itertools.product((0, 1), (0, 1), (1, 2, 3), (False, True)):
                lows += [("cross_sum", 0, cplx, 0, "sum", irr, ndim, align)]
                if irr or cplx:
                    lows += [("cross_sum", 0, cplx, 0, "sum-inverted", irr, ndim, align)]
                if irr and not align:
                    lows += [("cross_sum_fft", 0, cplx, 0, "sum", irr, ndim, None),
                             ("cross_sum_fft", 0, cplx, 0, "sum-inverted", irr, ndim, None)]
                if not cplx:
                    lows += [("auto_sum", 1, 0, 0, "sum", irr, ndim, align)]
                    if irr and not align:
                        lows += [("auto_sum_fft", 1, 0, 0, "sum", irr, ndim, None)]
        for i, a in enumerate(lows):
            r = rng("low", focus, rep, i)
            low_case(rec, core, "low-%d-%d" % (rep, i), r, *a, calls=r.choice([2, 3]) if focus == "aout" else 1)
    rec.done()


if __name__ == "__main__":
    main()
