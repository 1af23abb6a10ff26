"""Window functions.  argv: trace file."""
import sys
import warnings

import numpy as np

from rec import Recorder, quiet, rng, THOROUGH


def pick(r, xs):
    return xs[r.randrange(len(xs))]


PARS = dict(hann=[(1, 1)], blackman=[(1, 1)], tukey=[(0, 1), (1, 4), (1, 3), (1, 2), (2, 3), (3, 4), (1, 1), (1, 10)],
            gaussian=[(1, 4), (1, 2), (1, 3), (1, 1), (2, 1), (3, 1)])


def t4(a):
    return np.rint(np.asarray(a, float) * 10000).astype(int).tolist()


def window_case(c, m, fd, r):
    kind = pick(r, ["hann", "tukey", "tukey", "blackman", "gaussian"])
    h, w = r.randint(1, 12), r.randint(1, 12)
    par = pick(r, PARS[kind])
    args = [par[0] / par[1]] if kind in ("tukey", "gaussian") else []
    f = getattr(m, kind)
    buf, kw = None, {}
    if r.random() < 0.4:
        buf = kw["out"] = np.full((h, w), 7, pick(r, [fd, "float64", "float32"] if kind != "gaussian" else [fd]))
    out = f(pick(r, [tuple, list, np.array])((h, w)), *args, **kw)
    turned = f((w, h), *args)
    c.event(k="window", api=kind, kind=kind, h=h, w=w, par=list(par), out=t4(out), turned=t4(turned), given=int(buf is None or out is buf),
            type=int(buf is not None or out.dtype == fd))
    c.canary(["out", 0, 0], to=12345)
    if kind == "gaussian":
        h, w = 2 * (h // 2) + 1, 2 * (w // 2) + 1
        out = np.asarray(f((h, w), *args), float)
        c.event(k="outer", api=kind, out=t4(out), mid=t4(out)[h // 2][w // 2], row=t4(out[h // 2]), col=t4(out[:, w // 2]))
        c.canary(["row", -1], to=12345)


def refuse_case(c, m, fd, r):
    for kind, bad in (("tukey", lambda x: not 0 <= x <= 1), ("gaussian", lambda x: x <= 0)):
        for x in (0, 0., 1, -1, 1.0001, -0.0001, 2, 0.5, -0.5, 1e-9 if kind == "tukey" else 0.1):
            _, err = c.call(getattr(m, kind), (4, 5), x)
            c.event(k="refuse", api=kind, value=str(x), valid=int(not bad(x)), raised=int(bool(err)), err=err)
            c.canary(["raised"], to=1 - int(bool(err)))


def main():
    R = Recorder(sys.argv[1])
    quiet()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import cddm.window as m
    from cddm.conf import FDTYPE
    reps = 10 if THOROUGH else 1

    def loop(name, num, fn):
        for i in range(num * reps):
            r = rng(name, i)
            def one(c, r=r):
                fn(c, m, FDTYPE, r)
            R.case("%s-%d" % (name, i), one)
    loop("window", 150, window_case)
    loop("refuse", 2, refuse_case)
    R.done()


main()
