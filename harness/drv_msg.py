"""What computations print.  argv: trace file."""
import contextlib
import io
import os
import re
import sys
import warnings

import numpy as np

from rec import Recorder, rng, SCRATCH, THOROUGH

CODES = {"None": -1, "True": 1, "False": 0, "fft": 101, "corr": 102, "diff": 103, "full": 104, "chunk": 105}
BAR = re.compile(r"\r *\|([=-]*)\| ([0-9.]+)% *\r(\n?)")
LINE = re.compile(r"([^\r\n]*)[\r\n]")


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def value(s):
    s = s.strip()
    return CODES[s] if s in CODES else int(s) if re.fullmatch(r"-?\d+", s) else 99999


def line(s):
    m = re.match(r"   \* (\w[\w ]*\w|\w) *: (.*)$", s)
    if m:
        return dict(t="param", n=value(m.group(2)), s=m.group(1).strip())
    m = re.match(r"#(try|mark|set) (-?\d+)$", s)
    if m:
        return dict(t=m.group(1), n=int(m.group(2)), s="")
    m = re.match(r"\.\.\. processed (\d+) frames", s)
    if m:
        return dict(t="rate", n=int(m.group(1)), s="")
    if s.startswith("WARNING"):
        return dict(t="warn", n=0, s="")
    if re.match(r"\.\.\. \w", s):
        return dict(t="step", n=0, s=s)
    if re.match(r"[A-Z].*\.\.\.$", s):
        return dict(t="head", n=0, s=s)
    return dict(t="other", n=0, s=s[:60])


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = BAR.match(text, i)
        if m:
            out.append(dict(t="bar", n=int(round(float(m.group(2)) * 10)), s=m.group(1).count("=")))
            if m.group(3):
                out.append(dict(t="end", n=0, s=""))
        else:
            m = LINE.match(text, i) or re.compile("(.*)", re.S).match(text, i)
            out.append(line(m.group(1)))
        i = m.end()
    return out


class World(object):
    def __init__(self, c, r):
        import cddm.conf
        import cddm.print_tools
        self.c, self.r, self.conf, self.pt = c, r, cddm.conf, cddm.print_tools

    def set(self, k, v=None):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            if k == "set":
                ret = self.conf.set_verbose(v)
            elif k == "disable":
                ret = self.pt.disable_prints()
            else:
                ret = self.pt.enable_prints() if v is None else self.pt.enable_prints(v)
        self.c.event(k=k, api=k, v=-99 if v is None else v, ret=int(ret), log=tokens(buf.getvalue()))
        self.c.canary(["ret"], to=int(ret) + 1)

    def program(self, i, free):
        """What the program does between two frames."""
        x = self.r.random()
        if x < 0.25:
            m = pick(self.r, [1, 2])
            print("#try %d" % m)
            (self.pt.print1 if m == 1 else self.pt.print2)("#mark %d" % m)
        elif x < 0.35 and i > 0 and free:
            v = self.r.randint(0, 2)
            self.conf.set_verbose(v)
            print("#set %d" % v)

    def call(self, api, fn, args, kw, heads=1, shows=0, frames=-1, facts=(), warns=0, known=None):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            res, err = self.c.call(fn, *args, **kw)
        facts, w = list(facts), warns
        if res is not None and known is not None:
            frames, more, w = known(res)
            facts += more
        log = tokens(buf.getvalue())
        self.c.event(k="call", api=api, heads=heads, shows=shows, frames=int(frames), warns=int(w) if not err else sum(t["t"] == "warn" for t in log),
                     raised=int(bool(err)), err=err, log=log, facts=[[a, int(b)] for a, b in facts])
        n = len(self.c.ev) - 1
        i = self.r.randrange(len(log)) if log else 0
        if log and not err:
            if log[i]["t"] in ("head", "rate", "end", "other"):
                self.c.can.append(dict(ev=n, path=["log", i, "t"], to="other"))
            if log[i]["t"] == "bar":
                self.c.can.append(dict(ev=n, path=["log", i, "n"], to=1001))
        return res, err


def field(r, n, shape):
    return np.array([[r.randint(-3, 3) + 1j * r.randint(-3, 3) for _ in range(int(np.prod(shape)))] for _ in range(n)]).reshape((n,) + shape)


class Viewer(object):
    def __init__(self, w):
        self.w, self.n = w, 0

    def set_data(self, *a, **k):
        pass

    def plot(self):
        self.n += 1
        self.w.program(self.n, True)


def norms(r, method, cross):
    if method == "diff":
        return pick(r, [2, 6]) if cross else 2
    return pick(r, [1, 2, 3, 5, 6, 7])


def linear(w):
    import cddm.core as m
    r = w.r
    cross = r.random() < 0.5
    n = r.randint(3, 20)
    shape = pick(r, [(), (3,), (2, 3)])
    method = pick(r, ["fft", "corr", "diff"])
    norm = norms(r, method, cross)
    k = r.randint(1, n)
    kw = dict(n=k, method=method, norm=norm)
    facts = [("n", k), ("method", CODES[method]), ("norm", norm)]
    args = [field(r, n, shape)] + ([field(r, n, shape)] if cross else [])
    if r.random() < 0.4:
        t = np.sort(np.array(r.sample(range(2 * n), n)))
        args += [t, np.sort(np.array(r.sample(range(2 * n), n)))] if cross else [t]
    if r.random() < 0.3:
        kw["align"] = r.random() < 0.5
        facts.append(("align", int(kw["align"])))
    if method != "diff" and r.random() < 0.4:
        kw["complex"] = True
    bad = r.random()
    if bad < 0.1:
        kw["method"] = "fast"
    elif bad < 0.2:
        kw["n"] = n + 1 if len(args) < 3 else -1
        kw["axis"] = 7
    w.call("ccorr" if cross else "acorr", m.ccorr if cross else m.acorr, args, kw, frames=n, facts=facts)


def multi(w):
    import cddm.multitau as m
    r = w.r
    cross = r.random() < 0.5
    n = r.randint(12, 70)
    shape = pick(r, [(3,), (2, 3)])
    method = pick(r, ["fft", "corr", "diff"])
    norm = norms(r, method, cross)
    size = r.randint(5, 8)
    kw = dict(level_size=size, method=method, norm=norm)
    facts = [("level_size", size), ("method", CODES[method]), ("norm", norm)]
    if r.random() < 0.5:
        kw["period"] = 1
    if r.random() < 0.3:
        kw["binning"] = pick(r, [0, 1, 2])
        facts.append(("binning", kw["binning"]))
    if r.random() < 0.3:
        kw["thread_divisor"] = 3
        facts.append(("thread_divisor", 3))
    if method != "diff" and r.random() < 0.3:
        kw["complex"] = True
    facts.append(("is complex", int("complex" in kw)))
    if r.random() < 0.15:
        kw["level_size"] = n * 3
    kw.pop("period", None)
    args = [field(r, n, shape)] + ([field(r, n, shape)] if cross else [])
    w.call("ccorr_multi" if cross else "acorr_multi", m.ccorr_multi if cross else m.acorr_multi, args, kw, shows=1, frames=n, facts=facts,
           known=lambda res: (n, [("nlevel", len(res[1][1])), ("period", 1)], 0))


def stream(w):
    import cddm.core as mc
    import cddm.multitau as mm
    r = w.r
    cross, tau = r.random() < 0.5, r.random() < 0.6
    chunk = pick(r, [4, 6, 8])
    count = r.randint(chunk, 45)
    short = r.random() < 0.15
    shape = pick(r, [(3,), (2, 3)])
    size = r.randint(2, chunk)
    method = pick(r, ["fft", "corr", "diff"])
    norm = norms(r, method, cross)
    f = field(r, count, shape)
    kw = dict(count=count, chunk_size=chunk, method=method, norm=norm)
    kw["level_size" if tau else "n"] = size
    facts = [("count", count), ("chunk_size", chunk), ("level_size", size), ("method", CODES[method]), ("norm", norm)]
    if method != "diff" and r.random() < 0.3:
        kw["complex"] = True
    facts.append(("is complex", int("complex" in kw)))
    if tau and r.random() < 0.3:
        kw["binning"] = pick(r, [0, 1, 2])
        facts.append(("binning", kw["binning"]))
    kw["stats"] = r.random() < 0.5
    facts.append(("stats", int(kw["stats"])))
    for name, xs in (("auto_background", [False, True]), ("thread_divisor", [3]), ("mode", ["full", "chunk"])):
        if r.random() < 0.3:
            kw[name] = pick(r, xs)
            facts.append((name, CODES.get(str(kw[name]), kw[name])))
    if r.random() < 0.15:
        kw["mask"] = np.ones(shape, bool)
        kw.pop("thread_divisor", None)
        facts = [x for x in facts if x[0] != "thread_divisor"] + [("mask", 1)]
    if r.random() < 0.4:
        kw["viewer"] = Viewer(w)
    if short and not kw.get("viewer"):
        f = f[:r.randint(1, max(1, chunk - 1))]
        short = True
    else:
        short = False

    def source():
        for i, x in enumerate(f):
            w.program(i, not short)
            yield (x, x) if cross else (x,)
    fn = {(0, 0): mc.iacorr, (1, 0): mc.iccorr, (0, 1): mm.iacorr_multi, (1, 1): mm.iccorr_multi}[int(cross), int(tau)]

    def known(res):
        data = res[0] if kw.get("stats") else res
        fast = data[0] if tau else data
        length = int(fast[1][0])
        more = [("length", length)]
        if tau:
            more.append(("period", 1)), more.append(("nlevel", len(data[1][1])))
        return length, more, int(length != count)
    kw2 = dict(kw)
    args = [source()]
    if cross:
        args += [np.arange(count)] * 2
    w.call(fn.__name__, fn, args, kw2, shows=1, facts=facts, known=known)


def collect(w):
    import cddm.video as m
    r = w.r
    n, ncam = r.randint(1, 12), r.randint(1, 2)
    short = r.random() < 0.2
    f = field(r, n, (2, 2))

    def source():
        for i, x in enumerate(f):
            w.program(i, not short)
            yield (x,) * ncam
    api = pick(r, ["asarrays", "asmemmaps", "load"])
    if short:
        n += r.randint(1, 3)
    if api == "asmemmaps":
        base = os.path.join(SCRATCH, "msg")
        w.call(api, m.asmemmaps, [base, source()], dict(count=n), shows=1)
        for i in range(2):
            if os.path.exists(base + "_%d.npy" % i):
                os.remove(base + "_%d.npy" % i)
    else:
        w.call(api, getattr(m, api), [source()], dict(count=n), shows=1, frames=n)


def after(w):
    """Normalisation, averages, statistics."""
    import cddm.core as mc
    import cddm.multitau as mm
    import cddm.norm as mn
    r = w.r
    cross = r.random() < 0.5
    tau = r.random() < 0.4
    n = 24
    f = [field(r, n, (2, 3)) for _ in range(2 if cross else 1)]
    lev = w.conf.CDDMConfig.verbose
    w.conf.CDDMConfig.verbose = 0
    method = pick(r, ["corr", "diff"])
    norm = (6 if cross else 2) if method == "diff" else 7
    fn = {(0, 0): mc.acorr, (1, 0): mc.ccorr, (0, 1): mm.acorr_multi, (1, 1): mm.ccorr_multi}[int(cross), int(tau)]
    data = fn(*f, method=method, norm=norm, **(dict(level_size=6) if tau else dict(n=8)))
    bg, var = mc.stats(*f)
    w.conf.CDDMConfig.verbose = lev
    what = r.randint(0, 3)
    if what <= 1:
        want = pick(r, [2, 6] if cross else [2]) if method == "diff" else pick(r, [1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15])
        kw = dict(norm=want, scale=r.random() < 0.5, mode=pick(r, ["corr", "diff"]), background=bg, variance=var)
        if r.random() < 0.3:
            kw["mask"] = np.array([[1, 0, 1], [0, 1, 1]], bool)
        if r.random() < 0.2:
            kw["norm"] = 4
        if r.random() < 0.15:
            kw["variance"] = None
        facts = [("norm", want), ("scale", int(kw["scale"])), ("mode", CODES[kw["mode"]]), ("mask", int("mask" in kw)),
                 ("background", 1), ("variance", int(kw["variance"] is not None))]
        w.call("normalize", mm.normalize_multi if tau else mn.normalize, [data], kw, facts=[] if tau else facts)
    elif what == 2:
        ax = r.randint(0, 2)
        w.call("stats", mc.stats, f, dict(axis=ax), facts=[("axis", ax)])
        w.call("subtract_background", mc.subtract_background, [f[0]], dict(axis=ax), facts=[("axis", ax)])
    else:
        x = np.arange(40.) + 1
        size = r.randint(1, 6)
        w.call("log_average", mm.log_average, [x], dict(size=size), facts=[("size", size)])
        w.call("log_average", mm.log_average, [x], dict(size=-size), facts=[("size", size)])


def silent(w):
    """Operations that have nothing to tell."""
    import cddm.core as mc
    import cddm.fft as mf
    import cddm.map as mp
    import cddm.multitau as mm
    import cddm.norm as mn
    import cddm.sim as ms
    import cddm.video as mv
    import cddm.window as mw
    r = w.r
    x = np.arange(64.).reshape(8, 8)
    lin = np.arange(12.) + 1
    vid = lambda: ((x, x) for _ in range(3))
    ops = [("multilevel", mm.multilevel, [lin], dict(level_size=4)),
           ("log_merge", mm.log_merge, [lin[:8], np.ones((2, 8))], {}),
           ("fold_data", mn.fold_data, [lin[:11] + 0j], {}),
           ("rfft2_video", lambda v: list(mf.rfft2_video(v, kimax=2, kjmax=2)), [vid()], {}),
           ("video", lambda v: list(mv.normalize_video(mv.subtract(mv.multiply(mv.crop(v, ((0, 4), (0, 4))), [(x[:4, :4],) * 2] * 3), [(x[:4, :4],) * 2] * 3))), [vid()], {}),
           ("threaded", lambda v: list(mv.threaded(v)), [vid()], {}),
           ("k_select", lambda d: list(mp.k_select(d, 0, 30, shape=(8, 8))), [np.ones((8, 5, 4))], {}),
           ("particles", lambda: list(ms.particles_video(ms.brownian_particles(count=3, shape=(16, 16), num_particles=2), range(3), shape=(16, 16))), [], {}),
           ("hann", mw.hann, [(6, 6)], {}), ("count", mm.ccorr_multi_count, [40], dict(level_size=8)),
           ("auto_correlate", mc.auto_correlate, [field(r, 8, ())], dict(n=4)),
           ("weight_from_data", mn.weight_from_data, [lin[::-1] / 13.], {})]
    for api, fn, a, kw in r.sample(ops, 3):
        w.call(api, fn, a, kw, heads=0)


def history(c, r):
    w = World(c, r)
    w.conf.set_verbose(0)
    for _ in range(r.randint(2, 5)):
        for _ in range(r.randint(0, 2)):
            k = pick(r, ["set", "set", "set", "disable", "enable", "enable"])
            if k == "set":
                w.set(k, pick(r, [0, 1, 1, 2, 2, 2, -1, 3]))
            elif k == "disable":
                w.set(k)
            else:
                w.set(k, pick(r, [None, None, 0, 1, 2, -2]))
        pick(r, [linear, linear, multi, stream, stream, stream, collect, after, after, silent])(w)
    w.set("set", 0)


def main():
    R = Recorder(sys.argv[1])
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    for i in range(150 * (10 if THOROUGH else 1)):
        r = rng("messages", i)
        R.case("messages-%d" % i, lambda c, r=r: history(c, r))
    R.done()


main()
