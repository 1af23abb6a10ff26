"""Settings, messages, computations in between; settings at start-up.  argv: trace file, focus."""
import contextlib
import io
import json
import os
import re
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from rec import Recorder, HarnessError, rng, SCRATCH, SINGLE, THOROUGH

NONE = -1000


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def state(conf):
    c = conf.CDDMConfig
    return dict(verbose=int(c.verbose), showlib=str(c.showlib), fftlib=str(c.fftlib), rfft2lib=str(c.rfft2lib),
                fftn=int(c.fft_threads), nbn=int(c.numba_threads))


def threads():
    import numba
    try:
        import pyfftw
        fw = int(pyfftw.config.NUM_THREADS)
    except ImportError:
        fw = -1
    return dict(nb=int(numba.get_num_threads()), fw=fw)


def numbers(x, out):
    """Everything a computation returned, in hundredths."""
    if x is None:
        out.append(-7)
    elif isinstance(x, (tuple, list)) or hasattr(x, "__next__"):
        x = list(x)
        out.append(len(x))
        for y in x:
            numbers(y, out)
    else:
        x = np.asarray(x)
        out.extend(x.shape)
        for y in ((x.real, x.imag) if x.dtype.kind == "c" else (x,)):
            y = np.asarray(y, "float64").ravel() * (1 if SINGLE else 100)
            y = np.where(np.isnan(y), 2000000002, np.clip(y, -2e9, 2e9))
            out.extend(int(v) for v in np.rint(y))
    return out


def computations(r):
    """name -> (function, has to raise)."""
    import cddm.core as core
    import cddm.multitau as mt
    import cddm.fft as fft
    import cddm.video as video
    import cddm.map as mp
    n = pick(r, [16, 32])       # whole chunks: streaming warns about data it crops
    cx = lambda *s: np.array([r.randint(-4, 4) + 1j * r.randint(-4, 4) for _ in range(int(np.prod(s)))]).reshape(s)
    f1, f2 = cx(n, 3, 2), cx(n, 3, 2)
    t1 = np.array(sorted(r.sample(range(2 * n), n)))
    t2 = np.array(sorted(r.sample(range(2 * n), n)))
    fr = [tuple(np.array([[r.randint(0, 9) for _ in range(6)] for _ in range(5)], "uint8") for _ in range(2)) for _ in range(3)]
    mask = np.array([[1, 0], [1, 1], [0, 1]], bool)
    pairs = lambda m=n: iter(list(zip(f1[:m].copy(), f2[:m].copy())))
    bg, var = (np.mean(f1, 0), np.mean(f2, 0)), (np.var(f1, 0), np.var(f2, 0))
    lin = core.ccorr(f1, f2, n=n // 2, norm=7)
    linc = core.ccorr(f1, f2, n=n // 2, norm=3, complex=True)
    multi = mt.ccorr_multi(f1, f2, level_size=8, norm=7)

    def vid():
        return [[a.copy() for a in x] for x in fft.rfft2_video(iter(fr), kimax=2, kjmax=2)]

    def arrays():
        return video.fromarrays(video.asarrays(iter(fr), count=3))

    def dead():
        yield (f1[0], f2[0])
        yield (f1[1], f2[1])
        raise ZeroDivisionError

    c = {
        "ccorr": lambda: core.ccorr(f1, f2, norm=7),
        "ccorr-complex": lambda: core.ccorr(f1, f2, n=5, norm=3, complex=True),
        "ccorr-fft": lambda: core.ccorr(f1, f2, t1, t2, method="fft", norm=7, n=9),
        "acorr": lambda: core.acorr(f1, t1, norm=3),
        "acorr-fft": lambda: core.acorr(f1, method="fft", n=n),
        "cdiff": lambda: core.ccorr(f1, f2, method="diff"),
        "ccorr_multi": lambda: mt.ccorr_multi(f1, f2, level_size=8, norm=3),
        "acorr_multi": lambda: mt.acorr_multi(f1, level_size=8, norm=3, method="fft"),
        "iccorr": lambda: core.iccorr(pairs(), n=4, count=n, norm=7, chunk_size=8),
        "iacorr": lambda: core.iacorr(iter(f1.copy()), n=4, count=n, norm=3, chunk_size=8, method="fft"),
        "iccorr_multi": lambda: mt.iccorr_multi(pairs(), count=n, level_size=4, norm=3, chunk_size=8),
        "iacorr_multi-mask": lambda: mt.iacorr_multi(iter(f1.copy()), count=n, level_size=4, norm=1, chunk_size=8, mask=mask),
        "normalize": lambda: core.normalize(lin, bg, var, norm=1),
        "normalize-structured": lambda: core.normalize(lin, bg, var, norm=2, mode="diff"),
        "normalize-weighted": lambda: core.normalize(lin, bg, var, norm=7, scale=True),
        "normalize-complex": lambda: core.normalize(linc, bg, var, norm=1),
        "normalize_multi": lambda: mt.normalize_multi(multi, bg, var, norm=1),
        "normalize_multi-weighted": lambda: mt.normalize_multi(multi, bg, var, norm=3, scale=True),
        "log_average": lambda: mt.log_average(core.normalize(lin, bg, var, norm=1), size=4),
        "log_merge": lambda: mt.log_merge(*mt.normalize_multi(multi, bg, var, norm=1)),
        "rfft2_video": vid,
        "k_select": lambda: list(mp.k_select(np.arange(30.).reshape(5, 3, 2), angle=0, sector=90, kstep=1, shape=(5, 5))),
        "load": arrays,
        "stats": lambda: core.stats(f1, f2),
        "subtract_background": lambda: core.subtract_background(f1, bg=bg[0]),
    }
    bad = {
        "ccorr-bad-method": lambda: core.ccorr(f1, f2, method="other"),
        "ccorr-bad-norm": lambda: core.ccorr(f1, f2, norm="other"),
        "iccorr-failing-source": lambda: core.iccorr(dead(), n=4, count=n, chunk_size=8),
        "iccorr_multi-failing-source": lambda: mt.iccorr_multi(dead(), count=n, level_size=4, chunk_size=8),
        "iacorr_multi-short": lambda: mt.iccorr_multi(dead(), count=n, level_size=4, chunk_size=8, norm=3, method="fft"),
        "normalize-bad-norm": lambda: core.normalize(lin, bg, var, norm="other"),
        "normalize-bad-mode": lambda: core.normalize(lin, bg, var, mode="other"),
        "normalize-bad-background": lambda: core.normalize(lin, (np.zeros((7, 7)), np.zeros((7, 7))), var, norm=7),
        "normalize-weighted-bad": lambda: core.normalize(lin, (np.zeros((7, 7)), np.zeros((7, 7))), var, norm=3),
        "normalize_multi-bad": lambda: mt.normalize_multi(multi, (np.zeros((7, 7)), np.zeros((7, 7))), var, norm=3),
        "normalize_multi-no-variance": lambda: mt.normalize_multi(multi, bg, None, norm=3),
        "rfft2_video-bad": lambda: list(fft.rfft2_video(iter(fr), kimax=9)),
    }
    return c, bad


def captured(fn):
    """-> result, exception or None, printed text, warned"""
    buf = io.StringIO()
    with warnings.catch_warnings(record=True) as w, np.errstate(all="ignore"):
        warnings.simplefilter("always")
        with contextlib.redirect_stdout(buf):
            try:
                res, err = fn(), None
            except Exception as e:
                res, err = None, e
    return res, err, buf.getvalue(), any(issubclass(x.category, UserWarning) for x in w)


def request(c, conf, pt, r, what, **kw):
    """One setter call."""
    libs = dict(fftlib=conf.set_fftlib, rfft2lib=conf.set_rfft2lib, showlib=conf.set_showlib)
    ev = dict(k="set", what=what, n=0, name="", previ=0, prevs="")
    if what in libs:
        ev["name"] = kw["name"]
        fn = (lambda: libs[what]()) if kw.get("default") else (lambda: libs[what](kw["name"]))
    elif what == "disable":
        fn = pt.disable_prints
    elif what == "enable":
        ev["n"] = kw["n"]
        fn = (lambda: pick(r, [pt.enable_prints, lambda: pt.enable_prints(None)])()) if kw["n"] == NONE else (lambda: pt.enable_prints(kw["n"]))
    else:
        ev["n"] = kw["n"]
        api = dict(verbose=conf.set_verbose, fft_threads=conf.set_fft_threads, numba_threads=conf.set_numba_threads)[what]
        fn = lambda: api(kw["n"])
    res, err, text, warned = captured(fn)
    ev["out"] = "raise" if err is not None else "warn" if warned else "ok"
    if err is None:
        if what in libs:
            ev["prevs"] = res if isinstance(res, str) else "?"
        else:
            ev["previ"] = int(res) if isinstance(res, (int, np.integer)) else 999999
    ev["api"] = "set_" + what if what not in ("enable", "disable") else what + "_prints"
    ev["st"] = state(conf)
    ev.update(threads())
    c.ev.append(ev)
    return ev


def message(c, conf, pt, r):
    what = pick(r, ["print1", "print2", "progress", "progress", "rate"])
    ev = dict(k="print", api="print_" + what, level=2 if what in ("print2", "rate") else 1)
    if what in ("print1", "print2"):
        args = [pick(r, ["a", "multi\nline", "", 3, None, (1, 2)]) for _ in range(r.randint(0, 3))]
        kw = pick(r, [{}, {}, dict(end=""), dict(sep="-", end="!\n")])
        buf = io.StringIO()
        print(*args, file=buf, **kw)
        _, err, text, _ = captured(lambda: getattr(pt, what)(*args, **kw))
        ev.update(what="text", want=[ord(x) for x in buf.getvalue()], got=[ord(x) for x in text])
    elif what == "progress":
        total = pick(r, [1, 2, 3, 7, 10, 16, 100, 1000, 333])
        i = pick(r, [0, total, r.randint(0, total), r.randint(0, total)])
        length, dec, fill = pick(r, [50, 50, 1, 7, 30]), pick(r, [0, 1, 1, 2, 3]), pick(r, "=#x")
        pre, suf = pick(r, ["", "Reading", "a b:"]), pick(r, ["", "done"])
        kw = {}
        if r.random() < .8:
            kw = dict(prefix=pre, suffix=suf, decimals=dec, length=length, fill=fill)
        else:
            pre, suf, dec, length, fill = "", "", 1, 50, "="
        _, err, text, _ = captured(lambda: pt.print_progress(i, total, **kw))
        m = re.match(r"^\r%s \|(%s*)(-*)\| (\d+)(?:\.(\d+))?%% %s\r(\n?)$" % (re.escape(pre), re.escape(fill), re.escape(suf)), text)
        ev.update(what="progress", i=i, total=total, length=length, p10=10 ** dec, fill=-1, dash=-1, pct=-1, nl=-1, ok=0)
        if m and len(m.group(4) or "") == dec:
            ev.update(ok=1, fill=len(m.group(1)), dash=len(m.group(2)), pct=int(m.group(3) + (m.group(4) or "")), nl=int(bool(m.group(5))))
    else:
        frames, t0, dt = r.randint(0, 500), r.randint(0, 100), r.randint(1, 60)
        _, err, text, _ = captured(lambda: pt.print_frame_rate(frames, t0, t0 + dt, **pick(r, [{}, dict(message="... processed")])))
        m = re.match(r"^\.\.\. processed (\d+) frames with an average frame rate (\d+)\.(\d\d)\n$", text)
        ev.update(what="rate", frames=frames, dt=dt, n=-1, rate=-1, ok=0)
        if m:
            ev.update(ok=1, n=int(m.group(1)), rate=int(m.group(2) + m.group(3)))
    if err is not None:
        raise HarnessError("unexpected %r" % err)
    ev["len"] = len(text)
    ev["st"] = state(conf)
    c.ev.append(ev)


def compute(c, conf, name, fn, wantraise):
    res, err, text, _ = captured(fn)
    ev = dict(k="compute", api="compute", name=name, raised=int(err is not None), wantraise=wantraise, len=len(text),
              res=[] if err is not None else numbers(res, []), st=state(conf), err="" if err is None else repr(err)[:200])
    c.ev.append(ev)
    return ev


INST = ["numpy", "scipy", "matplotlib"]


def installed():
    inst = list(INST)
    for m, n in (("mkl_fft",) * 2, ("pyfftw",) * 2, ("pyqtgraph",) * 2, ("cv2",) * 2):
        try:
            __import__(m)
            inst.append(n)
        except ImportError:
            pass
    return inst


def history(c, r, conf, pt, inst, most):
    # every history starts from the same settings
    conf.set_verbose(0), conf.set_fftlib("numpy"), conf.set_rfft2lib("numpy"), conf.set_showlib("matplotlib")
    conf.set_fft_threads(1), conf.set_numba_threads(1)
    good, bad = computations(r)
    c.head.update(inst=inst, most=most)
    c.event(k="start", api="start", st=state(conf))
    fnames = ["numpy", "numpy.fft", "scipy", "scipy.fftpack", "pyfftw", "pyfftw", "scipy", "mkl_fft", "other", "", "NUMPY"]
    names = r.sample(sorted(good), 5)
    for name in names:
        compute(c, conf, name, good[name], 0)
    depth = []
    for _ in range(r.randint(25, 40)):
        x = r.random()
        if x < 0.12:
            request(c, conf, pt, r, "verbose", n=pick(r, [0, 1, 1, 2, 2, 3, -1, -5, 7]))
        elif x < 0.22:
            lib = pick(r, ["fftlib", "rfft2lib"])
            if r.random() < .15:
                request(c, conf, pt, r, lib, name="numpy.fft", default=True)
            else:
                request(c, conf, pt, r, lib, name=pick(r, fnames))
        elif x < 0.27:
            request(c, conf, pt, r, "showlib", name=pick(r, ["matplotlib", "pyqtgraph", "cv2", "other", "Matplotlib"]))
        elif x < 0.32:
            request(c, conf, pt, r, "fft_threads", n=r.randint(1, 4))
        elif x < 0.38:
            request(c, conf, pt, r, "numba_threads", n=pick(r, [1, 2, most, most, most + 1, 0, -1, r.randint(1, most)]))
        elif x < 0.45:
            ev = request(c, conf, pt, r, "disable")
            depth.append(ev["previ"])
        elif x < 0.52:
            if depth and r.random() < 0.8:
                request(c, conf, pt, r, "enable", n=depth.pop())
            else:
                request(c, conf, pt, r, "enable", n=pick(r, [NONE, 0, 1, 2, -1]))
        elif x < 0.70:
            message(c, conf, pt, r)
        elif x < 0.73:
            _, err, text, _ = captured(conf.print_config)
            d = eval(text, {"__builtins__": {}})
            c.event(k="config", api="print_config", st=state(conf), shown=dict(
                verbose=d.get("verbose", -99), showlib=d.get("showlib", ""), fftlib=d.get("fftlib", ""), rfft2lib=d.get("rfft2lib", ""),
                fftn=d.get("fft_threads", -99), nbn=d.get("numba_threads", -99)))
        elif x < 0.90:
            name = pick(r, names)
            compute(c, conf, name, good[name], 0)
        else:
            name = pick(r, sorted(bad))
            compute(c, conf, name, bad[name], 1)
    ks = [i for i, e in enumerate(c.ev) if e["k"] == "compute" and not e["wantraise"] and e["res"]]
    if len(ks) > 5:         # a repeated computation
        c.canary(["res", r.randrange(len(c.ev[ks[-1]]["res"]))], ev=ks[-1], to=123456789)
    i = r.randrange(1, len(c.ev))
    c.canary(["st", "verbose"], ev=i)
    conf.set_verbose(0)


# ------------------------------------------------------------------ start-up
PROBE = """
import json, os, warnings
warnings.simplefilter("ignore")
try:
    import cddm.conf as c
    import cddm.fft
except Exception as e:
    print("RESULT" + json.dumps(dict(raised=1, err=repr(e))))
    raise SystemExit
import numba
try:
    import pyfftw
    fw = pyfftw.config.NUM_THREADS
except ImportError:
    fw = c.CDDMConfig.fft_threads
b = lambda t: t.itemsize * 8
kinds = "".join(t.kind for t in (c.FDTYPE, c.CDTYPE, c.UDTYPE, c.IDTYPE))
same = (c.F.bitwidth, c.C.bitwidth, c.U.bitwidth, c.I.bitwidth) == (b(c.FDTYPE), b(c.CDTYPE), b(c.UDTYPE), b(c.IDTYPE))
g = c.CDDMConfig
f = os.path.join(os.environ["HOME"], ".cddm", "cddm.ini")
print("RESULT" + json.dumps(dict(raised=0, err="",
    bits=[b(c.FDTYPE), b(c.CDTYPE), b(c.UDTYPE), b(c.IDTYPE),
          int(kinds == "fcui" and same and c.PRECISION == ("double" if b(c.FDTYPE) == 64 else "single"))],
    parallel=int(c.NUMBA_PARALLEL and c.NUMBA_TARGET == "parallel"), fastmath=int(bool(c.NUMBA_FASTMATH)), cache=int(bool(c.NUMBA_CACHE)),
    st=dict(verbose=int(g.verbose), showlib=str(g.showlib), fftlib=str(g.fftlib), rfft2lib=str(g.rfft2lib),
            fftn=int(g.fft_threads), nbn=int(g.numba_threads)),
    most=int(numba.config.NUMBA_NUM_THREADS), cores=os.sysconf("SC_NPROCESSORS_ONLN"),
    nb=int(numba.get_num_threads()), fw=int(fw),
    text=open(f).read() if os.path.exists(f) else "", template=open(c.CONF_TEMPLATE).read())))
"""
ENV = dict(double="CDDM_DOUBLE_PRECISION", parallel="CDDM_TARGET_PARALLEL", cache="CDDM_NUMBA_CACHE", fastmath="CDDM_FASTMATH")


def startup(r, k, inst):
    """One process start; returns the event."""
    home = os.path.join(SCRATCH, "home-%d" % k)
    os.makedirs(home)
    env = {n: v for n, v in os.environ.items() if not n.startswith("CDDM_")}
    env.update(HOME=home, NUMBA_NUM_THREADS=str(pick(r, [1, 2, 3, 4])))
    e = {n: pick(r, ["none", "none", "0", "1", "2", "bad"]) for n in ENV}
    for n, v in e.items():
        if v != "none":
            env[ENV[n]] = pick(r, ["x", "yes", ""]) if v == "bad" else v
    i = {n: pick(r, ["none", "yes", "no", "bad"]) for n in ENV}
    libs = ["none", "none", "numpy", "scipy", "pyfftw", "mkl_fft", "numpy.fft", "scipy.fftpack"]
    i.update(verbose=pick(r, [NONE, 0, 1, 2, -1, 5]), fftlib=pick(r, libs), rfft2lib=pick(r, libs),
             showlib=pick(r, ["none", "none", "matplotlib", "pyqtgraph", "cv2"]),
             nbn=pick(r, [NONE, NONE, 1, 2, 3, 9, 0]), fftn=pick(r, [NONE, 1, 2, 5]))
    if r.random() < 0.1:
        i[pick(r, ["fftlib", "rfft2lib", "showlib"])] = "unknown"
    given = r.random() < 0.9
    text = ""
    if given:
        word = lambda v: {"yes": pick(r, ["yes", "true", "on", "1", "Yes"]), "no": pick(r, ["no", "false", "off", "0"]),
                          "bad": pick(r, ["maybe", "2", "-"])}[v]
        junk = lambda: pick(r, ["many", "", "1.5"])
        sec = dict(core=[], numba=[], fft=[])
        for s, key, n in (("core", "double_precision", "double"), ("numba", "parallel", "parallel"), ("numba", "cache", "cache"),
                          ("numba", "fastmath", "fastmath")):
            if i[n] != "none":
                sec[s].append("%s %s %s" % (key, pick(r, "=:"), word(i[n])))
        for s, key, n in (("core", "verbose", "verbose"), ("numba", "nthreads", "nbn"), ("fft", "nthreads", "fftn")):
            if i[n] != NONE:
                sec[s].append("%s = %d" % (key, i[n]))
            elif r.random() < 0.3:
                sec[s].append("%s = %s" % (key, junk()))
        for s, key in (("core", "showlib"), ("fft", "fftlib"), ("fft", "rfft2lib")):
            if i[key] != "none":
                sec[s].append("%s = %s" % (key, i[key]))
        for s in sec:
            r.shuffle(sec[s])
            if sec[s] or r.random() < 0.5:
                text += "[%s]\n" % s + "".join(x + "\n" for x in sec[s])
        os.makedirs(os.path.join(home, ".cddm"))
        with open(os.path.join(home, ".cddm", "cddm.ini"), "w") as f:
            f.write(text)
    else:
        i = dict(double="none", parallel="none", cache="none", fastmath="none", verbose=NONE, fftlib="none", rfft2lib="none",
                 showlib="none", nbn=NONE, fftn=NONE)
    p = subprocess.run([sys.executable, "-c", PROBE], env=env, cwd=home, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=120)
    lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
    ev = dict(k="load", api="start-up", env=e, ini=i, inst=inst)
    if not lines:
        ev.update(raised=1, err=p.stdout[-300:])
        return ev
    d = json.loads(lines[0][6:])
    if not d["raised"]:
        d["kept"] = int(d["text"] == (text if given else d["template"]))
        del d["text"], d["template"]
    ev.update(d)
    return ev


def main():
    path, focus = sys.argv[1:3]
    import cddm.conf as conf
    import cddm.print_tools as pt
    import numba
    import cddm.fft, cddm.core, cddm.multitau, cddm.video, cddm.map
    rec = Recorder(path)
    inst = installed()
    if focus == "history":
        most = int(numba.config.NUMBA_NUM_THREADS)
        for k in range(60 if not THOROUGH else 600):
            r = rng("hist", k)
            rec.case("history-%d" % k, lambda c: history(c, r, conf, pt, inst, most), "settings, messages and computations")
    else:
        n = 48 if not THOROUGH else 480
        with ThreadPoolExecutor(8) as pool:
            evs = list(pool.map(lambda k: startup(rng("start", k), k, inst), range(n)))
        for k, ev in enumerate(evs):
            def run(c):
                c.head.update(inst=inst, most=1)
                c.ev.append(ev)
                if not ev["raised"]:
                    c.canary([pick(rng("x", k), ["parallel", "fastmath", "cache", "nb", "kept"])], ev=0)
            rec.case("start-%d" % k, run, "settings after start-up")
    rec.done()


if __name__ == "__main__":
    main()
