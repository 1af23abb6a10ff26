"""Background iteration and display.  argv: trace file."""
import re
import sys
import threading
import time
import types
import warnings

import numpy as np

from rec import Recorder, ints, quiet, rng, THOROUGH

LIMIT = 15.0        # how long something that must happen is waited for


def pick(r, xs):
    return xs[r.randrange(len(xs))]


class Log(object):
    def __init__(self):
        self.lock, self.ev = threading.RLock(), []
        self.main = threading.current_thread()

    def put(self, k, **kw):
        with self.lock:
            self.ev.append(dict(k=k, api="log:" + k, **kw))

    def is_main(self):
        return int(threading.current_thread() is self.main)

    def count(self, k):
        with self.lock:
            return sum(e["k"] == k for e in self.ev)


class Failure(Exception):
    pass


class Source(object):
    """An iterator that hands out multi-frames only when it is allowed to."""

    def __init__(self, log, n, ncam, fail, r, hold=False):
        self.log, self.n, self.ncam, self.fail, self.r, self.hold = log, n, ncam, fail, r, hold
        self.cond, self.allowed, self.i = threading.Condition(), 0, 0
        self.over, self.ended, self.nshow = False, False, 0

    def allow(self, m):
        with self.cond:
            self.allowed = max(self.allowed, m)
            self.cond.notify_all()

    def __iter__(self):
        return self

    def __next__(self):
        with self.cond:
            if not self.cond.wait_for(lambda: self.over or self.allowed > self.i, 4 * LIMIT) or self.over:
                raise StopIteration
        if self.hold and self.i > 0:
            # everything delivered and everything shown?
            t0 = time.time()
            while time.time() - t0 < LIMIT and not (self.log.count("recv") == self.i and self.log.count("shown") == self.i * self.nshow):
                time.sleep(0.001)
            # the consumer must be waiting again
            while time.time() - t0 < LIMIT and self.log.count("next") < self.i + 1:
                time.sleep(0.001)
            self.log.put("starved")
        d = pick(self.r, [0, 0, 0, 0.0005, 0.003])
        if d:
            time.sleep(d)
        if self.ended:
            raise StopIteration
        if self.i == self.n:
            self.ended = True
            self.log.put("srcend")
            if self.fail:
                raise Failure("source")
            raise StopIteration
        self.i += 1
        self.log.put("obtain", n=self.i, main=self.log.is_main())
        return tuple(frame(self.i, c) for c in range(self.ncam))


def frame(k, c):
    x = np.full((2, 3), 10.0 * k + c)
    x[1, 2] = 128
    return x


class Cv2(types.ModuleType):
    """The window functions of OpenCV: remembers what every window displays."""

    def __init__(self):
        super(Cv2, self).__init__("cv2")
        self.__version__ = "4"
        self.windows = {}

    def imshow(self, title, im):
        self.windows[title] = np.array(im)

    def waitKey(self, delay=0):
        return -1

    def destroyWindow(self, title):
        self.windows.pop(title, None)


class Windows(object):
    """What the windows of a display library show."""
    count = 0

    def __init__(self, lib):
        self.lib = lib
        Windows.count += 1
        self.name = "case %d" % Windows.count       # titles are not used twice
        self.old = set(map(id, self.tops()))

    def tops(self):
        if self.lib == "matplotlib":
            import matplotlib.pyplot as plt
            return [plt.figure(i) for i in plt.get_fignums()]
        if self.lib == "pyqtgraph":
            import pyqtgraph as pg
            return [w for w in pg.mkQApp().topLevelWidgets() if hasattr(w, "getImageItem")]
        return []

    def images(self):
        found = {}
        for w in self.tops():
            if id(w) in self.old:
                continue
            if self.lib == "matplotlib":
                for ax in w.axes:
                    if ax.images:
                        found[ax.get_title()] = np.asarray(ax.images[0].get_array())
            elif w.getImageItem().image is not None:
                found[w.windowTitle()] = np.asarray(w.getImageItem().image)
        if self.lib == "cv2":
            found = dict(sys.modules["cv2"].windows)
        return found

    def pixels(self, titles):
        """First pixel of what every window displays now, as a frame number."""
        found = self.images()
        out = []
        for t in titles:
            im = [found[x] for x in found if re.match("^" + t + "$", x)]
            if not im:
                out.append(0)
                continue
            val = float(im[-1].ravel()[0]) * 128 / float(im[-1].ravel()[-1])
            out.append(int(round(val)) // 10 if abs(val - round(val)) < 1e-6 else -1)
        return out


def windows(r):
    import cddm.conf
    lib = pick(r, ["matplotlib"] * 5 + ["cv2"] * 3 + ["pyqtgraph"] * 2)
    cddm.conf.set_showlib(lib)
    sys.modules["cv2"].windows.clear()
    return Windows(lib)


def title_number(v):
    s = v.figure_title("t")
    try:
        return int(s.split(":")[0].split(".")[1]) if s.endswith(": t") else -1
    except Exception:
        return -1


def run_case(c, v, r, kind):
    log = Log()
    n = r.randint(0, 7)
    ncam = pick(r, [1, 2])
    fail = int(r.random() < 0.15)
    q = pick(r, [0, 1, 1, 2, 3]) if kind == "threaded" else 0
    V = pick(r, [0, 1, 1, 2]) if kind != "threaded" else pick(r, [0, 0, 1])
    disp = pick(r, ["always", "always", "never", "any"]) if kind == "play" else "any"
    fps = pick(r, [None, None, 200.0, 1000.0]) if kind == "playt" else 100.0
    hold = kind == "playt" and fps is None and r.random() < 0.5
    ids = [r.randrange(ncam) for _ in range(V)]
    win = windows(r)
    c.head["cfg"] = dict(N=n, fail=fail, q=q, V=V, kind=kind, disp=disp, ids=ids, lib=win.lib)
    src = Source(log, n, ncam, fail, r, hold)
    src.nshow = V
    before = threading.active_count()
    x, titles = src, []
    for j in range(V):
        def probe(im, j=j):
            val = int(round(float(np.asarray(im).ravel()[0])))
            log.put("shown", v=j + 1, n=val // 10, cam=val % 10, main=log.is_main())
            return im
        if r.random() < 0.3 and ids[j] not in ids[:j]:
            titles.append(r"Fig\.\d+: video - camera %d" % ids[j])
            x = v.show_video(x, id=ids[j], norm_func=probe)
        else:
            titles.append("viewer %d of %s" % (j + 1, win.name))
            x = v.show_video(x, id=ids[j], title=titles[-1], norm_func=probe)
    if kind == "threaded":
        x = v.threaded(x, q) if r.random() < 0.5 else v.threaded(x, queue_size=q)
        if q == 0 and r.random() < 0.5:
            pass
    elif kind == "playt":
        x = v.play_threaded(x, fps=fps) if r.random() < 0.5 else (v.play_threaded(x, fps) if fps else v.play_threaded(x))
    else:
        x = v.play(x, fps=fps, max_delay={"always": 1e9, "never": -1e9, "any": pick(r, [0.0, 0.01, 0.1])}[disp])
    x = iter(x)
    taken = started = ended = 0
    if hold:
        src.allow(n + 1)
    for step in range(40):
        act = pick(r, ["next", "next", "next", "allow", "quiet", "pause"])
        if act == "allow":
            src.allow(min(n + 1, src.allowed + r.randint(1, 4)))
        elif act == "pause":
            time.sleep(pick(r, [0, 0.001, 0.004]))
        elif act == "quiet" and started and kind != "play" and not hold:
            room = (n if q == 0 else min(n, taken + q + 1))
            finished = room == n and (q == 0 or n + 1 <= taken + q + 1)
            if src.allowed < n + 1:
                src.allow(n + 1)
            t0 = time.time()
            while time.time() - t0 < LIMIT and not (log.count("obtain") >= room and (not finished or log.count("srcend"))):
                time.sleep(0.0005)
            if room == n and not finished:
                # the source may or may not have been asked again
                continue
            time.sleep(pick(r, [0.002, 0.01]))
            log.put("quiet")
        elif act == "next":
            src.allow(taken + 1)
            if taken >= n:
                src.allow(n + 1)
            started = 1
            log.put("next")
            try:
                f = next(x)
            except StopIteration:
                ended = 1
                left = 0
                t0 = time.time()
                while time.time() - t0 < LIMIT:
                    left = threading.active_count() - before
                    if left <= 0:
                        break
                    time.sleep(0.001)
                log.put("end", title=title_number(v), alive=max(0, left))
                break
            except Exception as e:
                ended = 1
                log.put("exc", err="%s" % type(e).__name__)
                break
            taken += 1
            ok = isinstance(f, tuple) and len(f) == ncam
            val = int(round(float(np.asarray(f[0]).ravel()[0])))
            ok = ok and all(np.array_equal(np.asarray(a), frame(val // 10, i)) for i, a in enumerate(f))
            log.put("recv", n=val // 10, ok=int(ok), title=title_number(v) if V and kind != "threaded" else V + 1,
                    pix=win.pixels(titles) if kind != "threaded" else [0] * V)
    if not ended:
        log.put("close")
        x.close()
    src.allow(n + 1)
    src.over = True
    with src.cond:
        src.cond.notify_all()
    with log.lock:
        c.ev.extend(dict(e) for e in log.ev)
        log.ev = []
    c.ev = list(c.ev)
    recv = [i for i, e in enumerate(c.ev) if e["k"] == "recv"]
    if recv:
        c.canary(["n"], ev=recv[-1])
        c.canary(["ok"], ev=recv[0], to=0)
    shown = [i for i, e in enumerate(c.ev) if e["k"] == "shown"]
    if shown:
        c.canary(["n"], ev=shown[-1])
    v._FIGURES.clear() if hasattr(v, "_FIGURES") else None


def diff_case(c, v, r):
    """show_diff: the displayed image after every frame."""
    n = r.randint(1, 6)
    normalize = r.randrange(2)
    frames, fr = [], []
    while len(frames) < n:
        x, y = [np.array([r.randint(0, 8) for _ in range(4)]).reshape(2, 2) for _ in range(2)]
        if normalize:
            if 0 in (x.sum(), y.sum()):
                continue
            a, b = x * int(y.sum()), y * int(x.sum())
        else:
            a, b = x, y
        m = 2 * max(a.max(), b.max())
        if m == 0 or ((64 * (a - b)) % m).any():
            continue
        fr.append(dict(x=x.ravel().tolist(), y=y.ravel().tolist(), normalize=normalize))
        dt = pick(r, ["float64", "complex128"])
        frames.append((x.astype(dt) + (1j * r.randint(0, 9) if dt[0] == "c" else 0), y.astype(dt)))
    dts, t1, t2, length = [], [], [], n
    if r.random() < 0.5:
        m = max(1, n + r.randint(-2, 2))
        length = min(n, m)
        t1 = [r.randint(0, 9) for _ in range(m)]
        t2 = [r.randint(0, 9) for _ in range(m)]
        dts = r.sample(range(0, 7), r.randint(1, 4))
    c.head["cfg"] = dict(N=0, fail=0, q=0, V=0, kind="diff", disp="always", ids=[], dt=dts, t1=t1, t2=t2, fr=fr, len=length)
    kw = dict(normalize=bool(normalize))
    if dts:
        kw.update(dt=pick(r, [list(dts), tuple(dts)]), t1=pick(r, [np.array(t1), t1]), t2=pick(r, [np.array(t2), t2]))
    given = [tuple(f.copy() for f in fs) for fs in frames]
    win = windows(r)
    title = "difference of " + win.name
    if r.random() < 0.3:
        title = r"Fig\.1: difference video"
    else:
        kw["title"] = title
    x = v.play(v.show_diff(iter(given), **kw), max_delay=1e9)
    k = 0
    for f in x:
        k += 1
        im = [w for t, w in win.images().items() if re.match("^" + title + "$", t)]
        im = ints(np.ravel(im[-1]), 64) if im else []
        c.event(k="diff", api="show_diff", n=k, im=im, ok=int(k <= n and isinstance(f, tuple) and all(np.array_equal(a, b) for a, b in zip(f, frames[k - 1]))))
        if im:
            c.canary(["im", 0])
    c.event(k="diffend", api="show_diff", n=k)


def main():
    sys.modules["cv2"] = Cv2()      # before cddm is imported
    R = Recorder(sys.argv[1])
    quiet()
    warnings.simplefilter("ignore")
    import cddm.conf
    import cddm.video as v
    threading.excepthook = lambda args: None
    reps = 10 if THOROUGH else 1
    for kind, num in (("threaded", 120), ("playt", 90), ("play", 60)):
        for i in range(num * reps):
            r = rng(kind, i)
            R.case("%s-%d" % (kind, i), lambda c, r=r, kind=kind: run_case(c, v, r, kind))
    for i in range(60 * reps):
        r = rng("diff", i)
        R.case("diff-%d" % i, lambda c, r=r: diff_case(c, v, r))
    R.done()


main()
