"""Video operators.  argv: trace file."""
import itertools
import os
import shutil
import sys

import numpy as np

from rec import Recorder, ints, quiet, rng, SCRATCH, THOROUGH

NONE = 1000000


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def fr(x, scale=1):
    x = np.asarray(x)
    tol = 2e-6 if x.dtype == np.dtype("float32") else 1e-7
    return dict(s=list(x.shape), v=ints(np.ravel(x.real), scale, tol))


def mf(frames, scale=1):
    return [fr(f, scale) for f in frames]


class Counted(object):
    """An iterator that counts how many multi-frames were taken."""

    def __init__(self, items):
        self.items, self.used = items, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.used >= len(self.items):
            raise StopIteration
        self.used += 1
        return self.items[self.used - 1]


def bound(r, n):
    return pick(r, [None, None] + list(range(-n - 1, n + 2)))


def build(r):
    """A random pipeline: source multi-frames and operators."""
    ncam = pick(r, [1, 1, 2, 2, 3])
    n = r.randint(0, 5) if r.random() < 0.9 else r.randint(6, 12)
    shape = (r.randint(1, 4), r.randint(1, 5))
    dt = pick(r, ["float64", "float64", "float32", "int64", "int32", "uint8"])
    nops = pick(r, [0, 1, 1, 2, 2, 3, 4])
    names = [pick(r, ["crop", "mask", "subtract", "add", "multiply"]) for _ in range(nops)]
    if dt == "uint8":
        names = [x if x in ("crop", "mask") else "add" for x in names]
    if names and r.random() < 0.35 and dt != "uint8":
        names[0] = "normalize"
    size = shape[0] * shape[1]
    video = []
    for _ in range(n):
        frames = []
        for _ in range(ncam):
            lo = 0 if dt == "uint8" or "normalize" in names else -9
            v = [r.randint(lo, 5) for _ in range(size)]
            if "normalize" in names:
                tot = pick(r, [s for s in (4, 8, 16, 32, 64) if s >= sum(v)] or [128])
                v[r.randrange(size)] += tot - sum(v)
            frames.append(np.array(v, dt).reshape(shape))
        video.append(tuple(frames))
    ops, cur, badroi, cropped = [], shape, 0, False
    for name in names:
        op = dict(name=name, inplace=0, dtype="")
        if name == "crop":
            if len(cur) != 2:
                continue
            sl = []
            for d in cur:
                s = slice(bound(r, d), bound(r, d), pick(r, [None, None, None, 1, 2, -1, 3]))
                if len(range(*s.indices(d))) == 0:
                    s = slice(None, None, pick(r, [None, 2]))
                sl.append(s)
            form = pick(r, ["slice", "tuple", "list"])
            if r.random() < 0.03:
                badroi, op["roi"] = 1, pick(r, [3, (1, 2), (slice(None),), ((1, 2), (1, 2), (1, 2))])
            elif r.random() < 0.1:
                sl = [slice(None), slice(None)]
                op["roi"] = None
            elif form == "slice":
                op["roi"] = tuple(sl)
            else:
                op["roi"] = tuple((s.start, s.stop, s.step) if s.step is not None or form == "tuple" else [s.start, s.stop] for s in sl)
            op["h"], op["w"] = [[NONE if b is None else b for b in (s.start, s.stop, s.step)] for s in sl]
            cur = tuple(len(range(*s.indices(d))) for s, d in zip(sl, cur))
            cropped = True
        elif name == "mask":
            m = np.array([r.random() < 0.6 for _ in range(int(np.prod(cur)))]).reshape(cur)
            if not m.any():
                m[...] = True
            op["mask"], op["m"] = m, m.ravel().astype(int).tolist()
            cur = (int(m.sum()),)
            cropped = False
        else:
            op["inplace"] = int(r.random() < 0.3 and not cropped and not (name == "normalize" and dt.startswith(("int", "uint"))))
            if op["inplace"] == 0 and r.random() < 0.35:
                op["dtype"] = pick(r, ["float64", "float32", "complex128"] + ([] if "normalize" in names else ["int64"]))
                if op["dtype"] == "complex128":
                    op["inplace"] = 0
            if name != "normalize":
                m = n if r.random() < 0.6 else r.randint(0, n + 3)
                cams = ncam if r.random() < 0.97 else ncam + 1
                scalar = r.random() < 0.25
                hi = 2 if name == "multiply" else 9
                op["yv"] = [tuple(np.array([r.randint(0, hi) for _ in range(1 if scalar else int(np.prod(cur)))], "uint8").reshape(() if scalar else cur)
                                  for _ in range(cams)) for _ in range(m)]
                op["y"] = [mf(f) for f in op["yv"]]
        # a complex array does not take part in in-place or integer operations afterwards
        ops.append(op)
        if op["dtype"] == "complex128":
            break
    return video, ncam, dt, ops, badroi


def chain(v, video, ops, r, counted):
    """The library pipeline over a counted source."""
    src = Counted(video)
    counted.append(src)
    x = src
    for op in ops:
        kw = {}
        if op["inplace"]:
            kw["inplace"] = True
        if op["dtype"]:
            kw["dtype"] = pick(r, [op["dtype"], np.dtype(op["dtype"])])
        if op["name"] == "crop":
            x = v.crop(x) if op["roi"] is None else (v.crop(x, roi=op["roi"]) if r.random() < 0.5 else v.crop(x, op["roi"]))
        elif op["name"] == "mask":
            x = v.mask(x, op["mask"]) if r.random() < 0.5 else v.mask(x, mask=op["mask"])
        elif op["name"] == "normalize":
            x = v.normalize_video(x, **kw)
        else:
            y = Counted(op["yv"])
            counted.append(y)
            x = getattr(v, op["name"])(x, y, **kw)
    return x


def pull_case(c, v, r):
    video, ncam, dt, ops, badroi = build(r)
    scale = 64 if any(o["name"] == "normalize" for o in ops) else 1
    c.head["cfg"] = dict(ncam=ncam, src=[mf(f) for f in video] or [], dt=dt, badroi=badroi,
                         ops=[{k: o[k] for k in ("name", "inplace", "dtype", "h", "w", "m", "y") if k in o} for o in ops])
    if not video:
        c.head["cfg"]["src"] = []
    counted = []
    it = iter(chain(v, video, ops, r, counted))
    ycopy = [[tuple(np.array(f) for f in fs) for fs in o.get("yv", [])] for o in ops]
    ends = 0
    for k in range(len(video) + 3):
        frames, err, end = None, "", 0
        try:
            frames = next(it)
        except StopIteration:
            end = 1
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, str(e)[:100])
        ysame = all(np.array_equal(a, b) for o, oc in zip(ops, ycopy) for fs, fc in zip(o.get("yv", []), oc) for a, b in zip(fs, fc))
        ev = dict(k="pull", api="pipeline of %d" % len(ops), raised=int(bool(err)), err=err, end=end, f=[], dt=[], src=[],
                  used=[s.used for s in counted], ysame=int(ysame))
        if frames is not None:
            if not isinstance(frames, tuple):
                ev["err"] = "not a tuple"
            ev["f"] = mf(frames, scale)
            ev["dt"] = [str(f.dtype) for f in frames]
            ev["src"] = mf(video[k], 64) if k < len(video) else []
        c.event(**ev)
        if frames is not None:
            c.canary(["f", 0, "v", 0])
            c.canary(["used", 0])
        if err:
            break
        ends += end
        if ends == 2:
            break
        if r.random() < 0.05:
            it.close() if hasattr(it, "close") else None
            break


def sink_case(c, v, r):
    video, ncam, dt, ops, badroi = build(r)
    for o in ops:
        o["inplace"] = 0
    scale = 64 if any(o["name"] == "normalize" for o in ops) else 1
    c.head["cfg"] = dict(ncam=ncam, src=[mf(f) for f in video], dt=dt, badroi=badroi,
                         ops=[{k: o[k] for k in ("name", "inplace", "dtype", "h", "w", "m", "y") if k in o} for o in ops])
    n = len(video)
    for o in ops:
        if "yv" in o:
            n = min(n, len(o["yv"]))
    if n == 0:
        return
    api = pick(r, ["asarrays", "asarrays", "asmemmaps", "load", "fromarrays"])
    counted, haslen = [], 0
    x = chain(v, video, ops, r, counted)
    if not ops:
        form = pick(r, ["list", "tuple", "iter"])
        if form != "iter":
            x = list(video) if form == "list" else tuple(video)
            haslen = 1
    count = pick(r, [-1, n, n, n, n, n + 1, n + 2, n - 1])
    if api == "fromarrays":
        # arrays of one camera each, of different lengths: the shortest decides
        if not c.head["cfg"]["ops"] == []:
            ops, c.head["cfg"]["ops"] = [], []
            n = len(video)
        more = r.randint(0, 2)
        arrays = [np.array([f[i] for f in video]) for i in range(ncam)]
        if ncam > 1:
            j = r.randrange(ncam)
            arrays[j] = np.concatenate([arrays[j], arrays[j][:more]])
        res = list(v.fromarrays(pick(r, [tuple(arrays), list(arrays)])))
        c.event(k="sink", api=api, count=-1, haslen=1, raised=0, err="", n=len(res), ncam=len(res[0]), f=[mf(fs) for fs in res],
                dt=[str(f.dtype) for f in res[0]], stored=1)
        c.canary(["f", 0, 0, "v", 0])
        return
    kw = {} if count == -1 else dict(count=count)
    base = os.path.join(SCRATCH, "mm-%s" % c.id)
    if api == "asmemmaps":
        res, err = c.call(v.asmemmaps, base, x, **kw)
    else:
        res, err = c.call(getattr(v, api), x, **kw)
    ev = dict(k="sink", api=api, count=count, haslen=haslen, raised=int(bool(err)), err=err, n=0, ncam=0, f=[], dt=[], stored=1)
    if res is not None:
        if api == "load":
            ev.update(n=len(res), ncam=len(res[0]), f=[mf(fs, scale) for fs in res], dt=[str(f.dtype) for f in res[0]])
        else:
            ev.update(n=len(res[0]), ncam=len(res), f=[[fr(a[i], scale) for a in res] for i in range(min(n, len(res[0])))],
                      dt=[str(a.dtype) for a in res])
        if api == "asmemmaps":
            for i, a in enumerate(res):
                a.flush()
                b = np.load(base + "_%d.npy" % i)
                ev["stored"] = int(ev["stored"] and b.dtype == a.dtype and b.shape == a.shape and np.array_equal(np.asarray(b)[:n], np.asarray(a)[:n]))
    c.event(**ev)
    if res is not None:
        c.canary(["f", -1, -1, "v", -1])
        c.canary(["n"])
        if api == "load":
            again = [list(res) for _ in range(2)][1]
            c.event(k="again", api=api, f=[mf(fs, scale) for fs in again])
    for i in range(4):
        p = base + "_%d.npy" % i
        if os.path.exists(p):
            os.remove(p)


def main():
    R = Recorder(sys.argv[1])
    quiet()
    import cddm.video as v
    reps = 12 if THOROUGH else 1
    for i in range(900 * reps):
        r = rng("video", i)
        R.case("pull-%d" % i, lambda c, r=r: pull_case(c, v, r))
    for i in range(500 * reps):
        r = rng("sink", i)
        R.case("sink-%d" % i, lambda c, r=r: sink_case(c, v, r))
    R.done()


main()
