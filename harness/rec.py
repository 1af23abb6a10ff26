"""Recording side: what the drivers share.  Everything a trace contains is an
integer, a string, or a (nested) list of those."""
import json
import os
import random
import sys
import traceback
import zlib

import numpy as np

NONINT, NAN, INF, BIG = 2000000001, 2000000002, 2000000003, 2000000004
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
SCRATCH = os.environ.get("VERIF_SCRATCH", ".")
ONLY = os.environ.get("VERIF_CASE")
SAMPLE = int(os.environ.get("VERIF_SAMPLE", "1"))      # keep one case in so many
THOROUGH = TIER == "thorough"
# compile-time configuration under test: single precision has a coarser grid
SINGLE = os.environ.get("CDDM_DOUBLE_PRECISION") == "0"


def ints(x, scale=1, tol=3e-6 if SINGLE else 1e-7):
    """Real array -> nested list of integers (exact up to rounding noise)."""
    x = np.asarray(x)
    if x.dtype.kind in "iub":
        x = x.astype("int64") * scale
        return np.where(np.abs(x) >= 2 ** 30, BIG, x).tolist()
    x = x.astype("float64") * scale
    fin = np.isfinite(x)
    m = np.max(np.abs(x[fin]), initial=1.0)
    r = np.rint(np.where(fin, x, 0))
    near = np.abs(np.where(fin, x, 0) - r) <= min(0.3 if SINGLE else 0.05, tol * max(1.0, m))
    out = np.where(near, r, NONINT)
    out = np.where(np.abs(r) >= 2 ** 30, BIG, out)
    out = np.where(np.isnan(x), NAN, out)
    out = np.where(np.isinf(x), INF, out)
    return out.astype("int64").tolist()


def re_im(x, scale=1):
    x = np.asarray(x)
    return ints(x.real, scale), ints(x.imag if x.dtype.kind == "c" else np.zeros(x.shape), scale)


def dress(r, a, p=0.6):
    """The same values as another kind of array: number type, byte order, memory layout, write protection."""
    if not isinstance(a, np.ndarray) or r.random() >= p:
        return a
    kinds = ["complex64", ">c16", "complex128"]
    if a.dtype.kind != "c":
        lo, hi = a.min(initial=0), a.max(initial=0)
        kinds = ["float64", "float32", "int64", "int32", ">i4", ">f8"]
        kinds += ["int16"] if max(-lo, hi) < 2 ** 15 else []
        kinds += ["int8"] * 2 if max(-lo, hi) < 2 ** 7 else []
        kinds += ["uint16"] if lo >= 0 and hi < 2 ** 16 else []
        kinds += ["uint8"] * 3 if lo >= 0 and hi < 2 ** 8 else []
    b = a.astype(r.choice(kinds))
    how = r.randrange(5)
    if how == 1:
        b = np.asfortranarray(b)
    elif how == 2 and b.ndim:
        big = np.zeros((2 * b.shape[0],) + b.shape[1:], b.dtype)
        big[::2] = b
        b = big[::2]
    elif how == 3 and b.ndim:
        b = b[..., ::-1].copy()[..., ::-1]
    elif how == 4:
        b.flags.writeable = False
    return b if np.array_equal(a, b) else a


def shape_of(x):
    return [-1] if x is None else [int(i) for i in np.shape(x)]


def is_complex(x):
    return 1 if np.asarray(x).dtype.kind == "c" else 0


class Recorder(object):
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def put(self, d):
        self.f.write(json.dumps(d) + "\n")
        self.f.flush()

    def case(self, cid, fn, desc=""):
        """fn(events) fills a list of events.  An exception that the trace does
        not record itself is recorded as an event of its own."""
        if ONLY and cid != ONLY:
            return
        if not ONLY and zlib.crc32(("%d/%s" % (SEED, cid)).encode()) % SAMPLE:
            return
        self.put({"begin": cid})
        c = Case(cid, desc)
        try:
            fn(c)
        except HarnessError:
            raise
        except Exception as e:
            if not _from_cddm():
                raise
            c.ev.append({"k": "exc", "api": "exception", "err": _exc_text(e), "tb": traceback.format_exc()[-800:]})
        self.put(dict(id=cid, desc=desc, ev=c.ev, canary=c.can, **c.head))
        self.n += 1

    def done(self):
        self.put({"done": self.n})
        self.f.close()


class HarnessError(Exception):
    pass


def _exc_text(e):
    return "%s: %s" % (type(e).__name__, str(e)[:200])


def _from_cddm():
    """True when the exception being handled was raised while a cddm frame (or
    something it called) was active."""
    tb = sys.exc_info()[2]
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.sep + "cddm" + os.sep in fn and "/verif/" not in fn:
            return True
        tb = tb.tb_next
    return False


class Case(object):
    def __init__(self, cid, desc):
        self.id, self.desc = cid, desc
        self.ev, self.can, self.head = [], [], {}

    def event(self, **kw):
        self.ev.append(kw)
        return kw

    def canary(self, path, ev=-1, to=None):
        d = dict(ev=(len(self.ev) + ev) if ev < 0 else ev, path=path)
        if to is not None:
            d["to"] = to
        self.can.append(d)

    def call(self, fn, *a, **kw):
        """Call into cddm; returns (result, error text)."""
        try:
            return fn(*a, **kw), ""
        except Exception as e:
            return None, _exc_text(e)


def rng(*key):
    """A generator seeded by VERIF_SEED and a key (stable across processes)."""
    return random.Random("%d/%s" % (SEED, "/".join(str(k) for k in key)))


def quiet():
    import cddm.conf
    cddm.conf.set_verbose(0)
