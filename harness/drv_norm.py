"""Normalisation.  argv: trace file, focus in {values, flags}."""
import itertools
import sys

import numpy as np

from rec import Recorder, dress, ints, is_complex, quiet, re_im, rng, SINGLE, THOROUGH

WORDS = {1: ["standard"], 2: ["structured"], 3: ["weighted"], 5: ["subtracted"], 6: ["structured", "subtracted"],
         7: ["weighted", "subtracted"], 9: ["compensated"], 10: ["compensated", "structured"],
         11: ["weighted", "compensated"], 13: ["subtracted", "compensated"],
         14: ["subtracted", "structured", "compensated"], 15: ["compensated", "weighted", "subtracted"]}


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def arr(r, shape, lo, hi, step=1):
    n = int(np.prod(shape)) if shape else 1
    return np.array([step * r.randint(lo, hi) for _ in range(n)], "float64").reshape(shape)


def bc(x, shape):
    return np.broadcast_to(x, shape).ravel()


class Data(object):
    """Raw data tuple + background + variance and its list of elements."""

    def __init__(self, data, bg, var, diff, auto, frame):
        self.data, self.diff, self.auto, self.frame = data, diff, auto, frame
        b1, b2 = (bg, bg) if auto else bg
        v1, v2 = (var, var) if auto else var
        self.bg, self.var = bg, var
        self.v1, self.v2, self.b1, self.b2 = (np.asarray(x) for x in (v1, v2, b1, b2))
        if diff:
            d, cnt, m1, m2 = data
            sq = None
        else:
            d, cnt, sq, m1, m2 = data
        self.hassq = int(sq is not None)
        self.hasm = int(m1 is not None)
        self.cplx = is_complex(d)
        S = d.shape
        self.shape = S
        lead = S[:len(S) - 1 - len(frame)]
        c = np.asarray(cnt).reshape(lead + (1,) * len(frame) + S[-1:])
        z = np.zeros(S)
        m1 = z if m1 is None else m1
        m2 = m1 if m2 is None else m2
        sq = z if sq is None else sq
        self.c = bc(c, S).astype("int64")
        cols = dict(dr=d.real, di=np.imag(d), c=c, sq=sq, m1r=np.real(m1), m1i=np.imag(m1), m2r=np.real(m2),
                    m2i=np.imag(m2), b1r=self.b1.real[..., None], b1i=self.b1.imag[..., None],
                    b2r=self.b2.real[..., None], b2i=self.b2.imag[..., None],
                    v1=self.v1[..., None], v2=self.v2[..., None])
        cols = {k: ints(bc(v, S)) for k, v in cols.items()}
        self.vs = np.array(cols["v1"]) + np.array(cols["v2"])
        self.el = [{k: cols[k][i] for k in cols} for i in range(len(self.c))]

    def cfg(self):
        return dict(diff=self.diff, cplx=self.cplx, hassq=self.hassq, hasm=self.hasm, el=self.el)


def make(r, diff, auto, cplx, frame, lead, hassq, hasm, n, zero=True):
    S = lead + frame + (n,)
    # a difference sum is real
    d = arr(r, S, -25, 25) + (1j * arr(r, S, -25, 25) if cplx else 0)
    if diff:
        d = abs(d)
    c = np.array([r.randint(0 if zero and r.random() < 0.3 else 1, 5) for _ in range(int(np.prod(lead + (n,))))],
                 "int64").reshape(lead + (n,))
    sq = arr(r, S, 0, 30) if hassq else None
    cx = lambda shape, a: arr(r, shape, -a, a) + 1j * arr(r, shape, -a, a)
    m1 = cx(S, 9) if hasm else None
    m2 = cx(S, 9) if hasm and not auto else None
    data = (d, c, m1, m2) if diff else (d, c, sq, m1, m2)
    if SINGLE:      # what the computing functions return in this configuration
        data = tuple(x if x is None or x is c else x.astype("complex64" if x.dtype.kind == "c" else "float32")
                     for x in data)
    else:
        data = tuple(x if x is None or x is c else dress(r, x, 0.2) for x in data)
    if auto:
        bg, var = dress(r, cx(frame, 3), 0.3), dress(r, arr(r, frame, 1, 8), 0.4)
    else:
        bg = (cx(frame, 3), cx(frame, 3))
        hi = pick(r, [8, 8, 8, 200])
        var = (dress(r, arr(r, frame, 1, hi), 0.4), dress(r, arr(r, frame, 1, hi), 0.4))
        if r.random() < 0.3:
            bg, var = list(bg), list(var)
    return Data(data, bg, var, diff, auto, frame)


def request(c, core, D, r, norm, words, mode, scale, hasbg=1, hasvar=1, mask=None, out=False, w4=None):
    """One normalisation request, recorded as an event."""
    kw = dict(mode=mode, scale=pick(r, [bool(scale), scale]))
    if words:
        kw["norm"] = pick(r, ["|", " | ", "| "]).join(pick(r, [w, w.upper(), w.capitalize()]) for w in words)
    elif norm != -1:
        kw["norm"] = norm
    if hasbg:
        kw["background"] = D.bg
    if hasvar:
        kw["variance"] = D.var
    idx = np.arange(len(D.c)).reshape(D.shape)
    if mask is not None:
        kw["mask"] = mask
        idx = idx[..., mask, :]
    sel = idx.ravel()
    if w4 is not None:
        if D.cplx:
            kw["weight"] = (w4 + 1j * w4) / 4.
        else:
            kw["weight"] = w4 / 4.
        if mask is not None:
            kw["weight"] = kw["weight"][..., mask, :]
        kw["weight"] = kw["weight"].copy()
    buf = None
    if out:
        buf = np.full(idx.shape, 7, "complex128" if D.cplx else "float64")
        kw["out"] = buf
    keep = [None if x is None else np.array(x) for x in D.data]
    res, err = c.call(core.normalize, D.data, **kw)
    ev = dict(k="norm", api="normalize", norm=norm, words=[w.lower() for w in words or []], mode=mode, scale=scale,
              hasbg=hasbg, hasvar=hasvar, raised=int(bool(err)), err=err, re=[], im=[], shape=[], wantshape=list(idx.shape),
              inputsame=1, outsame=1, sel=[int(i) + 1 for i in sel], w4=[])
    if w4 is not None:
        ev["w4"] = ints(w4.ravel()[sel])
    if not err:
        ev["shape"] = list(np.shape(res))
        flat = np.ravel(res)
        if len(flat) == len(sel):
            s = 4. * D.c[sel] ** 2 * (4 if w4 is not None else 1) * (D.vs[sel] if scale else 1)
            fr = np.array(flat.real * np.where(s == 0, 1, s))
            # an element without pairs is only asked to be non-finite
            ev["re"] = ints(fr)
            if is_complex(flat):
                ev["im"] = ints(flat.imag * np.where(s == 0, 1, s))
        ev["inputsame"] = int(all((a is None and b is None) or np.array_equal(a, b, equal_nan=True)
                                  for a, b in zip(keep, D.data)))
        if buf is not None:
            ev["outsame"] = int(np.array_equal(buf, res, equal_nan=True))
    c.ev.append(ev)
    return ev


NORMS = (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15)


def values_case(rec, core, cid, r, diff, auto, cplx, nd, level):
    frame = {0: (), 1: (pick(r, [1, 2, 3]),), 2: pick(r, [(2, 2), (1, 3), (2, 1), (3, 2)])}[nd]
    lead = (pick(r, [1, 2]),) if level else ()
    n = pick(r, [3, 5])
    hasm = 0 if diff and auto else int(r.random() < 0.8)
    hassq = 0 if diff else int(r.random() < 0.85)
    D = make(r, diff, auto, cplx, frame, lead, hassq, hasm, n)

    def run(c):
        c.head["cfg"] = D.cfg()
        with np.errstate(all="ignore"):
            for norm in ((2, 6) if diff else NORMS) + (-1,):
                real = norm if norm != -1 else (2 + 4 * hasm if diff else 1 + 2 * hassq + 4 * hasm)
                if (real & 2 and not diff and not hassq) or (real & 12 and not hasm):
                    continue
                for mode, scale in itertools.product(("corr", "diff"), (0, 1)):
                    w4 = None
                    if not diff and real & 3 == 3:
                        w4 = arr(r, D.shape, -1, 5)
                    mask = None
                    if nd and r.random() < 0.3:
                        mask = np.array([r.random() < 0.6 for _ in range(int(np.prod(frame)))]).reshape(frame)
                        if not mask.any():
                            mask = None
                    words = WORDS[norm] if norm in WORDS and r.random() < 0.2 else None
                    ev = request(c, core, D, r, norm, words, mode, scale, mask=mask, out=r.random() < 0.3, w4=w4)
            c.canary(["re", r.randrange(len(ev["re"]))]) if D.c.any() and all(x < 2e9 for x in ev["re"]) else None
            # helpers
            v1, v2 = D.v1.ravel(), D.v2.ravel()
            sf, _ = c.call(core.scale_factor, D.var)
            one = lambda x: np.ravel(x)
            if nd:
                c.event(k="scale", api="scale_factor", v1=ints(v1), v2=ints(v2), obs=ints(one(sf) * 2))
                mask = np.array([True] + [r.random() < 0.6 for _ in range(int(np.prod(frame)) - 1)]).reshape(frame)
                q = mask.ravel()
                sm, _ = c.call(core.scale_factor, D.var, mask)
                c.event(k="scale", api="scale_factor", v1=ints(v1[q]), v2=ints(v2[q]), obs=ints(one(sm) * 2))
                import cddm.norm as nm
                dm, _ = c.call(nm.noise_delta, D.var)
                c.event(k="delta", api="noise_delta", v1=ints(v1), v2=ints(v2), obs=ints(one(dm) * (v1 + v2)))
                dm, _ = c.call(nm.noise_delta, D.var, mask)
                c.event(k="delta", api="noise_delta", v1=ints(v1[q]), v2=ints(v2[q]), obs=ints(one(dm) * (v1 + v2)[q]))
                if not auto:
                    dm, _ = c.call(nm.noise_delta, D.var, scale=False)
                    c.event(k="delta", api="noise_delta", v1=ints(v1), v2=ints(v2), obs=ints(one(dm) * 2))
                tk, _ = c.call(nm.take_data, D.data, mask)
                got, want = [], []
                for i, (a, b) in enumerate(zip(tk, D.data)):
                    got.append([] if a is None else list(sum(re_im(np.ravel(a)), [])) + list(np.shape(a)))
                    w = b if b is None or i == 1 else np.moveaxis(np.moveaxis(b, -1, 0)[..., mask], 0, -1) if not lead \
                        else np.stack([np.moveaxis(np.moveaxis(x, -1, 0)[..., mask], 0, -1) for x in b])
                    want.append([] if w is None else list(sum(re_im(np.ravel(w)), [])) + list(np.shape(w)))
                c.event(k="take", api="take_data", obs=got, want=want)
                if not cplx:
                    for mode in ("corr", "diff"):
                        s = arr(r, frame, 1, 8)
                        g0 = arr(r, frame + (3,), -4, 20)
                        nmn, _ = c.call(nm.noise_mean, g0, s, mode)
                        c.event(k="mean", api="noise_mean", mode=mode, g0=ints(one(g0[..., 0])), s=ints(one(s)),
                                obs=ints(one(nmn) * one(s) * (1 if mode == "corr" else 2)))
                w = arr(r, (2, 3), -3, 3)
                I = r.randint(1, 9)
                c.event(k="noise", api="noise_level", w=ints(one(w)), intensity=I, obs=ints(nm.noise_level(w, I)))
    rec.case(cid, run, "normalize %s data auto=%d complex=%d frame=%s levels=%s squares=%d means=%d" % (
        "difference" if diff else "correlation", auto, cplx, frame, lead, hassq, hasm))


def weights_case(rec, core, cid, r, auto, cplx, nd, norm):
    frame = (2,) if nd == 1 else (2, 2)
    n = pick(r, [4, 7, 9])
    D = make(r, 0, auto, cplx, frame, (), 1, 1, n, zero=False)

    def run(c):
        c.head["cfg"] = D.cfg()
        kw = dict(background=D.bg, variance=D.var)
        c.call(core.normalize, D.data, norm=norm, ret_weight=True, **kw)
        (res, w), err = c.call(core.normalize, D.data, norm=norm, ret_weight=True, **kw)
        x = core.normalize(D.data, norm=norm - 1, **kw)
        y = core.normalize(D.data, norm=norm - 2, **kw)
        again = core.normalize(D.data, norm=norm, weight=w.copy(), **kw)
        others = []
        for mode, scale in (("corr", True), ("diff", False), ("diff", True)):
            others.append(core.normalize(D.data, norm=norm, ret_weight=True, mode=mode, scale=scale, **kw)[1])
        S = 1000
        fx = lambda a: np.rint(np.real(a) * S).astype("int64").ravel().tolist()
        im = (lambda a: np.rint(np.imag(a) * S).astype("int64").ravel().tolist()) if cplx else (lambda a: [])
        c.event(k="wdef", api="normalize(weighted)", r=fx(res), w=fx(w), x=fx(x), y=fx(y), again=fx(again),
                ri=im(res), wi=im(w) if cplx else [0] * w.size, xi=im(x), yi=im(y), others=[fx(o) for o in others])
        c.canary(["others", 1, 0], to=1500)
        c.canary(["again", 0])
    rec.case(cid, run, "default weight norm=%d auto=%d complex=%d" % (norm, auto, cplx))


def wexact_case(rec, core, cid, r, auto, norm, n):
    frame = (3,)
    c = r.randint(1, 2)
    D0 = make(r, 0, auto, 0, frame, (), 1, 1, 1, zero=False)
    d, _, sq, m1, m2 = D0.data
    mm2 = m1 if m2 is None else m2
    b1, b2 = D0.b1[:, None], D0.b2[:, None]
    vs = (D0.v1 + D0.v2)[:, None]
    dot = lambda a, b: a.real * b.real + a.imag * b.imag
    d2 = abs(b1 - b2) ** 2
    if norm == 3:
        sq = c * d2 + c * vs + 2 * c * dot(b1, b2)
    else:
        sq = 2 * dot(m1 - mm2, b1 - b2) - c * d2 + c * vs + 2 * (dot(b1, mm2) + dot(m1, b2)) - 2 * c * dot(b1, b2)
    rep = lambda a: None if a is None else np.repeat(a, n, axis=-1)
    D = Data((rep(d), np.full(n, c), rep(np.rint(sq)), rep(m1), rep(m2)), D0.bg, D0.var, 0, auto, frame)

    def run(k):
        k.head["cfg"] = D.cfg()
        mode, scale = pick(r, ["corr", "diff"]), r.random() < 0.5
        (res, w), err = k.call(core.normalize, D.data, background=D.bg, variance=D.var, norm=norm, ret_weight=True,
                               mode=mode, scale=scale)
        res = core.normalize(D.data, background=D.bg, variance=D.var, norm=norm)
        den, sel = [], list(range(len(D.el)))
        for e in D.el:
            if norm == 3:
                x = 2 * c * e["dr"] - 2 * c * c * (e["b1r"] * e["b2r"] + e["b1i"] * e["b2i"])
            else:
                x = 2 * c * (e["dr"] - e["b1r"] * e["m2r"] - e["b1i"] * e["m2i"] - e["m1r"] * e["b2r"] - e["m1i"] * e["b2i"]) \
                    + 2 * c * c * (e["b1r"] * e["b2r"] + e["b1i"] * e["b2i"])
            q = c * c * (e["v1"] + e["v2"])
            den.append(x * x + q * q + (c * c * (e["v2"] - e["v1"])) ** 2)
        k.event(k="wexact", api="normalize(weighted)", norm=norm, sel=[i + 1 for i in sel], den=den,
                w=ints(w.ravel() * np.array(den, float)), r=ints(res.ravel() * 2 * c * c))
        k.canary(["w", 0])
    rec.case(cid, run, "exact default weight norm=%d auto=%d" % (norm, auto))


def flags_case(rec, mods, cid, r, api, method, auto, norm, full):
    core, mt = mods
    diff = int(method == "diff")
    T = 10
    frame = (2,)

    def run(c):
        f = np.array([2 * r.randint(-3, 3) + 2j * r.randint(-3, 3) for _ in range(2 * T)]).reshape((T, 2))
        g = np.array([2 * r.randint(-3, 3) + 2j * r.randint(-3, 3) for _ in range(2 * T)]).reshape((T, 2))
        kw = dict(method=method)
        if norm != -1:
            kw["norm"] = norm
        fn = getattr(mt if api.endswith("multi") else core, api)
        if api.startswith("i"):
            src = iter(f) if auto else iter(zip(f, g))
            kw.update(count=8, chunk_size=4)
            if api.endswith("multi"):
                kw["level_size"] = 4
            else:
                kw["n"] = 4
            kw["stats"] = False
            res, err = c.call(fn, src, **kw)
        else:
            if api.endswith("multi"):
                kw["level_size"] = 5
            else:
                kw["n"] = 3
            res, err = c.call(fn, *((f,) if auto else (f, g)), **kw)
        has = []
        raw = None
        if not err:
            raws = res if api.endswith("multi") else (res,)
            raw = raws[0]
            for x in raws:
                sq = x[2] if len(x) == 5 else None
                m1, m2 = x[-2:]
                has.append([int(i is not None) for i in (sq, m1, m2)])
        c.event(k="compute", api=api, diff=diff, auto=auto, norm=norm, raised=int(bool(err)), err=err, has=has)
        c.head["cfg"] = dict(diff=diff, cplx=0, hassq=0, hasm=0, el=[])
        if raw is None:
            return
        raw = tuple(None if x is None else (x[..., :2].copy() if x.ndim > 1 else x[:2].copy()) for x in raw)
        bg = np.array([2 + 2j, -2j])
        var = np.array([4., 6.])
        if not auto:
            bg, var = (bg, np.array([0j, 4.])), (var, np.array([2., 3.]))
        D = Data(raw, bg, var, diff, auto, frame)
        c.head["cfg"] = D.cfg()
        reqs = list(itertools.product((-1,) + tuple(range(0, 17)), ("corr", "diff", "other"), (0, 1), (0, 1), (0, 1)))
        if not full:
            reqs = [q for q in reqs if q[1] != "other" or r.random() < 0.1]
            reqs = [q for q in reqs if r.random() < 0.35]
        for nrm, mode, scale, hasbg, hasvar in reqs:
            real = nrm if nrm != -1 else (2 + 4 * D.hasm if diff else 1 + 2 * D.hassq + 4 * D.hasm)
            w4 = arr(r, D.shape, 0, 4) if real & 3 == 3 and not diff else None
            words = WORDS.get(nrm) if r.random() < 0.25 else None
            request(c, core, D, r, nrm, words, mode, scale, hasbg, hasvar, w4=w4)
        bad = ["foo", "structured1", "", "flags", "corr"]
        for w in bad:
            request(c, core, D, r, -1, [w], "corr", 0)
        c.canary(["raised"], ev=r.randrange(1, len(c.ev)), to=None) if False else None
        for i in range(3):
            j = r.randrange(1, len(c.ev))
            c.canary(["raised"], ev=j, to=1 - c.ev[j]["raised"])
        c.canary(["has", 0, 1], ev=0, to=1 - c.ev[0]["has"][0][1])
    rec.case(cid, run, "%s method=%s norm=%d" % (api, method, norm))


def words_case(rec, core, nm):
    def run(c):
        c.head["cfg"] = dict(diff=0, cplx=0, hassq=0, hasm=0, el=[])
        base = ["baseline", "standard", "structured", "weighted", "subtracted", "compensated", "none"]
        for k in (1, 2, 3):
            for ws in itertools.product(base + (["other", ""] if k < 3 else []), repeat=k):
                s = ("|" if hash(ws) % 2 else " | ").join(ws)
                res, err = c.call(nm.norm_from_string, s)
                c.event(k="words", api="norm_from_string", words=list(ws), raised=int(bool(err)), obs=-1 if err else int(res))
        c.canary(["obs"], ev=3)
        for a, b, w, d in itertools.product((False, True), repeat=4):
            res = core.norm_flags(structured=a, subtracted=b, weighted=w, compensated=d)
            c.event(k="flags", api="norm_flags", structured=int(a), subtracted=int(b), weighted=int(w), compensated=int(d), obs=int(res))
        c.canary(["obs"])
    rec.case("words", run, "norm_from_string and norm_flags")


def main():
    path, focus = sys.argv[1:3]
    import cddm.core as core
    import cddm.multitau as mt
    import cddm.norm as nm
    quiet()
    rec = Recorder(path)
    k = 0
    if focus == "values":
        for rep in range(6 if not THOROUGH else 60):
            for diff, auto, cplx, nd, level in itertools.product((0, 1), (0, 1), (0, 1), (0, 1, 2), (0, 1)):
                if diff and cplx:
                    continue
                k += 1
                values_case(rec, core if False else nmcore(core, nm), "val-%d-%d" % (rep, k), rng("val", rep, k), diff, auto, cplx, nd, level)
            for auto, cplx, nd, norm in itertools.product((0, 1), (0, 1), (1, 2), (3, 7, 11, 15)):
                k += 1
                weights_case(rec, nmcore(core, nm), "weight-%d-%d" % (rep, k), rng("w", rep, k), auto, cplx, nd, norm)
            for auto, norm in itertools.product((0, 1), (3, 7) if not SINGLE else ()):
                for j in range(3):
                    k += 1
                    wexact_case(rec, nmcore(core, nm), "wexact-%d-%d" % (rep, k), rng("we", rep, k), auto, norm, [3, 5, 8][j])
    else:
        words_case(rec, nmcore(core, nm), nm)
        for rep in range(1 if not THOROUGH else 4):
            for api in ("ccorr", "acorr", "ccorr_multi", "acorr_multi", "iccorr", "iacorr", "iccorr_multi", "iacorr_multi"):
                for method in ("corr", "fft", "diff"):
                    for norm in (-1,) + tuple(range(0, 10)):
                        k += 1
                        auto = int("a" in api.replace("iacorr", "a").split("_")[0][:1])
                        flags_case(rec, (Both(core, nm), mt), "flags-%d-%d" % (rep, k), rng("flags", rep, k), api, method, auto, norm,
                                   THOROUGH)
    rec.done()


class Both(object):
    """Names from cddm.core, falling back to cddm.norm."""

    def __init__(self, *mods):
        self.mods = mods

    def __getattr__(self, name):
        for m in self.mods:
            if hasattr(m, name):
                return getattr(m, name)
        raise AttributeError(name)


def nmcore(core, nm):
    return Both(nm, core)


if __name__ == "__main__":
    main()
