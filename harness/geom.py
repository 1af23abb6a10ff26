"""Random data and wavevector geometry of the recording side."""
import numpy as np

from rec import NAN, ints


def pick(r, xs):
    return xs[r.randrange(len(xs))]


def cx(a, scale=1):
    a = np.asarray(a)
    re, im = np.array(ints(a.real, scale)), np.array(ints(a.imag if a.dtype.kind == "c" else np.zeros(a.shape), scale))
    if a.dtype.kind in "cf":
        im[np.isnan(a)] = 0
        re[np.isnan(a)] = NAN
    return np.stack([re, im], -1).astype(int).tolist()


def gauss(r, shape, m=9, real=False):
    n = int(np.prod(shape))
    a = np.array([r.randint(-m, m) for _ in range(n)], float)
    if not real:
        a = a + 1j * np.array([r.randint(-m, m) for _ in range(n)])
    return a.reshape(shape)


def vec(i, j, h, w, sh):
    y, x = (i if 2 * i < h else i - h), (j if 2 * j < w else j - w)
    return (x, -y) if sh is None else (x * sh[0], -y * sh[1])


def vden(sh):
    return 1 if sh is None else min(sh)


def frame_shape(r, h, w, half=False):
    """a frame whose transform may have been cropped to h x w"""
    q = r.randrange(3)
    if q == 0:
        return None
    if q == 1:
        return (h, w)
    return (h + r.randint(0, 4), w + r.randint(0, 4))
