"""Reference formulas for pyotf.utils."""
import numpy as np


def placed(a, newshape, odd=False):
    """The array with its centres moved to the centres of an array of the new shape, zero where there is no data.

    The centre is n // 2, or (n - 1) // 2 (the convention of fft_pad) if asked for.
    """
    for axis in range(len(newshape)):
        n, m = a.shape[axis], newshape[axis]
        before = (m - 1) // 2 - (n - 1) // 2 if odd else m // 2 - n // 2
        if m < n:
            a = a[(slice(None),) * axis + (slice(-before, m - before),)]
        elif m > n:
            a = np.pad(a, [(before, m - n - before) if i == axis else (0, 0) for i in range(len(newshape))], mode="constant")
    return a


def core(a, oldshape, newshape):
    """The part of an array of the new shape that holds data of an array of the old shape, both centred at (n - 1) // 2."""
    for axis in range(len(newshape)):
        n, m = oldshape[axis], newshape[axis]
        lo = (m - 1) // 2 - (n - 1) // 2
        if m > n:
            a = a[(slice(None),) * axis + (slice(lo, lo + n),)]
    return a


def shrunk(a, newshape):
    """The data that is left after cropping to the new shape where that is smaller."""
    return placed(a, [min(n, m) for n, m in zip(a.shape, newshape)], True)


def window(x, w):
    """First index and end of w pixels with pixel x at position w // 2, clipped at zero."""
    x = np.rint(x).astype(int)
    w = np.rint(w).astype(int)
    start = x - w // 2
    stop = start + w
    if stop <= 0:
        return 0, 0
    return max(start, 0), stop


def polar(y, x):
    return np.sqrt(x ** 2 + y ** 2), np.arctan2(y, x)


def root(x):
    return np.sqrt(x * (x > 0))


def centred(data):
    """Rolled so that the first maximum is at n // 2 of every axis."""
    at = np.unravel_index(np.argmax(data), data.shape)
    for axis in range(len(data.shape)):
        data = np.roll(data, data.shape[axis] // 2 - at[axis], axis)
    return data


def background(data, multiplier):
    return data - np.argmax(np.bincount(data.ravel())) * multiplier


def prepared(data, size, multiplier, same):
    nz, ny, nx = data.shape
    d = background(data, multiplier)
    if not same:
        if size < max(ny, nx):
            # the maximum is centred, then each axis that is too large is cropped about it
            d = placed(centred(d), (nz, min(ny, size), min(nx, size)))
        d = placed(d, (nz, size, size), True)
    return np.fmax(d, 0)


def binned(a, bins, counts, mean):
    """Blocks of the given sizes from the start of each axis, added up or averaged."""
    nd = len(bins)
    if nd == 1:
        a = a[: counts[0] * bins[0]].reshape((counts[0], bins[0])).sum(1)
    elif nd == 2:
        a = a[: counts[0] * bins[0], : counts[1] * bins[1]]
        a = a.reshape((counts[0], bins[0], counts[1], bins[1])).sum(3).sum(1)
    else:
        a = a[: counts[0] * bins[0], : counts[1] * bins[1], : counts[2] * bins[2]]
        a = a.reshape((counts[0], bins[0], counts[1], bins[1], counts[2], bins[2])).sum(5).sum(3).sum(1)
    if mean:
        for b in bins:
            a = a / b
    return a


def rings(a, cy, cx, step):
    """Mean and standard deviation over rings about (cy, cx)."""
    ny, nx = a.shape
    y = (np.arange(ny) - cy)[:, None]
    x = (np.arange(nx) - cx)[None, :]
    r = np.round(np.sqrt(y ** 2 + x ** 2) / step).astype(int).ravel()
    n = np.bincount(r)
    mean = np.bincount(r, a.ravel()) / n
    square = np.bincount(r, (a ** 2).ravel()) / n
    return mean, np.sqrt(square - mean ** 2)


def profile(a, cy, cx, step, iscomplex):
    if iscomplex:
        m1, s1 = rings(a.real, cy, cx, step)
        m2, s2 = rings(a.imag, cy, cx, step)
        return m1 + 1j * m2, np.sqrt(s1 ** 2 + s2 ** 2)
    return rings(a, cy, cx, step)


def resized(psf, size):
    """Lateral crop or zero padding that keeps the centre."""
    return placed(psf, (psf.shape[0], size, size))
