"""What the panels of the figures show."""
import numpy as np

from .util import window


def projections(p):
    """Maximum projections onto xy (rows y), yz (rows y) and xz (rows z)."""
    return np.max(p, 0), np.max(p, 2).T, np.max(p, 1)


def central(p):
    """Planes through index n // 2: xy (rows y), yz (rows y) and xz (rows z)."""
    nz, ny, nx = p.shape
    return p[nz // 2], p[:, :, nx // 2].T, p[:, ny // 2]


def span(n, d):
    """Coordinates of the first and last sample, the origin at n // 2."""
    return -(n // 2) * d, (n - 1 - n // 2) * d


def extents(shape, dz, dy, dx):
    nz, ny, nx = shape
    z, y, x = span(nz, dz), span(ny, dy), span(nx, dx)
    return x + y, z + y, x + z


def fourier_extents(shape, zres, res):
    nz, ny, nx = shape
    return extents(shape, 1 / zres / nz, 1 / res / ny, 1 / res / nx)


def view(psf, wl, na, ni, res, zres):
    """The part around the maximum: 32 lateral and 16 axial resolution units wide, as far as there is data."""
    lateral = wl / 2 / na / res * 32
    axial = wl / (ni - np.sqrt(ni ** 2 - na ** 2)) / zres * 16
    cz, cy, cx = np.unravel_index(np.argmax(psf), psf.shape)
    z, y, x = window(cz, axial), window(cy, lateral), window(cx, lateral)
    return psf[z[0] : z[1], y[0] : y[1], x[0] : x[1]]


def magnitude(otf):
    a = abs(otf)
    return np.fmax(a / a.max(), np.finfo(float).eps)


def arcs(na, ni, wl):
    """Boundary of the axial support: centre (horizontal, vertical), radius, and directions of the arc's ends, kz vertical."""
    a = np.arcsin(min(1, na / ni))
    r = ni / wl
    out = []
    for sx in (1, -1):
        for sz in (1, -1):
            # each arc runs from the origin to the edge of the lateral support, about the direction towards the other half space
            out.append((sx * r * np.sin(a), sz * r * np.cos(a), r, -sz * np.pi / 2 - a, -sz * np.pi / 2 + a))
    return out


def arc_key(c, r, t1, t2):
    """Comparable description of an arc given in degrees."""
    return c[0], c[1], r, np.cos(np.deg2rad(t1)), np.sin(np.deg2rad(t1)), np.cos(np.deg2rad(t2)), np.sin(np.deg2rad(t2))


def arc_keys(na, ni, wl, swap):
    """The same for the expected arcs; with swap, kz is horizontal: mirrored at the diagonal, so that the ends change places."""
    out = []
    for cx, cz, r, t1, t2 in arcs(na, ni, wl):
        if swap:
            out.append((cz, cx, r, np.sin(t2), np.cos(t2), np.sin(t1), np.cos(t1)))
        else:
            out.append((cx, cz, r, np.cos(t1), np.sin(t1), np.cos(t2), np.sin(t2)))
    return out


def squeeze(n1, n2, na):
    """Ratio of focal shifts of marginal rays."""
    if n1 == n2:
        return 1
    a = n1 - np.sqrt(n1 ** 2 - na ** 2) if n1 > na else n1
    b = n2 - np.sqrt(n2 ** 2 - na ** 2) if n2 > na else n2
    return a / b


def hidden(phase, mag):
    return np.where(mag == 0, 0, phase)


def ramp(start, step, n):
    return start + step * np.arange(n)


def bumped(start, step, n, at, by):
    """A ramp with one position displaced by a part of the step."""
    i = np.arange(n)
    return start + step * (i + by * (i == at))
