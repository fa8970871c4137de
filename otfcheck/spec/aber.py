"""Aberrated pupils: Zernike modes in Noll's order on the aperture of the pupil-function model."""
import numpy as np

from .optics import hanser_PSFa, pupil_coords
from .zern import mode


def weighted(coefs, r, phi, nms):
    s = 0 * r
    for i in range(len(nms)):
        n, m = nms[i]
        s = s + coefs[i] * mode(r, phi, n, m, True)
    return s


def pupil(wl, na, ni, res, size, mcoefs, pcoefs, nms):
    """(aperture + sum_j m_j Z_j) exp(i sum_j p_j Z_j), Z_j the normalised modes on the aperture."""
    kr, phi = pupil_coords(wl, na, ni, res, size)
    r = kr / (na / wl)
    mag = np.where(kr < na / wl, 1, 0) + 0 * r
    if mcoefs is not None:
        mag = mag + weighted(mcoefs, r, phi, nms)
    phase = 0 * r
    if pcoefs is not None:
        phase = weighted(pcoefs, r, phi, nms)
    return mag * np.exp(1j * phase)


def aberrated_PSFa(wl, na, ni, res, size, zrange, vec_corr, condition, mcoefs, pcoefs, nms):
    return hanser_PSFa(wl, na, ni, res, size, zrange, vec_corr, condition, pupil(wl, na, ni, res, size, mcoefs, pcoefs, nms))


def negated(x):
    return -x


def joined(x, y):
    return x + y
