"""Reference formulas for pupil functions, Zernike modes, aberrations and phase retrieval."""
import numpy as np


def outside_passband(psfa, wl, na, res, size):
    """Lateral spectrum of an amplitude stack restricted to frequencies outside the aperture."""
    k = np.fft.fftfreq(size, res)
    kr = np.hypot(k[:, None], k[None, :])
    spec = np.fft.fftn(np.fft.ifftshift(psfa, axes=(-2, -1)), axes=(-2, -1))
    return np.where(kr >= na / wl, spec, 0)
