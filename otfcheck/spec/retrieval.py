"""Iterative retrieval of a pupil function from an intensity stack (Hanser et al., Optics Letters 2003, 28 (10), 801)."""
import numpy as np
from skimage.restoration import unwrap_phase

from .optics import defocus, hanser_PSFa, pupil_coords
from .util import placed, prepared
from .zern import modes


def field_of(pupil, df):
    """Amplitude of every focal plane, centred."""
    return np.fft.fftshift(np.fft.ifft2(pupil * df, axes=(1, 2)), axes=(1, 2))


def steps(data, wl, na, ni, res, zres, max_iters, pupil_tol, mse_tol, phase_only):
    """Pupil (unshifted, last one computed), model pupil (last one applied) and the three convergence records."""
    nz, n = data.shape[0], data.shape[2]
    kr, phi = pupil_coords(wl, na, ni, res, n)
    zrange = (np.arange(nz) - nz // 2) * zres
    df = defocus(wl, ni, kr, zrange)
    aperture = np.where(kr < na / wl, 1.0, 0.0)
    measured = np.sqrt(np.fmax(data, 0))
    pupil = aperture + 0j
    applied = pupil
    previous = None
    errors, derrors, dpupils = np.zeros(max_iters), np.full(max_iters, np.nan), np.full(max_iters, np.nan)
    for i in range(max_iters):
        applied = pupil
        field = field_of(pupil, df)
        errors[i] = ((data - abs(field) ** 2) ** 2).mean()
        if i > 0:
            derrors[i] = abs(errors[i - 1] - errors[i]) / errors[i - 1]
            dpupils[i] = (abs(previous - pupil) ** 2).mean() / (abs(previous) ** 2).mean()
        if errors[i] < mse_tol:
            break
        if i > 0:
            if dpupils[i] < pupil_tol or derrors[i] < mse_tol:
                break
        previous = pupil
        # keep the calculated phase, take the measured magnitude, and average the planes refocused
        replaced = measured * np.exp(1j * np.angle(field))
        spectra = np.fft.fft2(np.fft.ifftshift(replaced, axes=(1, 2)), axes=(1, 2)) / df
        pupil = spectra.mean(axis=0) * aperture
        if phase_only:
            pupil = np.exp(1j * np.angle(pupil)) * aperture
    return aperture, pupil, applied, errors[: i + 1], derrors[: i + 1], dpupils[: i + 1]


def retrieve(data, wl, na, ni, res, zres, max_iters, pupil_tol, mse_tol, phase_only):
    aperture, pupil, applied, e, de, dp = steps(data, wl, na, ni, res, zres, max_iters, pupil_tol, mse_tol, phase_only)
    inside = np.fft.fftshift(aperture)
    phase = unwrap_phase(np.fft.fftshift(np.angle(pupil))) * inside
    mag = np.fft.fftshift(abs(pupil)) * inside
    centred = np.fft.fftshift(pupil) * inside
    last = field_of(applied, defocus(wl, ni, pupil_coords(wl, na, ni, res, data.shape[2])[0], (np.arange(data.shape[0]) - data.shape[0] // 2) * zres))
    return mag, phase, centred, e, de, dp, abs(last) ** 2


def coords(wl, na, res, n):
    kr, phi = pupil_coords(wl, na, None, res, n)
    return np.fft.fftshift(kr), np.fft.fftshift(phi)


def complex_pupil(mag, phase):
    return mag * np.exp(1j * phase)


def recon_pupil(mc, pc, zerns, first):
    """Magnitude from all modes, phase from mode `first` (counted from zero) on."""
    mag = (mc[:, None, None] * zerns).sum(0)
    ph = (pc[first:, None, None] * zerns[first:]).sum(0)
    return mag * np.exp(1j * ph)


def generated(wl, na, ni, res, n, zrange, pupil, size):
    a = hanser_PSFa(wl, na, ni, res, n, zrange, "none", "none", np.fft.ifftshift(pupil))
    psf = (abs(a) ** 2).sum(0)
    return placed(psf, (psf.shape[0], size, size))


def basis(wl, na, res, n, nms):
    """Normalised Zernike modes on the centred pupil coordinates, radius 1 at the aperture."""
    kr, phi = coords(wl, na, res, n)
    return modes(kr / (na / wl), phi, nms, True)


def fit(a, wl, na, res, n, nms):
    """Least-squares coefficients of the modes for the samples inside the aperture."""
    kr, phi = coords(wl, na, res, n)
    inside = kr / (na / wl) <= 1
    z = modes(kr / (na / wl), phi, nms, True)
    return np.linalg.lstsq(z[:, inside].T, a[inside], rcond=None)[0]


def recon(coefs, zerns, start, stop, step):
    s = 0 * zerns[0]
    for j in range(start, stop, step):
        s = s + coefs[j] * zerns[j]
    return s


def recon_complex(mc, pc, zerns, m, p):
    return recon(mc, zerns, m[0], m[1], m[2]) * np.exp(1j * recon(pc, zerns, p[0], p[1], p[2]))


def as_array(x):
    return np.asarray(x)


def labview_phase(data, wl, na, ni, res, zres, max_iters, pupil_tol, mse_tol, phase_only, size, same):
    d = prepared(data, size, 1.5, same)
    return retrieve(d, wl, na, ni, res, zres, max_iters, pupil_tol, mse_tol, phase_only)[1]
