"""Reference formulas for the microscope models."""
import numpy as np
from scipy.signal import fftconvolve


def to_camera(psf, n, factor):
    """Integrate an oversampled stack over square camera pixels centred on every factor-th sample."""
    if factor > 1:
        half = (factor - 1) // 2
        if n % 2 == 0:
            psf = np.roll(np.roll(psf, half, axis=1), half, axis=2)
        nz = psf.shape[0]
        psf = psf.reshape((nz, n, factor, n, factor)).sum(axis=(2, 4))
    return psf / psf.sum()


def disk(radius):
    """Normalised pinhole of the given radius, in pixels, on the smallest centred odd grid."""
    width = int(np.ceil(2 * radius))
    if width % 2 == 0:
        width = width + 1
    c = np.arange(width) - (width - 1) // 2
    inside = np.sqrt(c[:, None] ** 2 + c[None, :] ** 2) < radius
    return inside / inside.sum()


def confocal(psf_em, psf_exc, wl, na, res, pinhole):
    """Detection PSF blurred by the pinhole times the excitation PSF."""
    radius = pinhole * 1.22 * wl / na / 2 / res
    if radius > 1.5:
        det = fftconvolve(psf_em, disk(radius)[None], "same", axes=(1, 2))
    else:
        det = psf_em
    return det * psf_exc


def radial_mean(plane):
    """Mean over rings of integer radius about index n // 2."""
    ny, nx = plane.shape
    y = (np.arange(ny) - ny // 2)[:, None]
    x = (np.arange(nx) - nx // 2)[None, :]
    r = np.round(np.sqrt(y ** 2 + x ** 2)).astype(int).ravel()
    return np.bincount(r, plane.ravel()) / np.bincount(r)


def apotome(psf, wl, na, size, res):
    otf = np.fft.fftshift(np.fft.fftn(np.fft.ifftshift(psf, axes=(1, 2)), axes=(1, 2)), axes=(1, 2))
    prof = np.array([radial_mean(o.real) + 1j * radial_mean(o.imag) for o in otf])
    prof = abs(prof / prof.max())
    limit = int(np.rint(size * res / (wl / na / 4) / 2))
    return prof[:, limit // 2][:, None, None] * psf


def sim_filtered(psf, wiener):
    """Wiener-deconvolved detection PSF."""
    if wiener is None:
        return psf
    power = abs(np.fft.fftshift(np.fft.fftn(np.fft.ifftshift(psf)))) ** 2
    if wiener == 0:
        filt = power > 1e-16
    else:
        filt = power / (power + power.max() * wiener ** 2)
    return np.fft.fftshift(np.fft.ifftn(np.fft.ifftshift(filt))).real


def sim(psf, ni, na_exc, wl_exc, res, zres, wiener, coherent, dc, dc_suppress, orientations):
    nz, ny, nx = psf.shape
    z = ((np.arange(nz) - nz // 2) * zres)[:, None, None]
    y = ((np.arange(ny) - ny // 2) * res)[None, :, None]
    x = ((np.arange(nx) - nx // 2) * res)[None, None, :]
    k = 2 * np.pi * ni / wl_exc
    sin_a = na_exc / ni
    cos_a = np.sqrt(1 - sin_a ** 2)
    centre = np.exp(1j * k * z) if dc else 0
    det = sim_filtered(psf, wiener)
    fields = []
    for o in orientations:
        r = x * np.cos(o) + y * np.sin(o)
        fields.append(np.exp(1j * k * (z * cos_a + r * sin_a)) + np.exp(1j * k * (z * cos_a - r * sin_a)))
    if coherent:
        total = centre
        for f in fields:
            total = total + f
        return det * abs(total) ** 2
    out = 0
    for f in fields:
        out = out + det * abs(f + centre) ** 2
    if dc_suppress:
        out = out - (2 * len(orientations) - 1) * det
    return out


def total(x):
    return x.sum()
