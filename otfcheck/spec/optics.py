"""Reference formulas, written from the documentation and the cited papers.

These functions are never executed: the analysis interprets them abstractly and compares the
resulting value numbers with those of the program.
"""
import numpy as np


def freqs(n, d):
    """Unshifted sample frequencies of an n point transform with pitch d."""
    return np.fft.fftfreq(n, d)


def centred_fft(x, axes):
    return np.fft.fftshift(np.fft.fftn(np.fft.ifftshift(x, axes=axes), axes=axes), axes=axes)


def centred_ifft(x, axes):
    return np.fft.fftshift(np.fft.ifftn(np.fft.ifftshift(x, axes=axes), axes=axes), axes=axes)


def default_zrange(zsize, zres):
    return (np.arange(zsize) - zsize // 2) * zres


def pupil_coords(wl, na, ni, res, size):
    k = freqs(size, res)
    ky = k[:, None]
    kx = k[None, :]
    kr = np.hypot(ky, kx)
    phi = np.arctan2(ky, kx)  # azimuth measured from the x axis
    return kr, phi


def ideal_pupil(wl, na, ni, res, size):
    kr, phi = pupil_coords(wl, na, ni, res, size)
    return (kr < na / wl).astype(complex)


def defocus(wl, ni, kr, zrange):
    kz = np.sqrt(np.fmax((ni / wl) ** 2 - kr ** 2, 0))
    return np.exp(2j * np.pi * kz * np.asarray(zrange)[:, None, None])


def hanser_components(theta, phi, vec_corr):
    st, ct = np.sin(theta), np.cos(theta)
    sp, cp = np.sin(phi), np.cos(phi)
    z = [st * cp, st * sp]
    y = [(ct - 1) * sp * cp, ct * sp ** 2 + cp ** 2]
    x = [ct * cp ** 2 + sp ** 2, (ct - 1) * sp * cp]
    if vec_corr == "x":
        return x
    if vec_corr == "y":
        return y
    if vec_corr == "z":
        return z
    return z + y + x


def hanser_PSFa(wl, na, ni, res, size, zrange, vec_corr, condition, pupil=None):
    kr, phi = pupil_coords(wl, na, ni, res, size)
    if pupil is None:
        pupil = (kr < na / wl).astype(complex)
    kmag = ni / wl
    theta = np.arcsin(np.where(kr < kmag, kr, 0) / kmag)
    field = pupil * defocus(wl, ni, kr, zrange)
    if condition == "sine":
        field = field / np.sqrt(np.cos(theta))
    if condition == "herschel":
        field = field / np.cos(theta)
    if vec_corr == "none":
        fields = field[None]
    else:
        fields = np.array([p * field for p in hanser_components(theta, phi, vec_corr)])
    psf = np.fft.ifftn(fields, axes=(2, 3))
    return np.fft.fftshift(psf, axes=(2, 3))


def sheppard_OTFa(wl, na, ni, res, size, zres, zsize, vec_corr, condition, dual):
    k = freqs(size, res)
    kz = freqs(zsize, zres)[:, None, None]
    ky = k[None, :, None]
    kx = k[None, None, :]
    dk = 1 / (size * res)
    dkz = 1 / (zsize * zres)
    kr = np.sqrt(kz ** 2 + ky ** 2 + kx ** 2)
    kmag = ni / wl
    kz_min = np.sqrt(kmag ** 2 - (na / wl) ** 2)
    # thickness of the discretised shell: positional error along the radius
    safe = np.where(kr > 0, kr, 1)
    thick = np.where(kr > 0, np.sqrt((kz * dkz) ** 2 + (ky * dk) ** 2 + (kx * dk) ** 2) / safe, 0)
    height = abs(kz) if dual else kz
    shell = np.logical_and(abs(kr - kmag) < thick, height > kz_min + thick)
    rr = np.where(shell, kr, 1)
    m = np.where(shell, kx, 0) / rr
    n = np.where(shell, ky, 0) / rr
    s = np.where(shell, abs(kz), 1) / rr
    if condition == "sine":
        a = 1 / np.sqrt(s)
    elif condition == "herschel":
        a = 1 / s
    else:
        a = 1 + 0 * s
    zc = [-m, -n]
    yc = [-n * m / (1 + s), 1 - n ** 2 / (1 + s)]
    xc = [1 - m ** 2 / (1 + s), -m * n / (1 + s)]
    if vec_corr == "none":
        comps = [1 + 0 * s]
    elif vec_corr == "x":
        comps = xc
    elif vec_corr == "y":
        comps = yc
    elif vec_corr == "z":
        comps = zc
    else:
        comps = zc + yc + xc
    otf = np.array([np.where(shell, c * a, 0) + 0j for c in comps])
    return np.fft.fftshift(otf, axes=(1, 2, 3))


def intensity(psfa):
    return (psfa.real ** 2 + psfa.imag ** 2).sum(axis=0)


def flip_about_centre(x, axis):
    """Mirror image about index n // 2 (index 0 of an even axis maps to itself modulo n)."""
    n = x.shape[axis]
    y = np.flip(x, axis)
    if n % 2 == 0:
        y = np.roll(y, 1, axis)
    return y


def lateral_spectrum(psfa):
    """Centred lateral spectrum of an amplitude stack (components, z, y, x)."""
    return centred_fft(psfa, (2, 3))


def centred_radius(res, size):
    k = (np.arange(size) - size // 2) / (size * res)
    return np.hypot(k[:, None], k[None, :])


def outside(spectrum, radius, limit):
    """What is left of a spectrum outside the passband."""
    return np.where(radius >= limit, spectrum, 0)


def energy(x):
    return (x.real ** 2 + x.imag ** 2).sum(axis=0)


def transpose_lateral(x):
    return np.swapaxes(x, 1, 2)


def add(*xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def times(c, x):
    return c * x


def zeros_like(x):
    return 0 * x


def shell_distance(wl, ni, res, size, zres, zsize):
    """Radial distance of each centred frequency from the sphere of radius ni / wl."""
    kz = ((np.arange(zsize) - zsize // 2) / (zsize * zres))[:, None, None]
    k = (np.arange(size) - size // 2) / (size * res)
    ky = k[None, :, None]
    kx = k[None, None, :]
    return abs(np.sqrt(kz ** 2 + ky ** 2 + kx ** 2) - ni / wl), kz, np.hypot(ky, kx)


def outside_cone(spectrum, wl, na, ni, res, size, zres, zsize, dual):
    dist, kz, kr = shell_distance(wl, ni, res, size, zres, zsize)
    lat = np.hypot(1 / (size * res), 1 / (zsize * zres))
    bad = kr > na / wl + 2 * lat
    bad = np.logical_or(bad, dist > 2 * lat)
    if not dual:
        bad = np.logical_or(bad, kz + 0 * kr <= 0)
    return np.where(bad, spectrum, 0)
