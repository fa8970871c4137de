"""Zernike polynomials in Noll's order, written from the definition (Noll 1976, Born & Wolf)."""
import numpy as np


def fact(k):
    p = 1
    for i in range(2, k + 1):
        p = p * i
    return p


def radial(r, n, m):
    """R_n^m(r) = sum_k (-1)^k (n-k)! / (k! ((n+m)/2-k)! ((n-m)/2-k)!) r^(n-2k)."""
    total = 0 * r
    for k in range((n - m) // 2 + 1):
        c = fact(n - k) // (fact(k) * fact((n + m) // 2 - k) * fact((n - m) // 2 - k))
        if k % 2:
            c = -c
        total = total + c * r ** (n - 2 * k)
    return total


def mode(r, theta, n, m, norm):
    """One polynomial, zero outside the unit disk, with unit variance over the disk if norm."""
    if m < 0:
        ang = np.sin(-m * theta)
        am = -m
    else:
        ang = np.cos(m * theta)
        am = m
    z = radial(r, n, am) * ang * (r <= 1)
    if norm:
        if m == 0:
            z = z * np.sqrt(n + 1)
        else:
            z = z * np.sqrt(2 * (n + 1))
    return z


def modes(r, theta, nms, norm):
    return np.array([mode(r, theta, n, m, norm) for n, m in nms])


def total(coefs, r, theta, nms):
    """sum_j coefs[j] Z_j for normalised modes."""
    s = 0 * r
    for i in range(len(nms)):
        n, m = nms[i]
        s = s + coefs[i] * mode(r, theta, n, m, True)
    return s
