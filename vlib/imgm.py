"""Imaging, written out: gridding kernel, Fourier sums, wide-field kernel."""
import math
import numpy as np

F = np.float32


def cells(x, footprint):
    """Cells a sample at x (single precision) is spread over, and their distance."""
    h = F(footprint // 2)
    x = F(x)
    if np.isnan(x):
        return np.zeros(0, int), np.zeros(0)
    j = np.arange(int(math.floor(F(x - h))), int(math.ceil(F(x + h))) + 1)
    return j, float(x) - j


def grid1(buf, ind, dat, footprint=6):
    out = buf.astype(complex)
    for x, d in zip(ind, dat):
        j, dx = cells(x, footprint)
        np.add.at(out, j % out.size, math.sqrt(2 / math.pi) * np.exp(-2 * dx ** 2) * d)
    return out


def weights2(x, y, shape, footprint):
    j1, d1 = cells(x, footprint)
    j2, d2 = cells(y, footprint)
    if not j1.size or not j2.size:
        return np.zeros((0, 0), int), np.zeros((0, 0), int), np.zeros((0, 0))
    w = 2 / math.pi * np.exp(-2 * (d1[:, None] ** 2 + d2[None, :] ** 2))
    a, b = np.meshgrid(j1 % shape[0], j2 % shape[1], indexing="ij")
    return a, b, w


def grid2(buf, ind1, ind2, dat, footprint=6):
    out = buf.astype(complex)
    for x, y, d in zip(ind1, ind2, dat):
        a, b, w = weights2(x, y, out.shape, footprint)
        np.add.at(out, (a, b), w * d)
    return out


def degrid2(buf, ind1, ind2, footprint=6):
    res = []
    for x, y in zip(ind1, ind2):
        a, b, w = weights2(x, y, buf.shape, footprint)
        res.append((w * buf[a, b]).sum() / w.sum() if w.size else complex("nan"))
    return np.array(res, complex)


def position(u, v, res):
    """Row and column of (u, v): up = North, right = ... as the image is laid out."""
    return (-np.asarray(v) / res).astype(F), (np.asarray(u) / res).astype(F)


def dft(uv):
    """Direct inverse Fourier sum of a square grid: image[row, col] with (0, 0) first."""
    n, m = uv.shape
    k = np.arange(n)
    l = np.arange(m)
    return np.exp(2j * np.pi * np.outer(k, k) / n).dot(uv).dot(np.exp(2j * np.pi * np.outer(l, l) / m)) / (n * m)


def dft_forward(im):
    n, m = im.shape
    k, l = np.arange(n), np.arange(m)
    return np.exp(-2j * np.pi * np.outer(k, k) / n).dot(im).dot(np.exp(-2j * np.pi * np.outer(l, l) / m))


def lm(dim, res):
    """l (east, growing to the left) and m (north, growing upwards) of the pixels, origin first."""
    k = np.arange(dim)
    s = np.where(k > dim // 2, k - dim, k)
    f = s / (dim * res)
    return np.broadcast_to(-f[None, :], (dim, dim)), np.broadcast_to(f[:, None], (dim, dim))


def wkernel(dim, res, w):
    """Factor of the image which takes data at w to w = 0."""
    l, m = lm(dim, res)
    r2 = l ** 2 + m ** 2
    n = np.sqrt(np.where(r2 < 1, 1 - r2, 0))
    return np.where(r2 < 1, np.exp(-2j * np.pi * w * (n - 1)), 0)
