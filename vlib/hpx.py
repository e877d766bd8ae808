"""HEALPix written out from its definition (Gorski et al. 2005), one direction at a time: the reference for the sky pixelisation."""
import math
import functools
import numpy as np

TWOTHIRD = 2. / 3


def face_xy(nside, z, phi, sth=None):
    """Base face and position in it of a direction (z = cos(theta)).  sth = sin(theta), for precision near the poles."""
    za = abs(z)
    tt = (phi % (2 * math.pi)) / (math.pi / 2)
    if tt >= 4:
        tt = 0.
    if za <= TWOTHIRD:
        t1 = nside * (.5 + tt)
        t2 = nside * z * .75
        jp, jm = int(math.floor(t1 - t2)), int(math.floor(t1 + t2))
        fp, fm = jp // nside, jm // nside
        face = (fp & 3) + 4 if fp == fm else (fp if fp < fm else fm + 8)
        return face, jm % nside, nside - jp % nside - 1
    ntt = min(3, int(tt))
    tp = tt - ntt
    t = nside * (math.sqrt(3 * (1 - za)) if sth is None else sth / math.sqrt((1 + za) / 3.))
    jp, jm = min(nside - 1, int(tp * t)), min(nside - 1, int((1 - tp) * t))
    if z >= 0:
        return ntt, nside - jm - 1, nside - jp - 1
    return ntt + 8, jp, jm


def xyf2nest(nside, face, ix, iy):
    p = 0
    for b in range(32):
        p |= ((ix >> b) & 1) << (2 * b) | ((iy >> b) & 1) << (2 * b + 1)
    return face * nside * nside + p


def nest2xyf(nside, p):
    face, p = divmod(p, nside * nside)
    ix = iy = 0
    for b in range(32):
        ix |= ((p >> (2 * b)) & 1) << b
        iy |= ((p >> (2 * b + 1)) & 1) << b
    return face, ix, iy


JR = [2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4]
JP = [1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7]


def xyf2ring(nside, face, ix, iy):
    jr = JR[face] * nside - ix - iy - 1
    npix = 12 * nside * nside
    if jr < nside:
        nr, before, k = jr, 2 * jr * (jr - 1), 0
    elif jr > 3 * nside:
        nr = 4 * nside - jr
        before, k = npix - 2 * (nr + 1) * nr, 0
    else:
        nr, before, k = nside, 2 * nside * (nside - 1) + (jr - nside) * 4 * nside, (jr - nside) & 1
    jp = (JP[face] * nr + ix - iy + 1 + k) // 2
    if jp > 4 * nr:
        jp -= 4 * nr
    elif jp < 1:
        jp += 4 * nr
    return before + jp - 1


def xyf2dir(nside, face, ix, iy):
    """z and phi of the centre of a pixel (and the ring of it)."""
    jr = JR[face] * nside - ix - iy - 1
    if jr < nside:
        nr = jr
        z, k = 1 - nr * nr / (3. * nside * nside), 0
    elif jr > 3 * nside:
        nr = 4 * nside - jr
        z, k = nr * nr / (3. * nside * nside) - 1, 0
    else:
        nr = nside
        z, k = (2 * nside - jr) * 2. / (3 * nside), (jr - nside) & 1
    jp = (JP[face] * nr + ix - iy + 1 + k) // 2
    if jp > 4 * nr:
        jp -= 4 * nr
    elif jp < 1:
        jp += 4 * nr
    return z, (jp - (k + 1) * .5) * (math.pi / 2 / nr)


def pix(nside, scheme, z, phi, sth=None):
    f = face_xy(nside, z, phi, sth)
    return xyf2nest(nside, *f) if scheme == "NEST" else xyf2ring(nside, *f)


@functools.lru_cache(maxsize=64)
def ring_of_nest(nside):
    """Table: RING number of every NEST number."""
    return np.array([xyf2ring(nside, *nest2xyf(nside, p)) for p in range(12 * nside * nside)])


@functools.lru_cache(maxsize=64)
def centres(nside):
    """theta, phi of the pixel centres in RING order."""
    z, ph = np.zeros(12 * nside * nside), np.zeros(12 * nside * nside)
    for p in range(12 * nside * nside):
        f = nest2xyf(nside, p)
        q = xyf2ring(nside, *f)
        z[q], ph[q] = xyf2dir(nside, *f)
    return np.arccos(z), ph


def ringinfo(nside, r):
    """first pixel, number of pixels, theta, shifted of ring r = 1..4*nside-1."""
    npix = 12 * nside * nside
    if r < nside:
        return 2 * r * (r - 1), 4 * r, math.acos(1 - r * r / (3. * nside * nside)), True
    if r > 3 * nside:
        q = 4 * nside - r
        return npix - 2 * q * (q + 1), 4 * q, math.acos(q * q / (3. * nside * nside) - 1), True
    return 2 * nside * (nside - 1) + (r - nside) * 4 * nside, 4 * nside, math.acos((2 * nside - r) * 2. / (3 * nside)), ((r - nside) & 1) == 0


def interpol(nside, theta, phi):
    """Bilinear interpolation: 4 RING pixel numbers and weights."""
    phi = phi % (2 * math.pi)
    rings = [r for r in range(1, 4 * nside) if ringinfo(nside, r)[2] <= theta]
    r1 = max(rings) if rings else 0
    r2 = r1 + 1
    px, wg, ths = [0] * 4, [0.] * 4, [None, None]
    for j, r in enumerate((r1, r2)):
        if not 1 <= r <= 4 * nside - 1:
            continue
        sp, n, th, sh = ringinfo(nside, r)
        ths[j] = th
        d = 2 * math.pi / n
        t = phi / d - .5 * sh
        i = math.floor(t)
        w = t - i
        px[2 * j], px[2 * j + 1] = sp + i % n, sp + (i + 1) % n
        wg[2 * j], wg[2 * j + 1] = 1 - w, w
    if r1 == 0:
        t = theta / ths[1]
        f = (1 - t) * .25
        return [(px[2] + 2) & 3, (px[3] + 2) & 3, px[2], px[3]], [f, f, wg[2] * t + f, wg[3] * t + f]
    npix = 12 * nside * nside
    if r2 == 4 * nside:
        t = (theta - ths[0]) / (math.pi - ths[0])
        f = t * .25
        return [px[0], px[1], ((px[0] + 2) & 3) + npix - 4, ((px[1] + 2) & 3) + npix - 4], [wg[0] * (1 - t) + f, wg[1] * (1 - t) + f, f, f]
    t = (theta - ths[0]) / (ths[1] - ths[0])
    return px, [wg[0] * (1 - t), wg[1] * (1 - t), wg[2] * t, wg[3] * t]
